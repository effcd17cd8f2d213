#ifndef VC_COMMON_H
#define VC_COMMON_H
#include <vc.h>
#include <string>
#include <vector>
#include <sstream>
#include <list>
#include <boost/asio.hpp>
#include <boost/chrono.hpp>
#include <boost/thread.hpp>
#include <boost/date_time.hpp>
#include <boost/smart_ptr.hpp>
#include <boost/bind/bind.hpp>
#include <boost/typeof/typeof.hpp>
#include <boost/container/list.hpp>
#include <boost/lambda/lambda.hpp>
#include <boost/lambda/bind.hpp>
#include <boost/lambda/if.hpp>
#include <boost/atomic.hpp>
#include <boost/array.hpp>
#include <boost/functional.hpp>
#include <boost/unordered_map.hpp>
#include <vc_elem.h>
#define private public
#define protected public
#include "base.h"
#include "ext/ext.h"

// the wire header, as specified: big endian, 2 bytes (4 with ST_ASIO_HUGE_MSG), counts itself
inline uint64_t be_head(const char* p)
{
	uint64_t r = 0;
	for (unsigned i = 0; i < ST_ASIO_HEAD_LEN; ++i)
		r = r << 8 | vc_byte(p, i);
	return r;
}
inline uint64_t head_range() {return 2 == ST_ASIO_HEAD_LEN ? 0xFFFF : 0xFFFFFFFFull;}
inline uint64_t max_packed() {return ST_ASIO_MSG_BUFFER_SIZE < head_range() ? ST_ASIO_MSG_BUFFER_SIZE : head_range();}
// an arbitrary string
inline void any_str(std::string& s, const char* name, uint64_t limit = (uint64_t) 1 << 48)
{
	uint64_t n = vc_u64(name);
	vc_assume(n < limit);
	s.resize(n);
	vc_havoc_bytes((void*) s.data(), n);
}
// size and content of a string, to compare with later
struct str_snap
{
	uint64_t n, tok;
	str_snap(const std::string& s) : n(s.size()), tok(vc_snap(s.data(), s.size())) {}
	bool same(const std::string& s) const {return vc_and(s.size() == n, vc_snap(s.data(), s.size()) == tok);}
};
// an arbitrary list of strings: element i has size LS(i); SUM(i) is the sum of the sizes before i
inline uint64_t SUM(uint64_t mon, uint64_t i) {return vc_uf2("list_sum", mon, i);}
#endif
