// shared by the contracts on the encoders of lists of messages
#include "common.h"
#include "ext/packer.h"
using namespace st_asio_wrapper;
using namespace st_asio_wrapper::ext;
typedef st_asio_wrapper::list<std::string> strings;

static uint64_t limit() {return max_packed() - ST_ASIO_HEAD_LEN;}
static uint64_t g_n; // elements of the list under summation

// definition of the prefix sums of the arbitrary list no. 1
static void on_load(uint64_t mon, uint64_t i, const uint64_t* f)
{
	if (1 == mon)
	{
		vc_assume(SUM(1, i + 1) == SUM(1, i) + f[0]);
		vc_assume(vc_imp(i < g_n, vc_and(SUM(1, i) <= SUM(1, i + 1), SUM(1, i + 1) <= SUM(1, g_n))));
	}
}
static bool inv_sum(void* p, uint64_t x, uint64_t y) {return vc_and(x <= g_n, y == SUM(1, x));}

struct list_snap // size and one arbitrary element of a list
{
	uint64_t n, k, s, t;
	list_snap(strings& l, const char* nm) : n(l.size()), k(vc_u64(nm)), s(0), t(0) {get(l, k, s, t);} // nothing to say when k >= n
	static void get(strings& l, uint64_t i, uint64_t& s, uint64_t& t) {s = l.feat(0, i); t = l.feat(1, i);}
	bool at(strings& l, uint64_t i) const {uint64_t a, b; get(l, i, a, b); return vc_imp(k < n, vc_and(a == s, b == t));}
};
static bool head_is(strings& l, uint64_t i, uint64_t v)
{
	std::string& h = l.at(i);
	return vc_and(h.size() == ST_ASIO_HEAD_LEN, be_head(h.data()) == v);
}
static bool str_is(strings& l, uint64_t i, const str_snap& s) {return vc_and(l.feat(0, i) == s.n, l.feat(1, i) == s.tok);}

