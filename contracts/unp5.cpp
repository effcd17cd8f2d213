// Contracts: udp_unpacker, udp_unpacker2 (ext/unpacker.h)
#include "unp_common.h"
#include "feat_buf.h"
static const std::string& str(const std::string& s) {return s;}
static const std::string& str(const BUF& b) {return *b.raw_buffer();}
template<typename U, typename T> static void prove()
{
	U* d = new U();
	i_unpacker<T>* iu = d;
	vc_bytes(d->raw_buff.begin(), MAXLEN);
	iu->reset();
	boost::asio::mutable_buffer buf = one(iu->prepare_next_recv());
	vc_assert(buf.size() == MAXLEN && (char*) buf.data() == d->raw_buff.begin(), "a datagram is received into the buffer");
	vc_havoc_bytes(buf.data(), MAXLEN);
	uint64_t bytes = vc_u64("bytes"), j = vc_u64("byte");
	vc_assume(bytes > 0 && bytes <= MAXLEN); // empty datagrams do not get here: see the contract of recv_handler
	st_asio_wrapper::list<T> out;
	any_out(out);
	bool compose = vc_split(vc_bool("compose"));
	const char* src = d->raw_buff.begin();
	if (compose)
	{
		src = vc_alloc(bytes, "composed");
		iu->compose_msg(src, bytes, out);
	}
	else
		vc_assert(iu->parse_msg(bytes, out), "a datagram is always accepted");
	vc_assert(out.size() == out0 + 1, "a datagram is delivered, once");
	vc_assert(vc_imp(g_k < out0, vc_and(out.feat(0, g_k) == g_k0, out.feat(1, g_k) == g_k1)), "messages already there are untouched");
	T& m = out.at(out0);
	const T& cm = m;
	const std::string& s = str(m);
	vc_assert(s.size() == bytes, "size of a datagram");
	vc_assert(vc_imp(j < bytes, vc_byte(s.data(), j) == vc_byte(src, j)), "content of a datagram");
	vc_assert(!vc_same_object(s.data(), src), "the next datagram does not overwrite it");
	vc_assert(iu->raw_data(m) == s.data() && iu->raw_data(cm) == s.data() && iu->raw_data_len(cm) == bytes, "payload of a delivered message");
}
extern "C" void vc_contract_p05_udp_unpacker() {prove<udp_unpacker, std::string>(); vc_cover("end");}
extern "C" void vc_contract_p05_udp_unpacker2() {prove<udp_unpacker2<BUF>, BUF>(); vc_cover("end");}
