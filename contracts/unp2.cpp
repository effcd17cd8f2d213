// Contracts: flexible_unpacker (ext/unpacker.h): a small buffer, big messages are received in place
#include "unp_common.h"
#ifdef UNP_STRING
typedef std::string M;
#else
typedef basic_buffer M;
#endif
typedef flexible_unpacker<M> U;
typedef st_asio_wrapper::list<M> msgs;
enum {RB = 4000};
static uint64_t skip() {return strip ? HEAD : 0;}
static bool big_len(uint64_t h) {return vc_and(h > RB, h <= MAXLEN);}

// receiving into the small buffer
static void any_small(U& u, uint64_t bytes)
{
	vc_bytes(u.raw_buff.begin(), RB);
	vc_havoc_bytes(u.raw_buff.begin(), RB);
	u.remain_len = vc_u64("remain");
	u.cur_msg_len = vc_u64("cur");
	vc_assume(u.remain_len <= RB);
	vc_assume(bytes <= RB - u.remain_len);
	LEN = u.remain_len + bytes;
	vc_memcpy_ghost(st = vc_unbounded(), u.raw_buff.begin(), RB);
	base_off = vc_ptr_off(u.raw_buff.begin());
	vc_assume(vc_or(u.cur_msg_len == (size_t) -1, vc_and(u.cur_msg_len == H(0), LEN >= HEAD)));
}
// receiving the body of a big message in place
static uint64_t any_big(U& u, uint64_t bytes)
{
	uint64_t n = vc_u64("big");
	vc_assume(n > RB - HEAD && n <= MAXLEN);
	u.big_msg.resize(n);
	vc_havoc_bytes((void*) u.big_msg.data(), n);
	u.cur_msg_len = n;
	u.remain_len = vc_u64("remain");
	vc_assume(u.remain_len < n);
	vc_assume(bytes <= n - u.remain_len);
	LEN = u.remain_len + bytes;
	return n;
}

extern "C" void vc_contract_p03_flexible_positions()
{
	U* u = new U();
	any_small(*u, vc_u64("bytes"));
	u->remain_len = LEN;
	hooks_on();
	prove_positions(u);
	vc_assert(u->big_msg.empty(), "no big message");
	vc_cover("end");
}

extern "C" bool stub_parse_pos(U* u, pos_list* pl) {return stub_positions(u, pl);}

// a big message in place of a header at offset b of the bytes received
static void prove_big(U* u, uint64_t b)
{
	uint64_t j = vc_u64("byte");
	vc_assert(u->cur_msg_len == H(b) - skip() && u->big_msg.size() == H(b) - skip(), "room for the big message, exactly");
	vc_assert(u->remain_len == LEN - b - skip() && u->remain_len < u->big_msg.size(), "bytes of the big message received so far");
	vc_assert(vc_imp(j < u->remain_len, vc_byte(u->big_msg.data(), j) == vc_byte(st, b + skip() + j)), "bytes of the big message are kept in order");
}

static void prove_parse(bool stripped)
{
	modular_append();
	vc_replace_name("17flexible_unpackerI.*9parse_msgERN5boost9container4list", (void*) &stub_parse_pos);
	U* u = new U();
	i_unpacker<M>* iu = u;
	uint64_t bytes = vc_u64("bytes");
	any_small(*u, bytes);
	strip = stripped;
	iu->stripped(strip);
	msgs out;
	any_out(out);
	hooks_on();
	bool re = iu->parse_msg(bytes, out);
	out.close_all();
	hooks_off();
	vc_assert(inv_old(NULL), "messages already there are untouched");
	if (!u->big_msg.empty())
	{
		vc_assert(re, "success is reported");
		vc_assert(out.size() == out0 + C(g_n), "every frame with a body is delivered, once");
		vc_assert(vc_and(B(g_n) <= LEN, LEN - B(g_n) >= HEAD) && big_len(H(B(g_n))), "a big message starts behind the frames");
		prove_big(u, B(g_n));
		vc_cover("big");
	}
	else
	{
		vc_assert(found(u->remain_len, u->cur_msg_len), "all complete frames are taken");
		vc_assert(vc_imp(re, vc_and(g_n > 0, vc_not(rest_bad()))), "failure is reported");
		vc_assert(vc_imp(vc_and(g_n > 0, vc_not(rest_bad())), re), "success is reported");
		vc_assert(vc_imp(vc_and(vc_or(re, g_n == 0), rest_head()), vc_not(big_len(H(B(g_n))))), "a big message is received in place");
		vc_assert(out.size() == out0 + C(g_n), "every frame with a body is delivered, once");
		uint64_t j = vc_u64("byte");
		vc_assert(vc_imp(j < u->remain_len, vc_byte(u->raw_buff.begin(), j) == vc_byte(st, LEN - u->remain_len + j)), "unconsumed bytes are kept in order");
		if (re) vc_cover("frames");
		if (!re) vc_cover("none");
	}
}
extern "C" void vc_contract_p03_flexible_parse_stripped() {prove_parse(true); vc_cover("end");}
extern "C" void vc_contract_p03_flexible_parse_whole() {prove_parse(false); vc_cover("end");}

extern "C" void vc_contract_p03_flexible_parse_big()
{
	U* u = new U();
	i_unpacker<M>* iu = u;
	uint64_t bytes = vc_u64("bytes"), n = any_big(*u, bytes);
	strip = vc_split(vc_bool("stripped"));
	iu->stripped(strip);
	msgs out;
	any_out(out);
	uint64_t j = vc_u64("byte");
	vc_assume(j < n);
	uint8_t b = vc_byte(u->big_msg.data(), j);
	bool re = iu->parse_msg(bytes, out);
	vc_assert(re == (LEN == n), "succeeds exactly when the big message is complete");
	if (re)
	{
		vc_assert(out.size() == out0 + 1, "the big message is delivered, once");
		M& m = out.at(out0);
		vc_assert(m.size() == n && vc_byte(m.data(), j) == b, "the big message is delivered as received");
		vc_assert(u->big_msg.empty() && u->remain_len == 0 && u->cur_msg_len == (size_t) -1, "and the decoder is empty again");
		vc_cover("big");
	}
	else
	{
		vc_assert(out.size() == out0, "nothing is delivered");
		vc_cover("incomplete");
	}
	vc_assert(vc_imp(g_k < out0, vc_and(out.feat(0, g_k) == g_k0, out.feat(1, g_k) == g_k1)), "messages already there are untouched");
}

extern "C" void vc_contract_p03_flexible_read()
{
	U* u = new U();
	i_unpacker<M>* iu = u;
	vc_assert(u->remain_len == 0 && u->current_msg_length() == (size_t) -1 && u->big_msg.empty() && iu->stripped(), "a new decoder is empty");
	uint64_t bytes = vc_u64("bytes"), n = 0;
	bool big = vc_split(vc_bool("big message"));
	if (big)
		n = any_big(*u, bytes);
	else
		any_small(*u, bytes);
	uint64_t r0 = u->remain_len, c0 = u->cur_msg_len;
	vc_assume(r0 < RB || big);
	vc_assume(vc_or(c0 == (size_t) -1, possible(c0)) || big); // otherwise reading has ended
	boost::asio::mutable_buffer buf = one(iu->prepare_next_recv());
	const char* p = big ? u->big_msg.data() : u->raw_buff.begin();
	vc_assert(buf.size() == (big ? n : RB) - r0 && (const char*) buf.data() == p + r0, "the next read goes right behind the bytes kept, up to the end of the buffer");
	boost::system::error_code ec;
	if (vc_split(vc_bool("error")))
		ec = boost::asio::error::make_error_code(boost::asio::error::operation_aborted);
	size_t more = iu->completion_condition(ec, bytes);
	vc_assert(u->remain_len == r0, "bytes kept are unchanged");
	if (ec)
	{
		vc_assert(0 == more, "an error ends the read");
		vc_cover("error");
	}
	else if (big)
	{
		vc_assert((0 == more) == (LEN == n), "a read ends when the big message is complete");
		vc_assert(u->cur_msg_len == n && u->big_msg.size() == n, "length of the frame being received");
		vc_cover("big");
	}
	else
	{
		vc_assert(vc_or(u->cur_msg_len == c0, vc_and(c0 == (size_t) -1, vc_and(LEN >= HEAD, u->cur_msg_len == H(0)))), "length of the frame being received");
		bool ready = vc_and(LEN >= HEAD, vc_or(vc_not(possible(H(0))), H(0) <= LEN));
		vc_assert(vc_imp(ready, 0 == more), "a read ends when a frame is complete or impossible");
		vc_assert(vc_imp(vc_and(vc_not(ready), LEN < RB), vc_or(more > 0, vc_and(LEN >= HEAD, big_len(H(0))))), "a read goes on until then, or until a big message is found");
		vc_assert(vc_imp(more > 0, vc_or(u->cur_msg_len == (size_t) -1, possible(u->cur_msg_len))), "reading goes on with a possible length only");
		vc_cover("small");
	}
	u->reset();
	vc_assert(u->remain_len == 0 && u->current_msg_length() == (size_t) -1 && u->big_msg.empty(), "a decoder that is reset is empty");
	strip = vc_split(vc_bool("stripped"));
	iu->stripped(strip);
	uint64_t z = vc_u64("size"), sk = strip ? 0 : HEAD;
	vc_assume(z >= sk && z < UINT_MAX);
	M m;
	m.resize(z);
	const M& cm = m;
	vc_assert(iu->raw_data(m) == cm.data() + sk && iu->raw_data(cm) == cm.data() + sk && iu->raw_data_len(cm) == z - sk, "payload of a delivered message");
	vc_cover("payload");
}
