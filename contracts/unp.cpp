// Contracts: unpacker (ext/unpacker.h), the default length-prefixed decoder
#include "unp_common.h"
#ifdef UNP_BASIC
typedef basic_buffer M;
#else
typedef std::string M;
#endif
typedef unpacker<M> U;
typedef st_asio_wrapper::list<M> msgs;

// an arbitrary state during a read that has got `bytes` so far (the buffer is not overrun: see prepare_next_recv)
static void any_state(U& u, uint64_t bytes)
{
	vc_bytes(u.raw_buff.begin(), MAXLEN);
	vc_havoc_bytes(u.raw_buff.begin(), MAXLEN);
	u.remain_len = vc_u64("remain");
	u.cur_msg_len = vc_u64("cur");
	vc_assume(u.remain_len <= MAXLEN);
	vc_assume(bytes <= MAXLEN - u.remain_len);
	LEN = u.remain_len + bytes;
	vc_memcpy_ghost(st = vc_unbounded(), u.raw_buff.begin(), MAXLEN);
	base_off = vc_ptr_off(u.raw_buff.begin());
	vc_assume(vc_or(u.cur_msg_len == (size_t) -1, vc_and(u.cur_msg_len == H(0), LEN >= HEAD)));
}

extern "C" void vc_contract_p03_unpacker_positions()
{
	U* u = new U();
	any_state(*u, vc_u64("bytes"));
	u->remain_len = LEN;
	hooks_on();
	prove_positions(u);
	vc_cover("end");
}

extern "C" bool stub_parse_pos(U* u, pos_list* pl) {return stub_positions(u, pl);}

static void prove_parse(bool stripped)
{
	modular_append();
	vc_replace_name("8unpackerI.*9parse_msgERN5boost9container4list", (void*) &stub_parse_pos);
	U* u = new U();
	i_unpacker<M>* iu = u;
	uint64_t bytes = vc_u64("bytes");
	any_state(*u, bytes);
	strip = stripped;
	iu->stripped(strip);
	msgs out;
	any_out(out);
	hooks_on();
	bool re = iu->parse_msg(bytes, out);
	out.close_all();
	hooks_off();
	vc_assert(found(u->remain_len, u->cur_msg_len), "all complete frames are taken");
	vc_assert(re == vc_and(g_n > 0, vc_not(rest_bad())), "succeeds exactly when there is a frame and the next header is possible");
	vc_assert(out.size() == out0 + C(g_n), "every frame with a body is delivered, once");
	vc_assert(inv_old(NULL), "messages already there are untouched");
	uint64_t j = vc_u64("byte");
	vc_assert(vc_imp(j < u->remain_len, vc_byte(u->raw_buff.begin(), j) == vc_byte(st, LEN - u->remain_len + j)), "unconsumed bytes are kept in order");
	if (re) vc_cover("frames");
	if (!re) vc_cover("none");
}
extern "C" void vc_contract_p03_unpacker_parse_stripped() {prove_parse(true); vc_cover("end");}
extern "C" void vc_contract_p03_unpacker_parse_whole() {prove_parse(false); vc_cover("end");}

// a fresh decoder, and one that has been reset, are in such a state; what a read may write; when a read ends
extern "C" void vc_contract_p03_unpacker_read()
{
	U* u = new U();
	i_unpacker<M>* iu = u;
	vc_assert(u->remain_len == 0 && u->current_msg_length() == (size_t) -1 && iu->stripped(), "a new decoder is empty");
	uint64_t bytes = vc_u64("bytes");
	any_state(*u, bytes);
	uint64_t r0 = u->remain_len, c0 = u->cur_msg_len;
	vc_assume(r0 < MAXLEN);
	vc_assume(vc_or(c0 == (size_t) -1, possible(c0))); // otherwise reading has ended
	boost::asio::mutable_buffer buf = one(iu->prepare_next_recv());
	vc_assert(buf.size() == MAXLEN - r0 && (char*) buf.data() == u->raw_buff.begin() + r0, "the next read goes right behind the bytes kept, up to the end of the buffer");
	boost::system::error_code ec;
	if (vc_split(vc_bool("error")))
		ec = boost::asio::error::make_error_code(boost::asio::error::operation_aborted);
	size_t more = iu->completion_condition(ec, bytes);
	vc_assert(u->remain_len == r0, "bytes kept are unchanged");
	vc_assert(vc_or(u->cur_msg_len == c0, vc_and(c0 == (size_t) -1, vc_and(LEN >= HEAD, u->cur_msg_len == H(0)))), "length of the frame being received");
	if (ec)
	{
		vc_assert(0 == more, "an error ends the read");
		vc_cover("error");
	}
	else
	{
		bool ready = vc_and(LEN >= HEAD, vc_or(vc_not(possible(H(0))), H(0) <= LEN));
		vc_assert(vc_imp(ready, 0 == more), "a read ends when a frame is complete or impossible");
		vc_assert(vc_imp(vc_not(ready), more > 0), "a read goes on until then");
		vc_cover("read");
	}
	vc_assert(vc_imp(more > 0, vc_or(u->cur_msg_len == (size_t) -1, possible(u->cur_msg_len))), "reading goes on with a possible length only");
	u->reset();
	vc_assert(u->remain_len == 0 && u->current_msg_length() == (size_t) -1, "a decoder that is reset is empty");
	// the payload of a delivered message
	strip = vc_split(vc_bool("stripped"));
	iu->stripped(strip);
	uint64_t n = vc_u64("size"), skip = strip ? 0 : HEAD;
	vc_assume(n >= skip && n < UINT_MAX);
	M m;
	m.resize(n);
	const M& cm = m;
	vc_assert(iu->raw_data(m) == cm.data() + skip && iu->raw_data(cm) == cm.data() + skip && iu->raw_data_len(cm) == n - skip, "payload of a delivered message");
	vc_cover("payload");
}
