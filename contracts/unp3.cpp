// Contracts: unpacker2 (messages by reference, on top of any decoder) and non_copy_unpacker (ext/unpacker.h)
#include "unp_common.h"
#include "feat_buf.h"
typedef st_asio_wrapper::list<BUF> bufs;
typedef st_asio_wrapper::list<std::string> strings;

// any decoder: delivers any messages
static uint64_t i_n; static vc_arr_t i_size, i_tok; static bool i_re; static uint64_t i_bytes, i_more; static unsigned i_calls;
struct inner : i_unpacker<std::string>
{
	virtual void reset() {++i_calls;}
	virtual bool parse_msg(size_t bytes, strings& out)
	{
		vc_assert(bytes == i_bytes && out.size() == 0 && 0 == i_calls++, "the read is decoded, once");
		out.any("decoded");
		i_n = out.size();
		vc_acopy(i_size, 0, out.a[0], 0, i_n); vc_acopy(i_tok, 0, out.a[1], 0, i_n);
		return i_re;
	}
	virtual size_t completion_condition(const boost::system::error_code& ec, size_t bytes) {vc_assert(bytes == i_bytes, "argument passed on"); return i_more;}
	#ifdef ST_ASIO_SCATTERED_RECV_BUFFER
	virtual buffer_type prepare_next_recv() {return buffer_type(1, boost::asio::buffer((char*) this, 77));}
#else
	virtual buffer_type prepare_next_recv() {return boost::asio::buffer((char*) this, 77);}
#endif
};
typedef unpacker2<BUF, std::string, inner> U;
static void push2(uint64_t mon, uint64_t idx, const char* data, uint64_t size)
{
	if (OUT != mon)
		return;
	vc_assert(idx >= out0, "delivered messages follow the earlier ones");
	vc_assert(vc_aget(i_size, idx - out0) == size && vc_aget(i_tok, idx - out0) == vc_snap(data, size), "a delivered message is the decoded one");
}
static void load2(uint64_t mon, uint64_t i, const uint64_t* f)
{
	if (0 == mon && i < i_n) // the decoder's messages, not looked at before
		vc_assume(f[0] < UINT_MAX);
}
static strings* g_tmp;
static bool inv_cnt(void*, uint64_t x, uint64_t y) {return vc_and(x == out0 + y, y <= i_n);}
extern "C" void vc_contract_p03_unpacker2_parse()
{
	i_size = vc_arr(); i_tok = vc_arr();
	U* u = new U();
	i_unpacker<BUF>* iu = u;
	i_bytes = vc_u64("bytes"); i_re = vc_split(vc_bool("ok")); i_more = vc_u64("more"); i_calls = 0;
	bufs out;
	any_out(out);
	vc_on_push = &push2; vc_on_removed = &on_removed;
	vc_invariant2(&inv_cnt, NULL); vc_invariant(&inv_old, NULL);
	bool re = iu->parse_msg(i_bytes, out);
	out.close_all();
	vc_on_push = NULL; vc_on_removed = NULL;
	vc_assert(re == i_re, "the decoder's verdict");
	vc_assert(out.size() == out0 + i_n, "every decoded message is delivered, once");
	vc_assert(inv_old(NULL), "messages already there are untouched");
	boost::system::error_code ec;
	vc_assert(iu->completion_condition(ec, i_bytes) == i_more, "the decoder decides when a read ends");
	vc_assert(one(iu->prepare_next_recv()).size() == 77, "the decoder's memory is read into");
	i_calls = 0;
	iu->reset();
	vc_assert(1 == i_calls, "the decoder is reset");
	bool s = vc_split(vc_bool("stripped"));
	iu->stripped(s);
	vc_assert(iu->stripped() == s && u->unpacker_.stripped() == s, "the decoder is told");
	vc_cover("end");
}
// header stripping is what was asked for last, whatever was asked before
template<typename U> static void settings(U& u, i_unpacker<std::string>* inner)
{
	for (unsigned i = 0; i < 3; ++i)
	{
		bool v = vc_split(vc_bool("stripped"));
		((i_unpacker<typename U::msg_type>&) u).stripped(v);
		vc_assert(((i_unpacker<typename U::msg_type>&) u).stripped() == v, "the setting is what was asked for last");
		if (inner) vc_assert(inner->stripped() == v, "... in the wrapped decoder too");
	}
}
extern "C" void vc_contract_p03_stripped_setting()
{
	unpacker<std::string>* a = new unpacker<std::string>(); settings(*a, NULL);
	flexible_unpacker<std::string>* b = new flexible_unpacker<std::string>(); settings(*b, NULL);
	unpacker2<BUF, std::string, unpacker<std::string> >* c = new unpacker2<BUF, std::string, unpacker<std::string> >(); settings(*c, &c->unpacker_);
	vc_cover("end");
}
extern "C" void vc_contract_p03_unpacker2_raw()
{
	typedef unpacker2<BUF, std::string, unpacker<std::string> > V;
	V* u = new V();
	i_unpacker<BUF>* iu = u;
	bool s = vc_split(vc_bool("stripped"));
	iu->stripped(s);
	uint64_t z = vc_u64("size"), sk = s ? 0 : HEAD;
	vc_assume(z >= sk && z < UINT_MAX);
	std::string* p = new std::string();
	p->resize(z);
	BUF m(p);
	const BUF& cm = m;
	vc_assert(iu->raw_data(m) == p->data() + sk && iu->raw_data(cm) == p->data() + sk && iu->raw_data_len(cm) == z - sk, "payload of a delivered message");
	vc_cover("payload");
}

extern "C" void vc_contract_p03_non_copy()
{
	modular_dump();
	non_copy_unpacker* u = new non_copy_unpacker();
	i_unpacker<basic_buffer>* iu = u;
	vc_assert(0 == u->step && u->raw_buff.empty(), "a new decoder expects a header");
	iu->stripped(false);
	vc_assert(iu->stripped(), "always stripped");
	bool body = vc_split(vc_bool("body"));
	uint64_t bytes = vc_u64("bytes"), n = vc_u64("size"), j = vc_u64("byte");
	uint8_t b = 0;
	if (body)
	{
		vc_assume(n > 0 && n <= MAXLEN - HEAD);
		u->step = 1;
		u->raw_buff.resize(n);
		vc_havoc_bytes((void*) u->raw_buff.data(), n);
		vc_assume(j < n);
		b = vc_byte(u->raw_buff.data(), j);
	}
	else
	{
		vc_bytes(&u->head, HEAD);
		vc_havoc_bytes(&u->head, HEAD);
	}
	uint64_t want = body ? n : HEAD;
	vc_assume(bytes <= want);
	boost::asio::mutable_buffer buf = one(iu->prepare_next_recv());
	vc_assert(buf.size() == want && (char*) buf.data() == (body ? u->raw_buff.data() : (char*) &u->head), "exactly the header or the body is read");
	boost::system::error_code ec;
	vc_assert(vc_imp(bytes < want, iu->completion_condition(ec, bytes) > 0), "a read goes on until then");
	ec = boost::asio::error::make_error_code(boost::asio::error::operation_aborted);
	vc_assert(iu->completion_condition(ec, bytes) == 0, "an error ends the read");
	uint64_t h = body ? 0 : be_head((char*) &u->head);
	st_asio_wrapper::list<basic_buffer> out;
	any_out(out);
	bool re = iu->parse_msg(bytes, out);
	vc_assert(vc_imp(g_k < out0, vc_and(out.feat(0, g_k) == g_k0, out.feat(1, g_k) == g_k1)), "messages already there are untouched");
	if (body)
	{
		vc_assert(re == (bytes == n), "succeeds exactly when the body is complete");
		vc_assert(out.size() == out0 + (re ? 1 : 0), "a complete message is delivered, once");
		if (re)
		{
			basic_buffer& m = out.at(out0);
			vc_assert(m.size() == n && vc_byte(m.data(), j) == b, "the message is delivered as received");
			vc_assert(0 == u->step && u->raw_buff.empty(), "and a header is expected again");
			vc_cover("message");
		}
		else
			vc_cover("incomplete");
	}
	else
	{
		vc_assert(out.size() == out0, "nothing is delivered for a header");
		bool ok = vc_and(bytes == HEAD, possible(h));
		vc_assert(vc_imp(re, ok), "an impossible header is refused");
		vc_assert(vc_imp(ok, re), "a possible header is accepted");
		if (re && h > HEAD)
		{
			vc_assert(1 == u->step && u->raw_buff.size() == h - HEAD, "room for the body, exactly");
			vc_cover("header");
		}
		else
		{
			vc_assert(0 == u->step && u->raw_buff.empty(), "a header is expected again");
			vc_cover("heartbeat or bad header");
		}
	}
	u->reset();
	vc_assert(0 == u->step && u->raw_buff.empty(), "a decoder that is reset expects a header");
}

extern "C" void vc_contract_p03_dump_left_data()
{
	uint64_t n = vc_u64("n");
	char* p = vc_split(vc_bool("null")) ? NULL : vc_alloc(n, "data");
	unpacker_helper::dump_left_data(p, vc_u64("cur"), n);
	unpacker<std::string>* u = new unpacker<std::string>(); // callers
	u->remain_len = vc_u64("remain");
	vc_assume(u->remain_len <= MAXLEN);
	vc_bytes(u->raw_buff.begin(), MAXLEN);
	u->dump_left_data();
	vc_cover("end");
}
