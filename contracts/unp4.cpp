// Contracts: prefix_suffix_unpacker, fixed_length_unpacker, stream_unpacker (ext/unpacker.h)
#include "unp_common.h"
typedef prefix_suffix_unpacker PS;
typedef st_asio_wrapper::list<std::string> strings;

// Specification: a match of the suffix at q: M(q); first match at or behind q: F(q) (INF: none);
// a frame at q starts with the prefix (PM(q)) and ends behind the first suffix following it: NEXT(q) = F(q + P) + S.
static uint64_t P, S; static const char *pre, *suf; static uint64_t pre_tok, suf_tok;
static const uint64_t INF = (uint64_t) 1 << 60;
static bool M(uint64_t q) {return vc_uf1("match", q) == 1;}
static bool PM(uint64_t q) {return vc_or(P == 0, vc_uf1("prefix", q) == 1);}
static uint64_t F(uint64_t q) {return vc_uf1("first", q);}
static uint64_t NEXT(uint64_t q) {return F(q + P) + S;}
static bool whole(uint64_t q) {return vc_and(LEN - q > P + S, vc_and(PM(q), NEXT(q) <= LEN));} // given q <= LEN
static bool BD(uint64_t q) {return vc_uf1("boundary", q) == 1;} // q is reached by frames
static uint64_t K(uint64_t q) {return vc_uf1("before", q);}    // frames with a body before q
static uint64_t NP(uint64_t k) {return vc_uf1("where", k);}    // its inverse
static void first(uint64_t q, uint64_t x) // instance of the definition of F
{
	vc_assume(vc_and(F(q) >= q, F(q) <= INF));
	vc_assume(vc_imp(F(q) < INF, M(F(q))));
	vc_assume(vc_imp(vc_and(q <= x, x < F(q)), vc_not(M(x))));
}
static void at(uint64_t q) // the frame at q, if there is one
{
	vc_assume(vc_and(F(q + P) >= q + P, F(q + P) <= INF));
	bool body = F(q + P) > q + P;
	vc_assume(vc_imp(vc_and(BD(q), whole(q)), vc_and(BD(NEXT(q)), K(NEXT(q)) == K(q) + vc_ite(body, 1, 0))));
	vc_assume(vc_imp(vc_and(vc_and(BD(q), whole(q)), body), NP(K(q)) == q));
}
static PS* u;
// contract of memcmp on received bytes and the prefix or suffix; anything else: as it is
extern "C" int stub_memcmp(const char* a, const char* b, uint64_t n)
{
	if (a == pre || a == suf)
	{
		const char* t = a;
		a = b; b = t;
	}
	vc_check_range(a, n, "compared range readable");
	vc_check_range(b, n, "compared range readable");
	uint64_t q = vc_ptr_off(a) - base_off, j = vc_u64("byte");
	vc_assert((b == pre && n == P) || (b == suf && n == S), "compared with the prefix or the suffix");
	vc_assert(vc_imp(j < n, vc_byte(a, j) == vc_byte(st, q + j)), "received bytes are compared");
	if (b == pre && n == P)
		return vc_ite(PM(q), 0, 1);
	return vc_ite(M(q), 0, 1);
}
extern "C" const char* stub_memmem(const char* mem, uint64_t len, const char* sub, uint64_t sub_len)
{
	if (NULL == mem || NULL == sub || sub_len > len)
		return NULL;
	vc_check_range(mem, len, "searched range readable");
	vc_assert(sub == suf && sub_len == S, "the suffix is searched for");
	uint64_t q = vc_ptr_off(mem) - base_off;
	at(q - P);
	if (F(q) <= len - S + q)
		return u->raw_buff.begin() + F(q);
	return NULL;
}

static bool ok_state(uint64_t cur, uint64_t q) // of a decoder with the bytes from q on
{
	return vc_and(q <= LEN, vc_or(cur == (size_t) -1, vc_or(vc_and(cur == 0, vc_and(LEN - q >= P, PM(q))), vc_and(whole(q), cur == NEXT(q) - q))));
}
static void any_state(uint64_t bytes)
{
	u = new PS();
	any_str(u->_prefix, "prefix", MAXLEN); any_str(u->_suffix, "suffix", MAXLEN);
	P = u->_prefix.size(); S = u->_suffix.size(); pre = u->_prefix.data(); suf = u->_suffix.data();
	vc_assume(S > 0);
	vc_assume(P + S < MAXLEN);
	vc_bytes(u->raw_buff.begin(), MAXLEN);
	vc_havoc_bytes(u->raw_buff.begin(), MAXLEN);
	u->remain_len = vc_u64("remain");
	u->cur_msg_len = vc_u64("cur");
	vc_assume(u->remain_len <= MAXLEN);
	vc_assume(bytes <= MAXLEN - u->remain_len);
	LEN = u->remain_len + bytes;
	vc_memcpy_ghost(st = vc_unbounded(), u->raw_buff.begin(), MAXLEN);
	base_off = vc_ptr_off(u->raw_buff.begin());
	vc_assume(BD(0) && K(0) == 0);
	at(0);
	vc_assume(ok_state(u->cur_msg_len, 0));
	vc_replace((void*) &memcmp, (void*) &stub_memcmp);
}

static uint64_t q0, l0;
static bool inv_search(void*, uint64_t i) {return vc_and(vc_or(F(q0) == INF, i <= F(q0) - q0), i <= l0 - S + 1);}
extern "C" void vc_contract_p04_memmem()
{
	any_state(vc_u64("bytes"));
	q0 = vc_u64("from");
	l0 = vc_u64("len");
	vc_assume(q0 <= MAXLEN);
	vc_assume(l0 <= MAXLEN - q0);
	first(q0, 0);
	vc_invariant1(&inv_search, NULL);
	const char* r = (const char*) PS::memmem(u->raw_buff.begin() + q0, l0, suf, S);
	if (NULL == r)
	{
		vc_assert(S > l0 || F(q0) > l0 - S + q0, "there is no match");
		vc_cover("none");
	}
	else
	{
		uint64_t x = vc_ptr_off(r) - base_off;
		first(q0, x);
		vc_assert(S <= l0 && x == F(q0) && x <= l0 - S + q0, "the first match");
		vc_cover("found");
	}
	vc_assert(NULL == PS::memmem(NULL, l0, suf, S), "nothing is found in nothing");
}

static void ps_push(uint64_t mon, uint64_t idx, const char* data, uint64_t size)
{
	if (OUT != mon)
		return;
	vc_assert(idx >= out0, "delivered messages follow the earlier ones");
	uint64_t q = NP(idx - out0), skip = strip ? P : 0, j = vc_u64("byte");
	vc_assert(size == (strip ? F(q + P) - q - P : NEXT(q) - q), "size of a delivered message");
	vc_assert(vc_imp(j < size, vc_byte(data, j) == vc_byte(st, q + skip + j)), "content of a delivered message");
}
static uint64_t cur0;
static bool inv_at(void*, uint64_t x) {uint64_t q = x - base_off; return vc_and(q <= LEN, vc_and(BD(q), vc_or(q == 0, q > 0)));}
static bool inv_left(void*, uint64_t x, uint64_t y) {return vc_and(x - base_off <= LEN, y == LEN - (x - base_off));}
static bool inv_cnt(void*, uint64_t x, uint64_t y) {return y == out0 + K(x - base_off);}
static bool inv_state(void*, uint64_t x, uint64_t y) {return vc_or(y == (uint64_t) -1, vc_and(x == base_off, y == cur0));}

static void prove_parse(bool stripped)
{
	vc_replace((void*) &PS::memmem, (void*) &stub_memmem);
	uint64_t bytes = vc_u64("bytes");
	any_state(bytes);
	i_unpacker<std::string>* iu = u;
	cur0 = u->cur_msg_len;
	strip = stripped;
	iu->stripped(strip);
	strings out;
	any_out(out);
	vc_on_push = &ps_push; vc_on_removed = &on_removed;
	vc_invariant1(&inv_at, NULL); vc_invariant2(&inv_left, NULL); vc_invariant2(&inv_cnt, NULL); vc_invariant2(&inv_state, NULL); vc_invariant(&inv_old, NULL);
	vc_cut(true);
	bool re = iu->parse_msg(bytes, out);
	vc_cut(false);
	out.close_all();
	vc_on_push = NULL; vc_on_removed = NULL;
	vc_assert(u->remain_len <= LEN, "bytes left");
	uint64_t r = LEN - u->remain_len, j = vc_u64("byte");
	at(r);
	vc_assert(BD(r), "frames are taken in order");
	vc_assert(vc_not(whole(r)), "all complete frames are taken");
	vc_assert(out.size() == out0 + K(r), "every frame with a body is delivered, once");
	vc_assert(inv_old(NULL), "messages already there are untouched");
	vc_assert(re == (r > 0), "succeeds exactly when there is a frame");
	vc_assert(ok_state(u->cur_msg_len, r), "progress within the next frame");
	vc_assert(vc_imp(j < u->remain_len, vc_byte(u->raw_buff.begin(), j) == vc_byte(st, r + j)), "unconsumed bytes are kept in order");
	if (re) vc_cover("frames");
	if (!re) vc_cover("none");
}
extern "C" void vc_contract_p04_delimited_parse_stripped() {prove_parse(true); vc_cover("end");}
extern "C" void vc_contract_p04_delimited_parse_whole() {prove_parse(false); vc_cover("end");}

extern "C" void vc_contract_p04_delimited_read()
{
	PS* f = new PS();
	vc_assert(f->remain_len == 0 && f->cur_msg_len == (size_t) -1, "a new decoder is empty");
	vc_replace((void*) &PS::memmem, (void*) &stub_memmem);
	uint64_t bytes = vc_u64("bytes");
	any_state(bytes);
	i_unpacker<std::string>* iu = u;
	uint64_t rem0 = u->remain_len, c0 = u->cur_msg_len;
	vc_assume(rem0 < MAXLEN);
	boost::asio::mutable_buffer buf = one(iu->prepare_next_recv());
	vc_assert(buf.size() == MAXLEN - rem0 && (char*) buf.data() == u->raw_buff.begin() + rem0, "the next read goes right behind the bytes kept, up to the end of the buffer");
	vc_assert(u->_prefix.size() == P && u->_suffix.size() == S && iu == u, "delimiters are unchanged");
	boost::system::error_code ec;
	if (vc_split(vc_bool("error")))
		ec = boost::asio::error::make_error_code(boost::asio::error::operation_aborted);
	size_t more = iu->completion_condition(ec, bytes);
	vc_assert(u->remain_len == rem0, "bytes kept are unchanged");
	vc_assert(ok_state(u->cur_msg_len, 0), "progress within the frame");
	if (ec)
	{
		vc_assert(0 == more, "an error ends the read");
		vc_cover("error");
	}
	else
	{
		bool bad = vc_or(vc_and(LEN >= P, vc_not(PM(0))), LEN == MAXLEN);
		vc_assert(vc_imp(vc_or(whole(0), bad), 0 == more), "a read ends when a frame is complete, does not start with the prefix or is too long");
		vc_assert(vc_imp(vc_not(vc_or(whole(0), bad)), more > 0), "a read goes on until then");
		vc_cover("read");
	}
	u->reset();
	vc_assert(u->remain_len == 0 && u->cur_msg_len == (size_t) -1, "a decoder that is reset is empty");
	strip = vc_split(vc_bool("stripped"));
	iu->stripped(strip);
	uint64_t n = vc_u64("size"), skip = strip ? 0 : P;
	vc_assume(n >= (strip ? 0 : P + S) && n < UINT_MAX);
	std::string m;
	m.resize(n);
	const std::string& cm = m;
	vc_assert(iu->raw_data(m) == cm.data() + skip && iu->raw_data(cm) == cm.data() + skip && iu->raw_data_len(cm) == n - (strip ? 0 : P + S), "payload of a delivered message");
	vc_cover("payload");
}
extern "C" void vc_contract_p04_delimited_config()
{
	PS* d = new PS();
	std::string p, s;
	any_str(p, "prefix", MAXLEN); any_str(s, "suffix", MAXLEN);
	vc_assume(s.size() > 0);
	vc_assume(p.size() + s.size() < MAXLEN);
	str_snap sp(p), ss(s);
	d->prefix_suffix(p, s);
	vc_assert(d->prefix().size() == sp.n && d->suffix().size() == ss.n, "sizes of the delimiters");
	uint64_t j = vc_u64("byte");
	vc_assert(vc_imp(j < sp.n, vc_byte(d->prefix().data(), j) == vc_byte(p.data(), j)), "prefix");
	vc_assert(vc_imp(j < ss.n, vc_byte(d->suffix().data(), j) == vc_byte(s.data(), j)), "suffix");
	vc_cover("end");
}

extern "C" void vc_contract_p04_fixed()
{
	modular_dump();
	fixed_length_unpacker* d = new fixed_length_unpacker();
	i_unpacker<basic_buffer>* iu = d;
	vc_assert(d->fixed_length() == 1024, "default length");
	uint64_t n = vc_u64("length"), bytes = vc_u64("bytes"), j = vc_u64("byte");
	vc_assume(n > 0 && n <= MAXLEN);
	d->fixed_length(n);
	vc_assert(d->fixed_length() == n, "length");
	if (vc_split(vc_bool("used"))) // a message that was not taken
	{
		uint64_t z = vc_u64("old");
		vc_assume(z <= MAXLEN);
		d->raw_buff.assign(z);
	}
	d->reset();
	boost::asio::mutable_buffer buf = one(iu->prepare_next_recv());
	vc_assert(buf.size() == n && (char*) buf.data() == d->raw_buff.data(), "exactly one message is read");
	vc_check_range(buf.data(), n, "memory of the next read");
	vc_havoc_bytes(buf.data(), n);
	if (vc_split(vc_bool("length-changed-meanwhile"))) // concerns the next message
	{
		uint64_t n2 = vc_u64("next-length"); vc_assume(n2 > 0 && n2 <= MAXLEN);
		d->fixed_length(n2);
	}
	vc_assume(bytes <= n);
	boost::system::error_code ec;
	vc_assert(vc_imp(bytes == n, iu->completion_condition(ec, bytes) == 0), "a read ends with the message");
	vc_assert(vc_imp(bytes < n, iu->completion_condition(ec, bytes) > 0), "a read goes on until then");
	ec = boost::asio::error::make_error_code(boost::asio::error::operation_aborted);
	vc_assert(iu->completion_condition(ec, bytes) == 0, "an error ends the read");
	vc_assume(j < n);
	uint8_t b = vc_byte(buf.data(), j);
	st_asio_wrapper::list<basic_buffer> out;
	any_out(out);
	bool re = iu->parse_msg(bytes, out);
	vc_assert(re == (bytes == n), "succeeds exactly when the message is complete");
	vc_assert(out.size() == out0 + (re ? 1 : 0), "a complete message is delivered, once");
	vc_assert(vc_imp(g_k < out0, vc_and(out.feat(0, g_k) == g_k0, out.feat(1, g_k) == g_k1)), "messages already there are untouched");
	if (re)
	{
		basic_buffer& m = out.at(out0);
		vc_assert(m.size() == n && vc_byte(m.data(), j) == b, "delivered as received");
		const basic_buffer& cm = m;
		vc_assert(iu->raw_data(m) == cm.data() && iu->raw_data(cm) == cm.data() && iu->raw_data_len(cm) == n, "payload of a delivered message");
		boost::asio::mutable_buffer buf2 = one(iu->prepare_next_recv());
		vc_assert(buf2.data() != m.data() && !vc_same_object(buf2.data(), m.data()), "the next message does not overwrite it");
		vc_check_range(buf2.data(), buf2.size(), "memory of the next read"); vc_assert(buf2.size() == d->fixed_length(), "... one message long");
		vc_cover("message");
	}
	else
		vc_cover("incomplete");
}

extern "C" void vc_contract_p04_stream()
{
	stream_unpacker* d = new stream_unpacker();
	i_unpacker<std::string>* iu = d;
	vc_bytes(d->raw_buff.begin(), MAXLEN);
	d->reset();
	boost::asio::mutable_buffer buf = one(iu->prepare_next_recv());
	vc_assert(buf.size() == MAXLEN && (char*) buf.data() == d->raw_buff.begin(), "memory of the next read");
	vc_havoc_bytes(buf.data(), MAXLEN);
	uint64_t bytes = vc_u64("bytes"), j = vc_u64("byte");
	vc_assume(bytes <= MAXLEN);
	boost::system::error_code ec;
	vc_assert(vc_imp(bytes > 0, iu->completion_condition(ec, bytes) == 0), "a read ends with anything received");
	vc_assert(vc_imp(bytes == 0, iu->completion_condition(ec, bytes) > 0), "a read goes on until then");
	ec = boost::asio::error::make_error_code(boost::asio::error::operation_aborted);
	vc_assert(iu->completion_condition(ec, bytes) == 0, "an error ends the read");
	strings out;
	any_out(out);
	bool re = iu->parse_msg(bytes, out);
	vc_assert(re == (bytes > 0), "succeeds exactly when something is received");
	vc_assert(out.size() == out0 + (re ? 1 : 0), "each read is delivered, once");
	vc_assert(vc_imp(g_k < out0, vc_and(out.feat(0, g_k) == g_k0, out.feat(1, g_k) == g_k1)), "messages already there are untouched");
	if (re)
	{
		std::string& m = out.at(out0);
		const std::string& cm = m;
		vc_assert(m.size() == bytes, "size of the message");
		vc_assert(vc_imp(j < bytes, vc_byte(m.data(), j) == vc_byte(d->raw_buff.begin(), j)), "delivered as received");
		vc_assert(iu->raw_data(m) == cm.data() && iu->raw_data(cm) == cm.data() && iu->raw_data_len(cm) == bytes, "payload of a delivered message");
		vc_cover("message");
	}
	else
		vc_cover("nothing");
}
