// The specification of length-prefixed framing, relative to the bytes in a decoder's buffer (st, LEN of them):
// B(0) = 0, B(i + 1) = B(i) + H(B(i)); frame i is complete when its header is there, is possible, and all its bytes are there.
#include "common.h"
// list elements: size and content
template<> struct vc_feat<st_asio_wrapper::ext::basic_buffer> : vc_feat_base<st_asio_wrapper::ext::basic_buffer>
{
	enum {N = 2};
	typedef st_asio_wrapper::ext::basic_buffer T;
	static void save(T& b, uint64_t* f) {f[0] = b.size(); f[1] = NULL == b.data() ? 0 : vc_snap(b.data(), b.size());}
	static void load(T* p, const uint64_t* f)
	{
		new (p) T();
		vc_assume(f[0] <= UINT_MAX);
		p->buff = vc_alloc(f[0], "basic_buffer");
		vc_unsnap(p->buff, f[0], f[1]);
		p->len = p->cap = f[0];
	}
	static void closed(uint64_t mon, uint64_t idx, T& s) {if (vc_on_push) vc_on_push(mon, idx, s.data(), s.size());}
};
#include "ext/unpacker.h"
using namespace st_asio_wrapper;
using namespace st_asio_wrapper::ext;

enum {OUT = 7};
// the memory offered for the next read (also with ST_ASIO_SCATTERED_RECV_BUFFER)
#ifdef ST_ASIO_SCATTERED_RECV_BUFFER
static boost::asio::mutable_buffer one(const std::vector<boost::asio::mutable_buffer>& b) {vc_assert(b.size() == 1, "one range is offered"); return b[0];}
#else
static boost::asio::mutable_buffer one(const boost::asio::mutable_buffer& b) {return b;}
#endif
static const uint64_t HEAD = ST_ASIO_HEAD_LEN, MAXLEN = ST_ASIO_MSG_BUFFER_SIZE;
static char* st; static uint64_t LEN;       // ghost: the bytes received and not consumed
static uint64_t base_off;                   // where the buffer starts in its object
static uint64_t out0; static bool strip;    // messages delivered before this call; mode
static uint64_t B(uint64_t i) {return vc_uf1("bound", i);}
static uint64_t C(uint64_t i) {return vc_uf1("count", i);} // frames with a body among the first i
static uint64_t N(uint64_t q) {return vc_uf1("frame_of", q);} // its inverse
static uint64_t H(uint64_t x) {return be_head(st + x);}
static bool possible(uint64_t h) {return vc_and(h >= HEAD, h <= MAXLEN);}
static bool complete(uint64_t i) // given B(i) <= LEN
{
	uint64_t b = B(i);
	return vc_and(LEN - b >= HEAD, vc_and(possible(H(b)), H(b) <= LEN - b));
}
static void define(uint64_t i) // instances of the definitions
{
	vc_assume(B(i + 1) == B(i) + H(B(i)));
	bool body = H(B(i)) > HEAD;
	vc_assume(C(i + 1) == C(i) + vc_ite(body, 1, 0));
	vc_assume(vc_imp(body, N(C(i)) == i));
}
static uint64_t g_n; // frames found
static void pos_push(uint64_t i, uint64_t off, uint64_t len)
{
	define(i);
	vc_assert(i == g_n && off == base_off + B(i) && len == H(B(i)), "position of a frame");
	vc_assert(B(i) <= LEN && complete(i), "only complete frames with a possible header are accepted");
	g_n = i + 1;
}
static void pos_load(uint64_t i, uint64_t off, uint64_t len)
{
	define(i);
	vc_assume(vc_and(off == base_off + B(i), len == H(B(i))));
	vc_assume(vc_and(B(i) <= LEN, complete(i)));
}
static void on_push(uint64_t mon, uint64_t idx, const char* data, uint64_t size)
{
	if (OUT != mon)
		return;
	uint64_t i = N(idx - out0), skip = strip ? HEAD : 0, j = vc_u64("byte");
	vc_assert(idx >= out0, "delivered messages follow the earlier ones");
	vc_assert(size == H(B(i)) - skip, "size of a delivered message");
	vc_assert(vc_imp(j < size, vc_byte(data, j) == vc_byte(st, B(i) + skip + j)), "content of a delivered message");
}
static void on_removed(uint64_t mon, vc_arr_t*, uint64_t, uint64_t c) {if (OUT == mon) vc_assert(c == 0, "delivered messages are not taken back");}
static bool inv_pos(void*, uint64_t x, uint64_t y) {return vc_and(x == base_off + B(y), vc_and(B(y) <= LEN, vc_or(y == 0, B(y) >= HEAD)));}
static bool inv_cur(void*, uint64_t x, uint64_t y) {return vc_or(x == (uint64_t) -1, vc_and(x == H(B(y)), vc_and(B(y) <= LEN, LEN - B(y) >= HEAD)));}
static bool inv_out(void*, uint64_t x, uint64_t y) {return x == out0 + C(y);}
static bool inv_ok(void*, uint64_t ok, uint64_t x) {return vc_or(ok != 0, vc_and(x != (uint64_t) -1, vc_not(possible(x))));}
static void* g_out; static vc_arr_t g_a0, g_a1; static uint64_t g_k, g_k0, g_k1; // one arbitrary message delivered earlier
static bool inv_old(void*) {return vc_imp(g_k < out0, vc_and(vc_aget(g_a0, g_k) == g_k0, vc_aget(g_a1, g_k) == g_k1));}

static void hooks_on()
{
	vc_assume(B(0) == 0 && C(0) == 0);
	g_n = 0;
	vc_pos_push = &pos_push; vc_pos_load = &pos_load; vc_on_push = &on_push; vc_on_removed = &on_removed;
	vc_invariant2(&inv_pos, NULL); vc_invariant2(&inv_cur, NULL); vc_invariant2(&inv_out, NULL);
	vc_invariant_b(&inv_ok, NULL);
	if (g_out) vc_invariant(&inv_old, NULL);
}
static void hooks_off() {vc_pos_push = NULL; vc_pos_load = NULL; vc_on_push = NULL; vc_on_removed = NULL; vc_on_load = NULL;}
template<typename L> static void any_out(L& out)
{
	out.any("delivered");
	out.mon = OUT;
	out0 = out.size();
	g_k = vc_u64("k");
	g_k0 = out.feat(0, g_k); g_k1 = out.feat(1, g_k);
	g_out = &out; g_a0 = out.a[0]; g_a1 = out.a[1];
}
// what finding the frames means: n frames, the rest is not a frame (yet), cur is the length announced by the rest
static bool rest_head() {return LEN - B(g_n) >= HEAD;}
static bool rest_bad() {return vc_and(rest_head(), vc_not(possible(H(B(g_n)))));}
static bool found(uint64_t remain, uint64_t cur)
{
	return vc_and(vc_and(B(g_n) <= LEN, vc_or(g_n == 0, B(g_n) >= HEAD)), vc_and(remain == LEN - B(g_n), vc_and(vc_not(complete(g_n)),
		vc_and(vc_imp(rest_head(), cur == H(B(g_n))), vc_imp(vc_not(rest_head()), cur == (uint64_t) -1)))));
}
// contract of parse_msg(pos_list&) of the decoders that have it (proved by *_positions), for its callers
template<typename U> static bool stub_positions(U* u, pos_list* pl)
{
	vc_assert(u->remain_len == LEN && pl->size() == 0, "everything received is looked at");
	pl->any("frames");
	g_n = pl->size();
	vc_pos_base = u->raw_buff.begin();
	u->remain_len = vc_u64("remain2"); u->cur_msg_len = vc_u64("cur2");
	vc_assume(found(u->remain_len, u->cur_msg_len));
	return vc_and(g_n > 0, vc_not(rest_bad()));
}
template<typename U> static void prove_positions(U* u)
{
	pos_list pl;
	bool re = u->parse_msg(pl);
	pl.close_all();
	vc_assert(pl.size() == g_n, "every frame is listed");
	vc_assert(found(u->remain_len, u->cur_msg_len), "all complete frames are found, in order");
	vc_assert(vc_not(vc_and(vc_not(re), vc_and(g_n > 0, vc_not(rest_bad())))), "success is reported");
	vc_assert(vc_imp(re, vc_and(g_n > 0, vc_not(rest_bad()))), "failure is reported");
	uint64_t j = vc_u64("j");
	vc_assert(vc_imp(j < LEN, vc_byte(u->raw_buff.begin(), j) == vc_byte(st, j)), "the buffer is not changed");
	if (re) vc_cover("frames");
	if (!re) vc_cover("none");
	if (rest_bad()) vc_cover("impossible header");
}

// contract of basic_buffer::append(const char*, size_t) on an empty buffer (proved in buf.cpp), for its callers
extern "C" basic_buffer* stub_append(basic_buffer* b, const char* p, uint64_t n)
{
	vc_assert(0 == b->len && n <= UINT_MAX, "append to an empty buffer");
	vc_check_range(p, n, "appended range readable");
	if (NULL == b->buff)
		b->buff = vc_alloc(n, "basic_buffer");
	else
		vc_resize(b->buff, n);
	vc_memcpy_ghost(b->buff, p, n);
	b->len = n;
	b->cap = n;
	return b;
}
static void modular_append() {vc_replace_name("12basic_buffer6appendEPKcm$", (void*) &stub_append);}

// contract of dump_left_data (proved in unp3.cpp): reads what it is given, changes nothing
extern "C" void stub_dump(const char* data, uint64_t cur, uint64_t n) {if (NULL != data) vc_check_range(data, n, "dumped range readable");}
static void modular_dump() {vc_replace_name("15unpacker_helper14dump_left_data", (void*) &stub_dump);}
