// Contracts: accepting messages for sending on a TCP link (socket.h, base.h's TCP_SEND_MSG, tcp/socket.h): P11, and P10's acceptance half
#include "tcp_common.h"

static unsigned n_do_send; // do_send_msg was called (its contract: send.cpp)
static bool send_called(TS& t, bool in_strand) {++n_do_send; vc_assert(!in_strand, "a fresh attempt to send"); return vc_split(vc_bool("writes"));}
// after the message is in the queue the flag is looked at (an acquiring read): see the rule in send.cpp
static bool watching, looked; static uint64_t flag_seen; static unsigned ins0;
static void seen_flag(const void* a, int what, uint64_t v)
{
	if (!watching || a != &s->sending) return;
	vc_assert(0 == what, "accepting a message does not change the flag");
	if (s->send_buffer.ins == ins0 + 1) {looked = true; flag_seen = v;}
}
static void env_flag(const void* a, int what) {if (watching && a == &s->sending) s->sending.v = vc_split(vc_bool("sending")) ? 1 : 0;} // the sender runs meanwhile
static uint64_t n0, total0, ix; static ICAN* before; static bool can_overflow, prior, room; static bool mem_fails;
static void send_begin()
{
	tcp_begin();
	send_contract = &send_called; send_modular = true; n_do_send = 0;
	ix = vc_u64("i"); vc_assume(ix < ((uint64_t) 1 << 48));
	s->sending.v = vc_u64("sending"); vc_assume(s->sending.v <= 1);
	s->send_buffer.close_all();
	before = new ICAN(); copy_list(*before, s->send_buffer);
	n0 = s->send_buffer.n; total0 = s->send_buffer.total; ins0 = s->send_buffer.ins;
	can_overflow = vc_bool("can-overflow"); prior = vc_split(vc_bool("prior"));
	room = total0 < s->send_buf_size_;
	vcn::cur = vc_split(vc_bool("in-io-strand")) ? s->io_strand() : NULL;
	vcn_env = &env_flag; vcn_seen = &seen_flag; watching = true; looked = false;
}
static bool old_elems(uint64_t front, uint64_t dropped) // what was pending is still there, in order
{
	s->send_buffer.close_all();
	return vc_imp(vc_and(ix >= dropped, ix < n0), same_elem((const ICAN&) s->send_buffer, ix - dropped + front, *before, ix));
}
static void unchanged(const char*)
{
	watching = false;
	vc_assert(s->send_buffer.n == n0 && s->send_buffer.total == total0 && s->send_buffer.ins == ins0 && old_elems(0, 0), "a refused message leaves the buffer unchanged");
	vc_assert(0 == vcn::ntask && 0 == n_do_send && 0 == vcn::nop, "a refused message starts nothing");
}
// a message (or list) entered: someone is told, unless a write is in flight
static void started()
{
	watching = false;
	vc_assert(looked || !is_connected(), "the flag is looked at after the message entered the queue");
	bool need = is_connected() && 1 != flag_seen;
	unsigned calls = n_do_send;
	for (unsigned i = 0; i < vcn::ntask; ++i)
	{
		vc_assert(vcn::tasks[i].strand == s->io_strand(), "sending is done in the IO strand");
		vcn::run_task(i);
	}
	vc_assert(vc_imp(need, n_do_send > 0), "sending is started unless a write is in flight");
	vc_assert(vc_imp(calls > 0, vcn::cur == s->io_strand()), "... in the IO strand");
	vc_assert(vc_imp(!is_connected(), 0 == n_do_send), "no write on a link that is not up");
	vc_assert(0 == vcn::nop, "accepting itself writes nothing");
}
static void one_entered(uint64_t len, uint64_t tok)
{
	vc_assert(s->send_buffer.n == n0 + 1 && s->send_buffer.ins == ins0 + 1 && s->send_buffer.total == total0 + len, "the message enters once, the pending bytes grow by its size");
	uint64_t at = prior ? 0 : n0;
	s->send_buffer.close_all();
	vc_assert(s->send_buffer.feat(0, at) == len && s->send_buffer.feat(1, at) == tok, "... at the end, in front with prior");
	vc_assert(old_elems(prior ? 1 : 0, 0), "... the others keep their order");
	started();
}

// ---- lists
static uint64_t k0; static LMSG* src; // the list to enter and its content before
static void any_list(LMSG& l, const char* name) {l.any(name); k0 = l.n; src = new LMSG(l);}
static void sums() {sum_on = true; vc_assume(TSUM(1, 0) == 0);}
static void list_entered()
{
	TS::in_queue_type& q = s->send_buffer;
	if (vc_split(k0 == 0))
	{
		watching = false;
		vc_assert(q.n == n0 && q.total == total0 && old_elems(0, 0), "an empty list changes nothing");
		return;
	}
	vc_assert(q.ins == ins0 + 1 && q.in_n == k0 && q.n == n0 + k0 && q.in_front == prior, "the list enters once, as a whole: at the end, in front with prior");
	vc_assert(vc_imp(ix < k0, vc_and(vc_aget(q.in[0], ix) == src->feat(0, ix), vc_aget(q.in[1], ix) == src->feat(1, ix))), "... each message, in order");
	vc_assert(vc_or(q.in_given == 0, q.in_given == TSUM(1, k0)), "... with the sum of their sizes");
	started();
}
static uint64_t mlen, mtok;
static void any_message(MSG& m) {any_msg(m); mlen = m.len; mtok = m.tok;}
static LMSG* from; // the list being moved
static bool inv_temp(void*, uint64_t i, uint64_t z) // while a list is moved element by element: i are in the new one, z bytes
{
	if (!src) return true;
	LMSG* from = ::from ? ::from : (LMSG*) LMSG::last;
	ICAN* t = (ICAN*) ICAN::last;
	bool r = vc_and(vc_and(z == TSUM(1, i), i <= k0), vc_and(t->n == i, from->n == k0));
	r = vc_and(r, vc_imp(ix < i, vc_and(t->feat(0, ix) == src->feat(0, ix), t->feat(1, ix) == src->feat(1, ix))));
	return vc_and(r, vc_imp(vc_and(ix >= i, ix < k0), same_elem(*from, ix, *src, ix)));
}

#ifndef ST_ASIO_SHRINK_SEND_BUFFER
static bool refused() {return vc_split(vc_and(!can_overflow, !room));}
static void moved_or_kept(bool re, const MSG& m, bool moved)
{
	if (!moved) vc_assert(m.len == mlen && m.tok == mtok, "the caller's message is not touched");
}
extern "C" void vc_contract_p11_direct_send()
{
	send_begin();
	MSG m; any_message(m);
	vq_may_fail = true;
	bool moved = vc_split(vc_bool("move")), re;
	if (moved) re = s->direct_send_msg(m, can_overflow, prior);
	else re = s->direct_send_msg((const MSG&) m, can_overflow, prior);
	if (!moved) vc_assert(m.len == mlen && m.tok == mtok, "the caller's message is not touched");
	if (refused())
	{
		vc_assert(!re, "refused: the buffer is full");
		vc_assert(m.len == mlen && m.tok == mtok, "a refused message stays with the caller");
		unchanged("");
	}
	else
	{
		vc_assert(re, "not refused");
		if (vc_split(s->send_buffer.ins == ins0)) unchanged("");
		else
		{
			vc_assert(mlen > 0, "an empty message never enters");
			if (moved) vc_assert(m.empty(), "a moved message is empty");
			one_entered(mlen, mtok);
		}
	}
	vc_cover("end");
}
extern "C" void vc_contract_p11_direct_send_enters() // memory suffices: it does enter
{
	send_begin();
	MSG m; any_message(m); vc_assume(mlen > 0);
	bool re = vc_split(vc_bool("move")) ? s->direct_send_msg(m, true, prior) : s->direct_send_msg((const MSG&) m, true, prior);
	vc_assert(re, "forced sends are not refused");
	one_entered(mlen, mtok);
	vc_cover("end");
}
extern "C" void vc_contract_p11_direct_send_list()
{
	send_begin();
	LMSG l; any_list(l, "list"); from = &l;
	sums();
	vc_invariant2(&inv_temp, NULL);
	bool re = s->direct_send_msg(l, can_overflow, prior);
	vc_assert(re == !refused(), "refused exactly when the buffer is full and overflow is not permitted");
	if (re) list_entered();
	else
	{
		vc_assert(l.n == k0 && vc_imp(ix < k0, same_elem(l, ix, *src, ix)), "a refused list stays with the caller");
		unchanged("");
	}
	vc_cover("end");
}
// ---- the packing interfaces (base.h: TCP_SEND_MSG): what the packer gives enters as a whole, or nothing
static void any_src(LMSG& l) {k0 = l.n; src = new LMSG(l);}
static void packed(vpacker::container_type& c) {from = &c; any_src(c);}
static const char* PS[2]; static size_t LS2[2];
enum {MOVE1, COPY1, MOVE2, COPY2, LIST, ARRAY, PTR, CPTR, BUFFER, OVERLOADS};
struct BUFF {const char* data() const {return vcn_buf_base;} size_t size() const {return LS2[0];}};
static bool call(unsigned f, bool native, bool safe, MSG& a, MSG& b, LMSG& l)
{
	BUFF u;
#define CALL(F) \
	switch (f) \
	{ \
	case MOVE1: return s->F(a, can_overflow, prior); \
	case COPY1: return s->F((const MSG&) a, can_overflow, prior); \
	case MOVE2: return s->F(a, b, can_overflow, prior); \
	case COPY2: return s->F((const MSG&) a, (const MSG&) b, can_overflow, prior); \
	case LIST: return s->F(l, can_overflow, prior); \
	case ARRAY: return s->F(PS, LS2, 2, can_overflow, prior); \
	case PTR: return s->F(const_cast<char*>(PS[0]), LS2[0], can_overflow, prior); \
	case CPTR: return s->F(PS[0], LS2[0], can_overflow, prior); \
	default: return s->F(u, can_overflow, prior); \
	}
	if (safe) {if (native) CALL(safe_send_native_msg) CALL(safe_send_msg)}
	if (native) CALL(send_native_msg)
	CALL(send_msg)
}
static void packing(unsigned f0, unsigned f1, bool native)
{
	send_begin();
	unsigned f = f0 + vc_fork(f1 - f0);
	MSG a, b; LMSG l;
	any_msg(a); any_msg(b); vc_assume(a.len > 0);
	uint64_t al = a.len, at = a.tok, bl = b.len, bt = b.tok;
	LS2[0] = vc_u64("len"); LS2[1] = vc_u64("len2"); PS[0] = PS[1] = vcn_buf_base;
	l.any("list"); from = &l; src = NULL;
	if (native)
	{
		if (LIST == f) any_src(l);
		else if (MOVE2 == f || COPY2 == f) {LMSG two; two.emplace_back(a); two.emplace_back(b); any_src(two); from = NULL;}
	}
	else vpacker::on_packed = &packed;
	sums();
	vc_invariant2(&inv_temp, NULL);
	bool ref = refused(), re = call(f, native, false, a, b, l);
	if (ref)
	{
		vc_assert(!re, "refused: the buffer is full");
		vc_assert(0 == s->pk().packed, "... before anything is packed");
		vc_assert(a.len == al && a.tok == at && b.len == bl && b.tok == bt, "a refused message stays with the caller");
		unchanged("");
	}
	else if (f >= ARRAY)
	{
		vc_assert(1 == s->pk().packed && s->pk().native_asked == native, "packed once");
		vc_assert(re, "not refused (see the documentation of safe_send_msg)");
		if (vc_split(s->pk().one.len == 0)) unchanged("");
		else one_entered(s->pk().one.len, s->pk().one.tok);
	}
	else if (native)
	{
		vc_assert(re && 0 == s->pk().packed, "native messages are not packed");
		if (f <= COPY1) one_entered(al, at);
		else list_entered();
	}
	else
	{
		vc_assert(1 == s->pk().packed, "packed once");
		vc_assert(re == s->pk().ok, "refused exactly when packing failed");
		if (re) list_entered();
		else unchanged("");
	}
	vc_cover("end");
}
extern "C" void vc_contract_p11_send_msg() {packing(MOVE1, ARRAY, false); vc_cover("end");}
extern "C" void vc_contract_p11_send_native_msg() {packing(MOVE1, ARRAY, true); vc_cover("end");}
extern "C" void vc_contract_p11_send_bytes() {packing(ARRAY, OVERLOADS, vc_split(vc_bool("native"))); vc_cover("end");}

// ---- safe_send_...: tries until the message enters or the link is no longer up (each try is a call of the interface above, decided there)
static bool entered, native_called; static unsigned want_f; static const void* arg1; static const void* arg2; static bool shape_ok;
static bool a_try(bool native, unsigned f, const void* x, const void* y, bool o, bool p)
{
	vc_assert(!entered, "nothing is sent again once it entered");
	native_called = native;
	vc_assert((f == want_f || (f == MOVE1 && COPY1 == want_f) || (f == MOVE2 && COPY2 == want_f) || (f == ARRAY && want_f > ARRAY)) && (f >= ARRAY || x == arg1) && y == arg2, "the caller's message is passed on");
	vc_assert(o == can_overflow && p == prior, "... with the caller's options");
	if (vc_split(vc_bool("enters"))) {entered = true; return true;}
	return false;
}
template<bool N> static bool try1(TS*, MSG* a, bool o, bool p) {return a_try(N, MOVE1, a, NULL, o, p);}
template<bool N> static bool try2(TS*, MSG* a, MSG* b, bool o, bool p) {return a_try(N, MOVE2, a, b, o, p);}
template<bool N> static bool tryl(TS*, LMSG* a, bool o, bool p) {return a_try(N, LIST, a, NULL, o, p);}
template<bool N> static bool trya(TS*, const char* const*, const size_t* l, size_t n, bool o, bool p)
{
	vc_assert(n == (ARRAY == want_f ? 2u : 1u) && l[0] == LS2[0] && (n < 2 || l[1] == LS2[1]), "the caller's bytes are passed on");
	return a_try(N, ARRAY, NULL, NULL, o, p);
}
static bool not_entered(void*) {return !entered;}
static void sleeping() {s->status = any_status();}
extern "C" void vc_contract_p11_safe_send()
{
	tcp_begin();
	bool native = vc_split(vc_bool("native"));
	can_overflow = vc_bool("can-overflow"); prior = vc_bool("prior");
	bool ok = vc_replace_name("8send_msgERK?3MSGbb$", (void*) &try1<false>);
	ok &= vc_replace_name("8send_msgERK?3MSGS[0-9A-Z]*_bb$", (void*) &try2<false>);
	ok &= vc_replace_name("8send_msgERNS[0-9A-Z]*_I3MSGEEbb$", (void*) &tryl<false>);
	ok &= vc_replace_name("8send_msgEPKPKcPKmmbb$", (void*) &trya<false>);
	ok &= vc_replace_name("15send_native_msgERK?3MSGbb$", (void*) &try1<true>);
	ok &= vc_replace_name("15send_native_msgERK?3MSGS[0-9A-Z]*_bb$", (void*) &try2<true>);
	ok &= vc_replace_name("15send_native_msgERNS[0-9A-Z]*_I3MSGEEbb$", (void*) &tryl<true>);
	ok &= vc_replace_name("15send_native_msgEPKPKcPKmmbb$", (void*) &trya<true>);
	vc_assert(ok, "model: the interfaces exist");
	want_f = vc_fork(OVERLOADS); entered = false;
	MSG a, b; LMSG l;
	arg1 = LIST == want_f ? (void*) &l : (void*) &a; arg2 = MOVE2 == want_f || COPY2 == want_f ? &b : NULL;
	LS2[0] = vc_u64("len"); LS2[1] = vc_u64("len2"); PS[0] = PS[1] = vcn_buf_base;
	vc_invariant(&not_entered, NULL);
	vcn_sleep = &sleeping;
	bool re = call(want_f, native, true, a, b, l);
	vc_assert(re == entered, "success means it entered, once");
	vc_assert(native_called == native, "the native variant sends natively");
	vc_assert(re || !is_connected(), "gives up only when the link is not up");
	vc_cover("end");
}
#else
// ---- with ST_ASIO_SHRINK_SEND_BUFFER: the oldest messages make room
extern "C" void vc_contract_p11_shrink()
{
	send_begin();
	shrink_to = vc_u64("shrink-size"); n_shrink = n_discard = 0;
	MSG m; any_message(m); vc_assume(mlen > 0);
	bool re = s->direct_send_msg(m, can_overflow, prior);
	bool full = vc_split(vc_and(!can_overflow, !room));
	s->send_buffer.close_all();
	if (!full)
	{
		vc_assert(re && 0 == n_discard && 0 == n_shrink, "no message is discarded without need");
		one_entered(mlen, mtok);
	}
	else if (vc_split(shrink_to == 0))
	{
		vc_assert(!re && m.len == mlen && m.tok == mtok && 0 == n_discard, "refused: the user does not want to discard messages");
		unchanged("");
	}
	else
	{
		uint64_t k = s->send_buffer.moved;
		vc_assert(1 == n_shrink && shrink_asked == total0, "the user is told how much is pending");
		vc_assert(1 == n_discard && discarded->n == k && re, "discarded messages are reported once");
		vc_assert(vc_imp(ix < k, same_elem(*discarded, ix, *before, ix)), "... the oldest ones");
		vc_assert(s->send_buffer.n == n0 - k + 1, "the rest stays, the new message enters");
		uint64_t at = prior ? 0 : n0 - k;
		vc_assert(s->send_buffer.feat(0, at) == mlen && s->send_buffer.feat(1, at) == mtok, "... at its place");
		vc_assert(old_elems(prior ? 1 : 0, k), "... the others keep their order");
		started();
	}
	vc_assert(!s->send_buffer.locked, "the queue is unlocked");
	vc_cover("end");
}
#endif
