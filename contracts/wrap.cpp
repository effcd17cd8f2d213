// Contracts: the message wrappers of base.h: object_buffer (unique, shared), obj_with_begin_time(_promise), udp_msg
#include "common.h"
#include <boost/thread/future.hpp>
using namespace st_asio_wrapper;

//---------------------------------------------------------------- object_buffer
static unsigned g_freed;
struct payload : std::string {~payload() {++g_freed;}};
static payload* any_payload(const char* name) {payload* p = new payload(); any_str(*p, name); return p;}
template<typename B> static bool is(const B& b, payload* p)
{
	if (NULL == p) return !b.raw_buffer() && b.empty() && 0 == b.size() && NULL == b.data();
	return b.raw_buffer().get() == p && b.size() == p->size() && b.data() == p->data() && b.empty() == p->empty();
}
template<typename B> static void buffer_common()
{
	g_freed = 0;
	{
		B e;
		vc_assert(is(e, NULL), "a default buffer is an empty message");
		bool has = vc_split(vc_bool("has"));
		payload* p = has ? any_payload("size") : NULL;
		payload* p2 = any_payload("size2");
		B a(p), b(p2);
		vc_assert(is(a, p) && is(b, p2), "a buffer stands for its object");
		switch (vc_fork(6))
		{
		case 0: a.swap(b); vc_assert(is(a, p2) && is(b, p) && 0 == g_freed, "swap exchanges the objects"); vc_cover("swap"); break;
		case 1: b.clear(); vc_assert(is(b, NULL) && 1 == g_freed && is(a, p), "clear releases the object, once"); b.clear(); vc_assert(is(b, NULL) && 1 == g_freed, "nothing left to release"); vc_cover("clear"); break;
		case 2: a.raw_buffer(p2 = any_payload("size3")); vc_assert(is(a, p2) && g_freed == (has ? 1 : 0), "the new object replaces the old one"); vc_cover("raw"); break;
		case 3: a.raw_buffer(const_cast<typename B::buffer_type&>(b.raw_buffer())); vc_assert(is(a, p2) && is(b, NULL) && g_freed == (has ? 1 : 0), "the object moves over"); vc_cover("raw move"); break;
		case 4: a.swap(e); vc_assert(is(a, NULL) && is(e, p) && 0 == g_freed, "swap with an empty one"); vc_cover("swap empty"); break;
		default: a.swap(a); vc_assert(is(a, p) && 0 == g_freed, "swap with itself"); vc_cover("self"); break;
		}
		g_freed = 0;
	}
	vc_cover("end");
}
extern "C" void vc_contract_p08_unique_buffer() {buffer_common<unique_buffer<payload> >(); vc_cover("done");}
extern "C" void vc_contract_p08_shared_buffer() {buffer_common<shared_buffer<payload> >(); vc_cover("done");}
extern "C" void vc_contract_p08_ownership() // every object is released exactly once
{
	typedef shared_buffer<payload> S; typedef unique_buffer<payload> U;
	g_freed = 0;
	{
		U u(any_payload("u"));
		{
			S a(any_payload("s"));
			S b(a), c;
			c = b;
			vc_assert(a.raw_buffer().get() == b.raw_buffer().get() && c.raw_buffer().get() == a.raw_buffer().get() && 0 == g_freed, "copies of a shared buffer share");
			S d;
			d.raw_buffer((const boost::shared_ptr<payload>&) a.raw_buffer());
			vc_assert(is(d, a.raw_buffer().get()) && a.raw_buffer().use_count() == 4, "sharing the object");
			payload* p = a.raw_buffer().get();
			a.clear(); c.clear();
			vc_assert(is(b, p) && is(d, p) && 0 == g_freed, "clearing one copy leaves the others");
		}
		vc_assert(1 == g_freed, "the last copy releases the object");
	}
	vc_assert(2 == g_freed, "a unique buffer releases its object");
	vc_cover("end");
}
//---------------------------------------------------------------- obj_with_begin_time
typedef statistic::stat_time T;
static uint64_t tk(const T& t)
{
#ifdef ST_ASIO_FULL_STATISTIC
	return t.time_since_epoch().count();
#else
	return 0;
#endif
}
static void any_time(T& t)
{
#ifdef ST_ASIO_FULL_STATISTIC
	t = T(boost::chrono::system_clock::duration((int64_t) vc_u64("time")));
#endif
}
static uint64_t g_now;
#ifdef ST_ASIO_FULL_STATISTIC
static T stub_now() {return T(boost::chrono::system_clock::duration((int64_t) g_now));}
#endif
static void clock_on()
{
	g_now = 0;
#ifdef ST_ASIO_FULL_STATISTIC
	g_now = vc_u64("now");
	vc_replace_name("9statistic3nowEv", (void*) &stub_now);
#endif
}
static bool blank(const std::string& s) {return s.empty() && 0 == s.size();}
#ifdef W_PROMISE
typedef obj_with_begin_time_promise<std::string> O;
#else
typedef obj_with_begin_time<std::string> O;
#endif
struct osnap
{
	str_snap s; uint64_t t;
#ifdef W_PROMISE
	void* p; osnap(O& o) : s(o), t(tk(o.begin_time)), p(o.p.get()) {}
	bool same(O& o) const {return s.same(o) && tk(o.begin_time) == t && o.p.get() == p;}
#else
	osnap(O& o) : s(o), t(tk(o.begin_time)) {}
	bool same(O& o) const {return s.same(o) && tk(o.begin_time) == t;}
#endif
};
static void any_obj(O& o, const char* name)
{
	any_str(o, name); any_time(o.begin_time);
#ifdef W_PROMISE
	if (vc_split(vc_bool("promise"))) o.check_and_create_promise(true);
#endif
}
static bool empty_obj(O& o)
{
#ifdef W_PROMISE
	return blank(o) && !o.p;
#else
	return blank(o);
#endif
}
extern "C" void vc_contract_p08_timed_construct()
{
	clock_on();
	std::string m; any_str(m, "size");
	const std::string& cm = m;
	str_snap s(m);
	switch (vc_fork(5))
	{
	case 0: {O o(cm); vc_assert(s.same(o) && s.same(m) && tk(o.begin_time) == g_now, "a copy of the content, timed now"); vc_assert(o.data() != m.data(), "not shared"); vc_cover("copy");} break;
	case 1: {O o(m); vc_assert(s.same(o) && blank(m) && tk(o.begin_time) == g_now, "the content moves in, timed now"); vc_cover("move");} break;
	case 2: {O x; any_obj(x, "size2"); osnap sx(x); const O& cx = x; O o(cx); vc_assert(sx.same(o) && sx.same(x), "copied, with its time"); vc_assert(o.data() != x.data(), "not shared"); vc_cover("copy obj");} break;
	case 3: {O x; any_obj(x, "size2"); osnap sx(x); O o(x); vc_assert(sx.same(o), "moved, with its time"); vc_assert(empty_obj(x), "the source is left empty"); vc_cover("move obj");} break;
	default: {O o; vc_assert(empty_obj(o), "a default one is empty"); vc_cover("default");} break;
	}
	vc_cover("end");
}
extern "C" void vc_contract_p08_timed_assign()
{
	clock_on();
	std::string m; any_str(m, "size");
	const std::string& cm = m;
	str_snap s(m);
	O o; any_obj(o, "old"); osnap so(o);
	O x; any_obj(x, "size2"); osnap sx(x);
	const O& cx = x;
	switch (vc_fork(7))
	{
#ifndef W_PROMISE
	case 0: {O& r = o = cm; vc_assert(&r == &o && s.same(o) && s.same(m) && tk(o.begin_time) == g_now, "a copy of the content, timed now"); vc_cover("copy");} break;
	case 1: {O& r = o = m; vc_assert(&r == &o && s.same(o) && blank(m) && tk(o.begin_time) == g_now, "the content moves in, timed now"); vc_cover("move");} break;
#endif
	case 2: {O& r = o = cx; vc_assert(&r == &o && sx.same(o) && sx.same(x), "copied, with its time"); vc_assert(o.data() != x.data(), "not shared"); vc_cover("copy obj");} break;
	case 3: {O& r = o = x; vc_assert(&r == &o && sx.same(o), "moved, with its time"); vc_assert(empty_obj(x), "the source is left empty"); vc_cover("move obj");} break;
	case 4: o.swap(x); vc_assert(sx.same(o) && so.same(x), "exchanged, attribute by attribute"); vc_cover("swap"); break;
	case 5:
		{
			str_snap t(o);
			o.swap(m);
			vc_assert(s.same(o) && t.same(m) && tk(o.begin_time) == g_now, "contents are exchanged, timed now");
#ifdef W_PROMISE
			vc_assert(!o.p, "no promise unless asked for");
#endif
			vc_cover("swap content");
		}
		break;
	case 6: o.clear(); vc_assert(empty_obj(o) && tk(o.begin_time) == 0, "empty"); vc_cover("clear"); break;
	default: break;
	}
	vc_cover("end");
}
#ifdef W_PROMISE
extern "C" void vc_contract_p08_promise()
{
	clock_on();
	O o; any_obj(o, "size");
	void* p0 = o.p.get();
	bool need = vc_split(vc_bool("need"));
	std::string m; any_str(m, "size2");
	switch (vc_fork(3))
	{
	case 0: o.check_and_create_promise(need); vc_assert(need ? (o.p && (!p0 || o.p.get() == p0)) : !o.p, "a promise exactly if needed; an existing one is kept"); vc_cover("check"); break;
	case 1: {str_snap s(m); O x(m, need); vc_assert(s.same(x) && blank(m) && (NULL != x.p.get()) == need, "made with a promise if needed"); vc_cover("make");} break;
	default: {str_snap s(m); const std::string& cm = m; O x(cm, need); vc_assert(s.same(x) && s.same(m) && (NULL != x.p.get()) == need, "made with a promise if needed"); vc_cover("make copy");} break;
	}
	vc_cover("end");
}
#endif
//---------------------------------------------------------------- udp_msg
typedef st_asio_wrapper::udp::udp_msg<std::string> UM;
typedef boost::asio::ip::udp::endpoint EP;
static uint64_t ek(EP& e) {return vc_snap(e.data(), sizeof(EP));}
static void any_ep(EP& e) {vc_bytes(&e, sizeof(EP)); vc_havoc_bytes(&e, sizeof(EP));}
struct usnap
{
	str_snap s; uint64_t e;
	usnap(UM& m) : s(m), e(ek(m.peer_addr)) {}
	bool same(UM& m) const {return s.same(m) && ek(m.peer_addr) == e;}
};
extern "C" void vc_contract_p08_udp_msg()
{
	UM a; any_str(a, "size"); any_ep(a.peer_addr);
	UM b; any_str(b, "size2"); any_ep(b.peer_addr);
	const UM& ca = a;
	usnap sa(a), sb(b);
	std::string m; any_str(m, "size3"); str_snap sm(m);
	const std::string& cm = m;
	EP ep; any_ep(ep);
	switch (vc_fork(9))
	{
	case 0: a.swap(b); vc_assert(sa.same(b) && sb.same(a), "content and address are exchanged"); vc_cover("swap"); break;
	case 1: {UM c(ca); vc_assert(sa.same(c) && sa.same(a) && c.data() != a.data(), "copied, not shared"); vc_cover("copy");} break;
	case 2: {UM c(a); vc_assert(sa.same(c) && blank(a), "moved, the source is left empty"); vc_cover("move");} break;
	case 3: b = ca; vc_assert(sa.same(b) && sa.same(a) && b.data() != a.data(), "assigned, not shared"); vc_cover("assign"); break;
	case 4: {UM c(ep); vc_assert(blank(c) && ek(c.peer_addr) == ek(ep), "an empty message for an address"); vc_cover("addr");} break;
	case 5: {UM c(ep, cm); vc_assert(sm.same(c) && sm.same(m) && ek(c.peer_addr) == ek(ep), "a copy for an address"); vc_cover("addr copy");} break;
	case 6: {UM c(ep, m); vc_assert(sm.same(c) && blank(m) && ek(c.peer_addr) == ek(ep), "moved to an address"); vc_cover("addr move");} break;
	case 7: {uint64_t e0 = ek(a.peer_addr); a.swap(m); vc_assert(sm.same(a) && sa.s.same(m) && ek(a.peer_addr) == e0, "only the content is exchanged"); vc_cover("swap content");} break;
	default: {uint64_t e0 = ek(a.peer_addr); a = cm; vc_assert(sm.same(a) && sm.same(m) && ek(a.peer_addr) == e0, "only the content is assigned"); vc_cover("assign content");} break;
	}
	vc_cover("end");
}
// a queued datagram: timed and addressed
typedef obj_with_begin_time<UM> OU;
extern "C" void vc_contract_p08_timed_udp_msg()
{
	clock_on();
	UM a; any_str(a, "size"); any_ep(a.peer_addr);
	usnap sa(a);
	OU o; any_str(o, "size2"); any_ep(o.peer_addr); any_time(o.begin_time);
	usnap so(o); uint64_t t0 = tk(o.begin_time);
	const OU& co = o;
	switch (vc_fork(4))
	{
	case 0: {OU x(a); vc_assert(sa.same(x) && blank(a) && tk(x.begin_time) == g_now, "moved in, timed now"); vc_cover("move");} break;
	case 1: {OU x; x.swap(o); vc_assert(so.same(x) && blank(o) && tk(x.begin_time) == t0, "exchanged, attribute by attribute"); vc_cover("swap");} break;
	case 2: {OU x(co); vc_assert(so.same(x) && so.same(o) && tk(x.begin_time) == t0, "copied"); vc_cover("copy");} break;
	default: {OU x(o); vc_assert(so.same(x) && blank(o) && tk(x.begin_time) == t0, "moved"); vc_cover("move obj");} break;
	}
	vc_cover("end");
}
