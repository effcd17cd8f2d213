// Contracts: struct statistic, its durations, auto_duration (base.h)
#include "common.h"
using namespace st_asio_wrapper;
typedef boost::uint_fast64_t u64;
typedef boost::chrono::system_clock::duration D;

static void any_stat(statistic& s)
{
	s.send_msg_sum = vc_u64("send_msg"); s.send_byte_sum = vc_u64("send_byte"); s.recv_msg_sum = vc_u64("recv_msg"); s.recv_byte_sum = vc_u64("recv_byte");
	s.establish_time = vc_u64("establish"); s.break_time = vc_u64("break"); s.last_send_time = vc_u64("last_send"); s.last_recv_time = vc_u64("last_recv");
}
static uint64_t f(const statistic& s, unsigned k)
{
	switch (k)
	{
	case 0: return s.send_msg_sum; case 1: return s.send_byte_sum; case 2: return s.recv_msg_sum; case 3: return s.recv_byte_sum;
	case 4: return s.establish_time; case 5: return s.break_time; case 6: return s.last_send_time; default: return s.last_recv_time;
	}
}
#ifdef ST_ASIO_FULL_STATISTIC
typedef statistic::duration DU;
static DU& du(statistic& s, unsigned k)
{
	switch (k)
	{
	case 0: return s.send_delay_sum; case 1: return s.send_time_sum; case 2: return s.pack_time_sum; case 3: return s.dispatch_delay_sum;
	case 4: return s.recv_idle_sum; case 5: return s.handle_time_sum; default: return s.unpack_time_sum;
	}
}
// what a duration collected from a set of samples (none negative) looks like
static bool valid(DU& d)
{
	return vc_and(vc_and(d.num >= 0, vc_and(d.count() >= 0, d.min_duration.count() >= 0)), vc_and(d.min_duration.count() <= d.max_duration.count(),
		vc_imp(d.num == 0, vc_and(d.count() == 0, vc_and(d.min_duration.count() == 0, d.max_duration.count() == 0)))));
}
static void any_dur(DU& d)
{
	static_cast<D&>(d) = D((int64_t) vc_u64("sum"));
	d.min_duration = D((int64_t) vc_u64("min")); d.max_duration = D((int64_t) vc_u64("max")); d.num = (int64_t) vc_u64("num");
	vc_assume(valid(d));
}
struct snap {int64_t sum, mi, ma, num; snap(const DU& d) : sum(d.count()), mi(d.min_duration.count()), ma(d.max_duration.count()), num(d.num) {}
	bool same(const snap& o) const {return vc_and(vc_and(sum == o.sum, mi == o.mi), vc_and(ma == o.ma, num == o.num));}};
static void merged(const snap& r, const snap& a, const snap& b)
{
	vc_assert((uint64_t) r.sum == (uint64_t) a.sum + (uint64_t) b.sum && (uint64_t) r.num == (uint64_t) a.num + (uint64_t) b.num, "totals and numbers of samples add");
	vc_assert(r.ma == (int64_t) vc_ite(a.ma > b.ma, a.ma, b.ma), "maximum of the union");
	vc_assert(vc_imp(vc_and(a.num > 0, b.num > 0), r.mi == (int64_t) vc_ite(a.mi < b.mi, a.mi, b.mi)), "minimum of the union");
	vc_assert(vc_imp(b.num == 0, r.mi == a.mi) && vc_imp(vc_and(a.num == 0, b.num > 0), r.mi == b.mi), "minimum when one side has no sample");
}
static const int64_t BIG = (int64_t) 1 << 60;
extern "C" void vc_contract_p09_duration()
{
	DU d;
	vc_assert(d.count() == 0 && d.num == 0 && d.min_duration.count() == 0 && d.max_duration.count() == 0 && d.get_avg().count() == 0, "a new duration is zero");
	any_dur(d);
	vc_assume(d.count() < BIG && d.num < BIG);
	snap d0(d);
	switch (vc_fork(4))
	{
	case 0:
		{
			int64_t x = (int64_t) vc_u64("sample");
			vc_assume(x >= 0 && x < BIG);
			DU& r = d += D(x);
			vc_assert(&r == &d && d.count() == d0.sum + x && d.num == d0.num + 1, "a sample is added");
			vc_assert(d.max_duration.count() == (int64_t) vc_ite(x > d0.ma, x, d0.ma), "maximum");
			vc_assert(d.min_duration.count() == (int64_t) vc_ite(vc_or(d0.num == 0, x < d0.mi), x, d0.mi), "minimum");
			vc_assert(valid(d), "still valid");
			vc_cover("sample");
		}
		break;
	case 1:
		{
			DU e; any_dur(e);
			vc_assume(e.count() < BIG && e.num < BIG);
			snap e0(e);
			DU& r = d += e;
			vc_assert(&r == &d && snap(e).same(e0), "the other is not changed");
			merged(snap(d), d0, e0);
			vc_assert(valid(d), "still valid");
			vc_cover("merge");
		}
		break;
	case 2:
		{
			DU e; any_dur(e);
			vc_assume(e.count() <= d0.sum && e.num <= d0.num);
			snap e0(e);
			DU& r = d -= e;
			vc_assert(&r == &d && snap(e).same(e0) && d.count() == d0.sum - e0.sum && d.num == d0.num - e0.num, "totals and numbers subtract");
			vc_cover("subtract");
		}
		break;
	default:
		d.reset();
		vc_assert(d.count() == 0 && d.num == 0 && d.min_duration.count() == 0 && d.max_duration.count() == 0, "reset zeroes");
		vc_cover("reset");
	}
	vc_cover("end");
}
extern "C" void vc_contract_p09_average()
{
	DU d;
	any_dur(d);
	uint64_t n = vc_fork(9); // bounded: 0..8 samples
	vc_assume(d.num == n && d.count() < 1 << 20);
	int64_t a = d.get_avg().count();
	if (n > 0) vc_assert(a * (int64_t) n <= d.count() && d.count() < (a + 1) * (int64_t) n, "average");
	vc_assert(d.get_avg().count() <= d.count(), "no larger than the total");
	vc_cover("end");
}
static int64_t g_now0, g_now1; static unsigned g_nows;
static statistic::stat_time stub_now() {return statistic::stat_time(D(g_nows++ ? g_now1 : g_now0));}
extern "C" void vc_contract_p09_auto_duration()
{
	vc_replace_name("9statistic3nowEv", (void*) &stub_now);
	g_now0 = (int64_t) vc_u64("begin"); g_now1 = (int64_t) vc_u64("finish"); g_nows = 0;
	vc_assume(g_now0 >= 0 && g_now1 >= g_now0 && g_now1 < BIG);
	DU d; any_dur(d);
	vc_assume(d.count() < BIG && d.num < BIG);
	snap d0(d);
	bool early = vc_split(vc_bool("end called"));
	{
		auto_duration a(d);
		vc_assert(snap(d).same(d0), "nothing is counted yet");
		if (early) {a.end(); a.end();}
	}
	vc_assert(d.num == d0.num + 1 && d.count() == d0.sum + (g_now1 - g_now0), "the time is counted exactly once");
	vc_cover("end");
}
#endif
static void any_durs(statistic& s)
{
#ifdef ST_ASIO_FULL_STATISTIC
	for (unsigned k = 0; k < 7; ++k) {any_dur(du(s, k)); vc_assume(du(s, k).count() < BIG && du(s, k).num < BIG);}
#endif
}
extern "C" void vc_contract_p09_reset()
{
	statistic n;
	for (unsigned k = 0; k < 8; ++k) vc_assert(f(n, k) == 0, "a new statistic is zero");
	statistic s;
	any_stat(s); any_durs(s);
	if (vc_split(vc_bool("numbers only"))) s.reset_number(); else s.reset();
	for (unsigned k = 0; k < 8; ++k) vc_assert(f(s, k) == 0, "reset zeroes");
	vc_cover("end");
}
#ifdef ST_ASIO_FULL_STATISTIC
extern "C" void vc_contract_p09_reset_durations()
{
	statistic s;
	any_stat(s); any_durs(s);
	if (vc_split(vc_bool("durations only"))) s.reset_duration(); else s.reset();
	for (unsigned k = 0; k < 7; ++k) {DU& d = du(s, k); vc_assert(d.count() == 0 && d.num == 0 && d.min_duration.count() == 0 && d.max_duration.count() == 0, "reset zeroes");}
	vc_cover("end");
}
#endif
#ifdef ST_ASIO_FULL_STATISTIC
// contracts of duration += and -= (proved in p09_duration), for their callers
extern "C" DU* stub_merge(DU* d, const DU* e)
{
	DU a(*d);
	vc_assert(valid(a) && valid(*(DU*) e), "merged durations are valid");
	static_cast<D&>(*d) = D(a.count() + e->count());
	d->num = a.num + e->num;
	d->max_duration = D((int64_t) vc_ite(a.max_duration.count() > e->max_duration.count(), a.max_duration.count(), e->max_duration.count()));
	d->min_duration = D((int64_t) vc_ite(vc_and(e->num > 0, vc_or(a.num == 0, a.min_duration.count() > e->min_duration.count())), e->min_duration.count(), a.min_duration.count()));
	return d;
}
extern "C" DU* stub_less(DU* d, const DU* e)
{
	DU a(*d);
	static_cast<D&>(*d) = D(a.count() - e->count());
	d->num = a.num - e->num;
	d->min_duration = D((int64_t) vc_u64("min")); d->max_duration = D((int64_t) vc_u64("max"));
	return d;
}
#endif
static void add_sub(bool add, bool assign)
{
#ifdef ST_ASIO_FULL_STATISTIC
	vc_replace_name("9statistic8durationpLERKS1_$", (void*) &stub_merge); vc_replace_name("9statistic8durationmIERKS1_$", (void*) &stub_less);
#endif
	statistic a, b;
	any_stat(a); any_stat(b); any_durs(a); any_durs(b);
	uint64_t fa[8], fb[8];
	for (unsigned k = 0; k < 8; ++k) {fa[k] = f(a, k); fb[k] = f(b, k);}
#ifdef ST_ASIO_FULL_STATISTIC
	unsigned w = vc_fork(7); // each of the durations
	if (!add) vc_assume(du(b, w).count() <= du(a, w).count() && du(b, w).num <= du(a, w).num);
	snap sa(du(a, w)), sb(du(b, w));
#endif
	const statistic& ca = a;
	statistic r;
	if (assign) {statistic& q = add ? a += b : a -= b; vc_assert(&q == &a, "returns itself"); r = a;}
	else r = add ? ca + b : ca - b;
	for (unsigned k = 0; k < 4; ++k) vc_assert(f(r, k) == (add ? fa[k] + fb[k] : fa[k] - fb[k]), "each counter");
	for (unsigned k = 4; k < 8; ++k) vc_assert(f(r, k) == fa[k], "times are kept");
	for (unsigned k = 0; k < 8; ++k) {vc_assert(f(b, k) == fb[k], "the other is not changed"); if (!assign) vc_assert(f(a, k) == fa[k], "neither operand is changed");}
#ifdef ST_ASIO_FULL_STATISTIC
	if (add) merged(snap(du(r, w)), sa, sb);
	else vc_assert(snap(du(r, w)).sum == sa.sum - sb.sum && snap(du(r, w)).num == sa.num - sb.num, "durations subtract");
	vc_assert(snap(du(b, w)).same(sb) && (assign || snap(du(a, w)).same(sa)), "operands keep their durations");
#endif
}
extern "C" void vc_contract_p09_add() {add_sub(true, false); vc_cover("end");}
extern "C" void vc_contract_p09_add_assign() {add_sub(true, true); vc_cover("end");}
extern "C" void vc_contract_p09_sub() {add_sub(false, false); vc_cover("end");}
extern "C" void vc_contract_p09_sub_assign() {add_sub(false, true); vc_cover("end");}
