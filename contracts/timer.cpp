// Contracts: timers (timer.h): P18
#include "net.h"
#include "executor.h"
#include "tracked_executor.h"
#include "timer.h"
using namespace st_asio_wrapper;

typedef timer<tracked_executor> TI;
class TM : public TI
{
public:
	TM(boost::asio::io_context& c) : TI(c) {}
	timer_info* of(tid id) {return find_timer(id);}
};
static boost::asio::io_context* ctx; static TM* m;
static TI::tid A, B;
static unsigned nA, nB, nC; static bool answer; static int act; static uint32_t again_ms; static TI::tid seen_id;
static bool cbB(TI::tid id) {++nB; vc_assert(id == B, "a callback gets its own id"); return true;}
static bool cbC(TI::tid id) {++nC; vc_assert(id == A, "a callback gets its own id"); return answer;}
static vcn::wait_op* live(TI::tid id) {TI::timer_info* t = m->of(id); return t ? vcn::armed(&t->timer) : NULL;}
static unsigned n_live(TI::tid id) {TI::timer_info* t = m->of(id); unsigned r = 0; if (t) for (unsigned i = 0; i < vcn::nwait; ++i) if (vcn::waits[i].pending && !vcn::waits[i].aborted && vcn::waits[i].timer == &t->timer) ++r; return r;}
enum {NOTHING, STOP, STOP_ALL, RESTART, REPLACE, CHANGE_INTERVAL, CHANGE_CB, START_OTHER, NACT};
static bool cbA(TI::tid id) // the user's callback: anything
{
	++nA; seen_id = id;
	vc_assert(0 == vc_locks_held, "called without a lock");
	vc_assert(m->is_timer(A), "a timer is running while it is called back");
	if (STOP == act) m->stop_timer(A); else if (STOP_ALL == act) m->stop_all_timer(); else if (RESTART == act) m->start_timer(A);
	else if (REPLACE == act) m->set_timer(A, again_ms, &cbC); else if (CHANGE_INTERVAL == act) m->change_timer_interval(A, again_ms);
	else if (CHANGE_CB == act) m->change_timer_call_back(A, &cbC); else if (START_OTHER == act) m->start_timer(B);
	return answer;
}
static uint32_t msA, msB; static int stB; // 0: no timer B, 1: created, 2: running, 3: stopped
static uint64_t snapB_seq, snapB_ms; static unsigned snapB_live;
#ifdef ST_ASIO_ALIGNED_TIMER
static int64_t clock_v; static uint64_t used_ms; static bool first_now;
static boost::chrono::system_clock::time_point stub_sys_now() {int64_t v = (int64_t) vc_u64("clock"); vc_assume(v >= clock_v && v < ((int64_t) 1 << 58) && (uint64_t) (v - clock_v) < (uint64_t) 4000000000u * 1000000u); clock_v = v; return boost::chrono::system_clock::time_point(boost::chrono::system_clock::duration(v));}
#endif
static void timer_begin()
{
	net_begin();
#ifdef ST_ASIO_ALIGNED_TIMER
	clock_v = 0;
	vc_replace_name("chrono12system_clock3nowEv", (void*) &stub_sys_now);
#endif
	ctx = new boost::asio::io_context();
	m = new TM(*ctx);
	A = vc_u16("A"); B = vc_u16("B"); vc_assume(A != B);
	msA = vc_u32("interval"); msB = vc_u32("other-interval"); again_ms = vc_u32("new-interval");
	nA = nB = nC = 0; answer = false; act = NOTHING;
	boost::asio::vcn_timer::vcn_cancel_may_throw = false;
}
static void other(int st)
{
	stB = st;
	if (st) m->create_or_update_timer(B, msB, &cbB, false);
	if (st > 1) m->start_timer(B);
	if (st > 2) m->stop_timer(B);
}
static void keep_b() {TI::timer_info* t = m->of(B); vc_assert((t != NULL) == (stB != 0), "other timer: exists as before"); if (t) {snapB_seq = t->seq; snapB_ms = t->interval_ms;} snapB_live = n_live(B);}
static void same_b()
{
	TI::timer_info* t = m->of(B);
	vc_assert((t != NULL) == (stB != 0), "another timer is not created or lost");
	if (!t) return;
	vc_assert(t->interval_ms == snapB_ms && t->seq == snapB_seq && n_live(B) == snapB_live && m->is_timer(B) == (2 == stB) && 0 == nB, "another timer is not touched");
}
static void runs(uint32_t ms)
{
	vcn::wait_op* w = live(A);
	vc_assert(m->is_timer(A) && 1 == n_live(A) && w != NULL && w->ms == (int64_t) ms, "running: exactly one expiry ahead, after the interval");
}
static void does_not_run() {vc_assert(!m->is_timer(A) && 0 == n_live(A), "not running: no expiry ahead");}
// setting, whatever was there before
extern "C" void vc_contract_p18_set()
{
	timer_begin();
	other((int) vc_fork(4)); 
	int before = (int) vc_fork(4);
	uint32_t old_ms = vc_u32("old-interval");
	if (before) m->create_or_update_timer(A, old_ms, &cbC, before > 1);
	if (before > 2) m->stop_timer(A);
	keep_b();
	vc_assert(0 == vc_locks_held && m->is_timer(A) == (2 == before) && 0 == n_live(A) + (2 == before ? 0 : 0) - (2 == before ? 1 : 0), "status");
	bool start = vc_split(vc_bool("start"));
	boost::function<bool (TI::tid)> f(&cbA);
	bool r = vc_split(vc_bool("swap")) ? m->create_or_update_timer(A, msA, f, start) : m->create_or_update_timer(A, msA, (const boost::function<bool (TI::tid)>&) f, start);
	vc_assert(r && 0 == vc_locks_held, "set");
	TI::timer_info* t = m->of(A);
	vc_assert(t != NULL && t->interval_ms == msA && t->id == A, "the timer has the new interval");
	if (start) runs(msA);
	else if (2 == before) runs(old_ms); // the expiry ahead stays, the new interval counts from the next one
	else does_not_run();
	same_b();
	vc_assert(0 == nA + nC, "no callback before the expiry");
	if (!start && 2 != before) {vc_assert(m->start_timer(A), "started by id"); runs(msA);}
	uint32_t ms = start || 2 != before ? msA : old_ms; (void) ms;
	vcn::fire(*live(A), boost::system::error_code());
	vc_assert(1 == nA && 0 == nC && seen_id == A, "the expiry calls the new callback, once, with its id");
	same_b();
	vc_cover("end");
}
// an expiry
extern "C" void vc_contract_p18_expire()
{
	timer_begin();
	other(2);
	m->set_timer(A, msA, &cbA);
	m->of(A)->seq = vc_u8("seq"); // any number of restarts before
	m->set_timer(A, msA, &cbA);
	for (unsigned i = 0; i < vcn::nwait; ++i) if (vcn::waits[i].aborted) vcn::waits[i].pending = false;
	keep_b();
	vcn::wait_op* w = live(A);
	answer = vc_split(vc_bool("again"));
	act = (int) vc_fork(NACT);
#ifdef ST_ASIO_ALIGNED_TIMER
	int64_t c0 = clock_v;
#endif
	vcn::fire(*w, boost::system::error_code());
	vc_assert(1 == nA && seen_id == A && 0 == nC && 0 == nB, "an expiry calls the callback exactly once, with its id");
	uint32_t ms = CHANGE_INTERVAL == act || REPLACE == act ? again_ms : msA;
	bool stopped_by_cb = STOP == act || STOP_ALL == act, restarted = RESTART == act || REPLACE == act;
	vc_assert(m->of(A)->interval_ms == ms, "the interval is what was last asked for");
	if (stopped_by_cb) {does_not_run(); vc_cover("stopped");}
	else if (answer)
	{
#ifdef ST_ASIO_ALIGNED_TIMER
		vcn::wait_op* n = live(A);
		vc_assert(m->is_timer(A) && 1 == n_live(A) && n != NULL && n->ms >= 0 && n->ms <= (int64_t) ms, "running: exactly one expiry ahead, at the latest after the interval");
		(void) c0;
#else
		runs(ms);
#endif
		vc_cover("again");
	}
	else if (restarted) {runs(ms); vc_cover("restarted");}
	else {does_not_run(); vc_cover("done");}
	if (STOP_ALL == act) vc_assert(!m->is_timer(B) && 0 == n_live(B), "all means all");
	else if (START_OTHER == act) vc_assert(m->is_timer(B) && 1 == n_live(B), "the other one runs");
	else same_b();
	// what is left over of earlier expiries does nothing
	unsigned a = nA, c = nC; unsigned la = n_live(A); bool ra = m->is_timer(A);
	for (unsigned i = 0; i < vcn::nwait; ++i) if (vcn::waits[i].pending && vcn::waits[i].aborted) vcn::fire(vcn::waits[i], vc_split(vc_bool("too-late-to-cancel")) ? boost::system::error_code() : vcn::some_error());
	vc_assert(nA == a && nC == c && n_live(A) == la && m->is_timer(A) == ra && 0 == nB, "a cancelled expiry does nothing, even when it was too late to cancel it");
	vc_cover("end");
}
// stopping
extern "C" void vc_contract_p18_stop()
{
	timer_begin();
	other((int) vc_fork(4));
	int before = (int) vc_fork(3);
	if (before) m->create_or_update_timer(A, msA, &cbA, before > 1);
	keep_b();
	vcn::wait_op* w = before > 1 ? live(A) : NULL;
	boost::asio::vcn_timer::vcn_cancel_may_throw = true;
	int how = (int) vc_fork(4);
	if (0 == how) m->stop_timer(A); else if (1 == how) m->stop_all_timer(); else if (2 == how) m->stop_all_timer(B); else m->stop_all_timer(A);
	boost::asio::vcn_timer::vcn_cancel_may_throw = false;
	vc_assert(0 == vc_locks_held && (m->of(A) != NULL) == (before != 0), "stopping neither creates nor removes a timer");
	if (3 == how)
	{
		vc_assert(m->is_timer(A) == (before > 1) && n_live(A) == (before > 1 ? 1u : 0u), "the excepted timer goes on");
		vc_assert(!m->is_timer(B), "the others stop");
	}
	else
	{
		vc_assert(!m->is_timer(A), "stopped");
		if (1 == how) vc_assert(!m->is_timer(B), "all of them"); else same_b();
	}
	if (3 != how && w)
	{
		// the expiry comes back (aborted, or it was too late to cancel it)
		bool again = vc_split(vc_bool("started-again"));
		if (again) m->start_timer(A);
		vcn::fire(*w, vc_split(vc_bool("too-late-to-cancel")) ? boost::system::error_code() : vcn::some_error());
		vc_assert(0 == nA + nB + nC, "after stopping, a pending expiry calls nothing");
		if (again) {runs(msA); vc_cover("again");} else {vc_assert(!m->is_timer(A), "still stopped"); vc_cover("stopped");}
		m->stop_timer(A);
		vc_assert(!m->is_timer(A), "stopping a stopped timer");
	}
	vc_cover("end");
}
// restarting a running timer
extern "C" void vc_contract_p18_restart()
{
	timer_begin();
	other(2);
	m->set_timer(A, msA, &cbA);
	keep_b();
	vcn::wait_op* old = live(A);
	bool set = vc_split(vc_bool("with-new-interval"));
	if (set) m->set_timer(A, again_ms, &cbA); else m->start_timer(A);
	runs(set ? again_ms : msA);
	vc_assert(live(A) != old, "a new expiry");
	vcn::fire(*old, vc_split(vc_bool("too-late-to-cancel")) ? boost::system::error_code() : vcn::some_error());
	vc_assert(0 == nA, "the earlier expiry does nothing");
	runs(set ? again_ms : msA);
	answer = vc_split(vc_bool("again"));
	vcn::fire(*live(A), boost::system::error_code());
	vc_assert(1 == nA, "the new one calls back once");
	if (!answer) does_not_run(); else vc_assert(m->is_timer(A) && 1 == n_live(A), "running");
	same_b();
	vc_cover("end");
}
// the queries and changes by id
extern "C" void vc_contract_p18_by_id()
{
	timer_begin();
	other((int) vc_fork(4));
	bool there = vc_split(vc_bool("exists"));
	if (there) m->set_timer(A, msA, &cbA);
	keep_b();
	unsigned live0 = n_live(A);
	int k = (int) vc_fork(6);
	bool r = true;
	if (0 == k) r = m->change_timer_interval(A, again_ms);
	else if (1 == k) r = m->change_timer_call_back(A, &cbC);
	else if (2 == k) r = m->change_timer_status(A, TI::timer_info::TIMER_CANCELED);
	else if (3 == k) r = m->start_timer(A);
	else if (4 == k) r = NULL != m->find_timer(A);
	else r = m->is_timer(A);
	vc_assert(r == there && 0 == vc_locks_held, "the result says whether there is such a timer");
	vc_assert((m->of(A) != NULL) == there, "none is created");
	same_b();
	if (there)
	{
		TI::timer_info* t = m->of(A);
		vc_assert(t->interval_ms == (0 == k ? again_ms : msA) && m->is_timer(A) == (2 != k) && n_live(A) == live0, "exactly what was asked for is changed");
		vcn::fire(*live(A), boost::system::error_code());
		vc_assert(nA == (1 == k || 2 == k ? 0u : 1u) && nC == (1 == k ? 1u : 0u), "... the callback in effect is called");
	}
	// a timer without callback does not start
	boost::function<bool (TI::tid)> none;
	m->create_or_update_timer(A, msA, none, false);
	m->stop_timer(A);
	vc_assert(!m->start_timer(A), "a timer without callback does not start");
	vc_assert(!m->is_timer(A), "...");
	vc_cover("end");
}
// the end of the object
extern "C" void vc_contract_p18_destroy()
{
	timer_begin();
	other(2);
	m->set_timer(A, msA, &cbA);
	delete m;
	for (unsigned i = 0; i < vcn::nwait; ++i) vc_assert(!vcn::waits[i].pending || vcn::waits[i].aborted, "no expiry is ahead when the object is gone");
	vc_assert(0 == nA + nB, "nothing is called");
	vc_cover("end");
}
