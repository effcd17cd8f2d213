// Contracts: the life of a TCP link (socket.h, tcp/socket.h, tracked_executor.h): P14
#include "tcp_common.h"

static const TS::tid T_RECV = TS::TIMER_CHECK_RECV, T_CLOSE = TS::TIMER_DELAY_CLOSE, T_SHUT = TS::TIMER_ASYNC_SHUTDOWN, T_USER = TS::TIMER_END + 3;
static vcn::wait_op* wait_of(TS::tid id) {TS::timer_info* t = s->find_timer(id); return t && TS::timer_info::TIMER_STARTED == t->status ? vcn::armed(&t->timer) : NULL;}
static unsigned reads() {return vcn::count_ops(vcn::READ);}
static unsigned live_waits() {unsigned r = 0; for (unsigned i = 0; i < vcn::nwait; ++i) if (vcn::waits[i].pending && !vcn::waits[i].aborted) ++r; return r;}
static unsigned pending() // asynchronous calls that have not been called back
{
	unsigned r = vcn::pending_tasks();
	for (unsigned i = 0; i < vcn::nop; ++i) if (vcn::ops[i].pending) ++r;
	for (unsigned i = 0; i < vcn::nwait; ++i) if (vcn::waits[i].pending) ++r;
	return r;
}
static int last_call(const void*) {return pending() > 0 ? 0 : 1;} // contract of is_last_async_call (in a callback)
static void run_io() {for (unsigned i = 0; i < vcn::ntask; ++i) if (vcn::tasks[i].pending && vcn::tasks[i].strand == s->io_strand()) vcn::run_task(i);}
static unsigned n_do_send; static bool send_called(TS& t, bool in_strand) {++n_do_send; return false;}
static bool user_cb(TS::tid) {return true;}
static uint64_t order, closed_at, after_at;
static void at_life(TS& t, int k)
{
	if (CB_CONNECT == k) vc_assert(TB::CONNECTED == t.status && 0 == reads() && 0 == n_do_send && 0 == vcn::pending_tasks(), "on_connect comes before anything is read or sent");
	if (CB_CLOSE == k)
	{
		closed_at = ++order;
		vc_assert(1 == t.up().resets && !t.started(), "before on_close: stopped, the decoder starts over");
		vc_assert(!t.stopped() ? !t.sock().open_ : true, "... and the socket is closed");
	}
	if (CB_AFTER_CLOSE == k)
	{
		after_at = ++order;
		vc_assert(t.is_broken() && !t.is_timer(T_CLOSE), "after on_close: the link is down and may be started again");
	}
}
static void life_begin()
{
	tcp_begin();
	send_contract = &send_called; send_modular = true; n_do_send = 0;
	vc_replace_name("16is_last_async_call", (void*) &last_call);
	at_callback = &at_life; order = closed_at = after_at = 0;
	s->obsoleted_ = false;
	vcn::cur = NULL;
}
static bool other_locked; static unsigned naps; static bool other_starts;
static void nap() {++naps; s->start_atomic.v = false; if (other_starts) s->started_ = true;} // the other thread finishes starting or closing
extern "C" void vc_contract_p14_start()
{
	life_begin();
	bool was = vc_split(vc_bool("started")); s->started_ = was;
	bool closing = vc_split(vc_bool("closing")); if (closing) s->set_timer(T_CLOSE, 50, &user_cb);
	bool stop = vc_split(vc_bool("service-stopped")); ctx->stop_flag = stop;
	bool busy = vc_split(vc_bool("being-started-by-another-thread")); s->start_atomic.v = busy;
	TB::link_status st0 = s->status; uint64_t now0 = vcn_now; uint64_t est0 = s->stat.establish_time;
	s->start();
	bool go = !was && !closing && !stop && !busy;
	vc_assert(n_connect == (go ? 1u : 0u), "on_connect is called once, by the start that succeeds");
	vc_assert((bool) s->started_ == (was || go) && s->start_atomic.v == busy, "a link starts only when it is stopped, not closing, and not being started");
	run_io();
	if (go)
	{
		vc_assert(is_connected() && (uint64_t) s->stat.establish_time >= now0 && (uint64_t) s->stat.last_recv_time >= now0, "the link is up from now on");
		vc_assert(n_do_send > 0, "messages that waited are sent");
#ifdef ST_ASIO_PASSIVE_RECV
#ifdef ST_ASIO_SYNC_RECV
		vc_assert(0 == reads(), "reading waits for the user");
#else
		vc_assert(1 == reads(), "reading starts");
#endif
#else
		vc_assert(1 == reads(), "reading starts");
#endif
		// again: nothing
		zero_calls(); n_do_send = 0;
		s->start();
		vc_assert(0 == n_connect && s->started_ && 0 == vcn::pending_tasks(), "starting a started link does nothing");
		vc_cover("go");
	}
	else vc_assert(s->status == st0 && 0 == reads() && 0 == n_do_send && s->stat.establish_time == (time_t) est0, "a refused start changes nothing");
	vc_assert(0 == n_close + n_after_close + n_send_error + n_recv_error, "no other notification");
	vc_cover("end");
}
// --- shutting down
static TB::link_status st0; static bool was, stop, open0, in_strand, held; static uint64_t now0;
static void shut_begin()
{
	life_begin();
	was = vc_split(vc_bool("started")); s->started_ = was;
	st0 = s->status;
	open0 = vc_split(vc_bool("socket-open")); s->sock().open_ = open0;
	stop = vc_split(vc_bool("service-stopped")); ctx->stop_flag = stop;
	s->set_timer(T_USER, 1000, &user_cb);
	in_strand = vc_split(vc_bool("in-io-strand")); vcn::cur = in_strand ? s->io_strand() : NULL;
	held = vc_split(vc_bool("another-thread-is-starting")); s->start_atomic.v = held; other_starts = held && vc_split(vc_bool("it-succeeds")); vcn_sleep = &nap; naps = 0;
	now0 = vcn_now; s->stat.break_time = 0;
}
static void is_closing(bool use_close)
{
	bool live = was || other_starts;
	vc_assert(!s->start_atomic.v && naps == (held ? 1u : 0u), "closing waits for a start in progress");
	vc_assert(!s->started_, "a closed link is not started");
	if (!live)
	{
		vc_assert(0 == n_close + n_after_close && !wait_of(T_CLOSE) && 0 == s->sock().closes + s->sock().shuts_both && wait_of(T_USER) != NULL, "nothing to close: nothing happens");
		return;
	}
	if (open0)
	{
		vc_assert(use_close ? s->sock().closes >= 1 : s->sock().shuts_both == 1, "the connection is cut");
		vc_assert((uint64_t) s->stat.break_time >= now0, "the break time is noted");
	}
	vc_assert(!s->is_timer(T_USER), "timers are stopped");
	if (stop)
	{
		vc_assert(1 == n_close && 1 == n_after_close && closed_at < after_at && s->obsoleted_ && s->is_broken(), "the service has stopped: closed at once");
		vc_assert(0 == live_waits(), "no timer on a stopped service");
		vc_cover("stopped");
	}
	else
	{
		vcn::wait_op* w = wait_of(T_CLOSE);
		vc_assert(0 == n_close + n_after_close && w != NULL && 1 == live_waits() && w->ms == (int64_t) ST_ASIO_DELAY_CLOSE * 1000 + 50 && !s->obsoleted_, "on_close waits for the delayed close");
		vc_cover("delayed");
	}
}
static void nothing_happens()
{
	vc_assert(s->status == st0 && 0 == n_close + n_after_close && !wait_of(T_CLOSE) && !wait_of(T_SHUT) && wait_of(T_USER) != NULL, "nothing happens");
	vc_assert(0 == s->sock().closes + s->sock().shuts_both + s->sock().shuts_send && s->start_atomic.v == held && (bool) s->started_ == was, "...");
}
extern "C" void vc_contract_p14_force()
{
	shut_begin();
	s->force_shutdown();
	run_io();
	if (vc_split(TB::FORCE_SHUTTING_DOWN == st0)) nothing_happens();
	else
	{
		bool broken = vc_split(TB::BROKEN == st0);
		is_closing(broken);
		bool live = was || other_starts;
		vc_assert(s->status == (live && stop ? TB::BROKEN : broken ? TB::BROKEN : TB::FORCE_SHUTTING_DOWN), "the link is being shut down by force");
		vc_assert(0 == s->sock().shuts_send, "by force");
		// again
		unsigned c = n_close, a = n_after_close, w = vcn::nwait, b = s->sock().closes + s->sock().shuts_both;
		s->force_shutdown();
		run_io();
		vc_assert(n_close == c && n_after_close == a && vcn::nwait == w && s->sock().closes + s->sock().shuts_both == b && !s->started_, "shutting down again does nothing");
		s->graceful_shutdown();
		run_io();
		vc_assert(n_close == c && n_after_close == a && vcn::nwait == w && s->sock().closes + s->sock().shuts_both == b && 0 == s->sock().shuts_send && !s->started_, "... gracefully neither");
		vc_cover("shut");
	}
	vc_cover("end");
}
extern "C" void vc_contract_p14_graceful()
{
	shut_begin();
	s->graceful_shutdown();
	run_io();
	bool broken = vc_split(TB::BROKEN == st0);
	if (broken) {is_closing(true); vc_assert(0 == s->sock().shuts_send, "...");}
	else if (vc_split(TB::FORCE_SHUTTING_DOWN == st0 || TB::GRACEFUL_SHUTTING_DOWN == st0)) nothing_happens();
	else
	{
		vc_assert(1 == s->sock().shuts_send, "sending is shut down");
		if (TB::GRACEFUL_SHUTTING_DOWN == s->status)
		{
			vcn::wait_op* w = wait_of(T_SHUT);
			vc_assert(w != NULL && w->ms == 10 && wait_of(T_USER) != NULL, "the peer's answer is waited for");
			vc_assert((bool) s->started_ == was && 0 == n_close + n_after_close && 0 == s->sock().closes + s->sock().shuts_both && s->start_atomic.v == held, "the link still receives");
			unsigned w0 = vcn::nwait;
			s->graceful_shutdown(); run_io();
			vc_assert(vcn::nwait == w0 && 1 == s->sock().shuts_send && TB::GRACEFUL_SHUTTING_DOWN == s->status, "again: nothing");
			// force overrides
			s->force_shutdown(); run_io();
			is_closing(false);
			vc_assert(!s->is_timer(T_SHUT) || !(was || other_starts), "... force overrides graceful");
			vc_cover("graceful");
		}
		else {vc_assert(s->status == ((was || other_starts) && stop ? TB::BROKEN : TB::FORCE_SHUTTING_DOWN), "the socket refuses: by force"); is_closing(false); vc_cover("refused");}
	}
	vc_cover("end");
}
// the peer does not answer: for n more looks
extern "C" void vc_contract_p14_graceful_wait()
{
	life_begin();
	s->started_ = true;
	uint64_t n = vc_u64("looks-left"); vc_assume(n >= 1);
	TB::link_status st = s->status;
	s->set_timer(T_SHUT, 10, boost::lambda::if_then_else_return(boost::lambda::bind(&TS::shutdown_handler, s, n), true, false));
	vcn::wait_op* w = wait_of(T_SHUT);
	vcn::fire(*w, boost::system::error_code());
	w = wait_of(T_SHUT);
	bool on = w != NULL;
	vc_assert(!on || w->ms == 10, "the timer goes on, or ends");
	vc_assert(s->status == st && 0 == n_close + n_after_close && s->started_, "waiting changes nothing");
	if (vc_split(TB::GRACEFUL_SHUTTING_DOWN != st)) vc_assert(!on && 0 == n_async_shutdown_error, "the link was closed meanwhile: no more looks");
	else if (vc_split(n == 1)) {vc_assert(!on && 1 == n_async_shutdown_error, "no answer: reported once"); vc_cover("reported");}
	else
	{
		vc_assert(on && 0 == n_async_shutdown_error, "looks again");
		// the next look has one less
		vcn::fire(*w, boost::system::error_code());
		on = wait_of(T_SHUT) != NULL;
		vc_assert(n_async_shutdown_error == (vc_split(n == 2) ? 1u : 0u) && on == (n > 2), "... counting down");
		vc_cover("again");
	}
	vc_cover("end");
}
// the delayed close
extern "C" void vc_contract_p14_delayed_close()
{
	life_begin();
	s->started_ = true;
	s->sock().open_ = vc_split(vc_bool("socket-open"));
	bool shut = vc_split(vc_bool("reading-when-closed"));
	if (shut) {vcn::cur = s->io_strand(); s->status = TB::CONNECTED; s->do_recv_msg(); vcn::cur = NULL;} // a read is pending, it will be aborted
	s->status = any_status(); vc_assume(TB::FORCE_SHUTTING_DOWN != s->status);
	s->force_shutdown(); run_io();
	vcn::wait_op* w = wait_of(T_CLOSE);
	vc_assert(w != NULL && 0 == n_close, "closing");
	bool user = vc_split(vc_bool("user-starts-a-timer"));
	if (user) s->set_timer(T_USER, 1000, &user_cb); // by someone who does not know yet
	vc_assert(pending() > 0 && !s->obsoleted(), "an object with pending calls is not obsolete");
	vcn::fire(*w, boost::system::error_code());
#if ST_ASIO_DELAY_CLOSE > 0
	if (false) // the delay is long enough for everything that is pending to come back
#else
	if (shut || user)
#endif
	{
		w = wait_of(T_CLOSE);
		vc_assert(0 == n_close + n_after_close && !s->obsoleted_, "on_close waits for every pending call");
		vc_assert(w != NULL && w->ms == (int64_t) ST_ASIO_DELAY_CLOSE * 1000 + 50 && 1 == live_waits(), "... looks again later, other timers are stopped");
		s->start();
		vc_assert(!s->started_ && 0 == n_connect, "no start while closing");
		// they come back, aborted
		if (shut) {vcn::op* o = vcn::find_op(vcn::READ); vcn::complete(*o, vcn::some_error(), 0); vc_assert(1 == n_recv_error && 0 == reads(), "the pending read ends");}
		for (unsigned i = 0; i < vcn::nwait; ++i) if (vcn::waits[i].pending && vcn::waits[i].aborted) vcn::fire(vcn::waits[i], vcn::some_error());
		run_io();
		vc_assert(!s->is_timer(T_USER) && 1 == pending(), "nothing else is going on");
		vc_assert(0 == n_close + n_after_close, "still waiting");
		vcn::fire(*w, boost::system::error_code());
#if 0 == ST_ASIO_DELAY_CLOSE
		vc_cover("waited");
#endif
	}
	vc_assert(1 == n_close && 1 == n_after_close && closed_at < after_at, "on_close exactly once, then after_close");
	vc_assert(s->is_broken() && !s->started_ && s->obsoleted_ && !s->is_timer(T_CLOSE) && !s->sock().open_, "closed");
#if ST_ASIO_DELAY_CLOSE > 0
	for (unsigned i = 0; i < vcn::nop; ++i) if (vcn::ops[i].pending) vcn::complete(vcn::ops[i], vcn::some_error(), 0);
	for (unsigned i = 0; i < vcn::nwait; ++i) if (vcn::waits[i].pending) vcn::fire(vcn::waits[i], vcn::some_error());
	run_io();
#endif
	vc_assert(0 == pending(), "nothing is going on");
	vc_assert(s->obsoleted(), "the object can be recycled");
	s->force_shutdown(); run_io();
	s->graceful_shutdown(); run_io();
	vc_assert(1 == n_close && 1 == n_after_close && 0 == pending(), "a closed link is closed once");
	// and can be started again
	s->start(); run_io();
	vc_assert(s->started_ && is_connected() && 1 == n_connect, "a closed link can be started again");
	vc_cover("end");
}
// reset: as fresh
extern "C" void vc_contract_p14_reset()
{
	life_begin();
	at_callback = NULL;
	s->started_ = false;
	s->sending.v = vc_u64("sending"); s->dispatching = vc_bool("dispatching"); s->recv_idle_began = vc_bool("idle"); s->obsoleted_ = vc_bool("obsoleted");
#ifdef ST_ASIO_PASSIVE_RECV
	s->reading.v = vc_u64("reading");
#endif
#ifdef ST_ASIO_SYNC_RECV
	{uint32_t v = vc_u32("sr_status"); vc_assume(v < 4); s->sr_status = (TS::sync_recv_status) v;}
#endif
#ifndef ST_ASIO_DISPATCH_BATCH_MSG
	s->dispatching_msg.len = vc_u64("len"); vc_assume(s->dispatching_msg.len < MSGLIM);
#endif
	s->sending_msgs.any("in-flight");
	uint32_t refs = vc_u32("context-refs"); vc_assume(refs < 1000); s->io_context_refs = refs; attached = detached = 0;
	s->set_timer(T_USER, 1000, &user_cb);
	s->set_timer(T_RECV, 10, &user_cb);
	s->stat.establish_time = vc_u64("establish"); s->stat.break_time = vc_u64("break");
	uint64_t id = s->_id; unsigned limit = s->msg_resuming_interval_; size_t sb = s->send_buf_size_, rb = s->recv_buf_size_;
	bool closing = vc_split(vc_bool("closing"));
#ifdef NDEBUG
	if (closing)
	{
		s->set_timer(T_CLOSE, 50, &user_cb);
		bool thrown = false;
		TB::link_status st = s->status;
		try {s->socket<boost::asio::ip::tcp::socket, vpacker, vunpacker, MSG, MSG, vqueue, list, vqueue, list>::reset();} catch (const std::runtime_error&) {thrown = true;}
		vc_assert(thrown, "a link that is closing cannot be reset");
		vc_assert(wait_of(T_CLOSE) != NULL && 0 == s->pk().resets, "... and goes on closing");
		vc_cover("refused");
		return;
	}
#endif
	s->reset();
	vc_assert(s->is_broken() && !s->started_ && !s->obsoleted_ && !s->dispatching && !s->recv_idle_began && 0 == s->sending.v, "state as in a fresh object");
#ifdef ST_ASIO_PASSIVE_RECV
	vc_assert(0 == s->reading.v, "state as in a fresh object");
#endif
#ifdef ST_ASIO_SYNC_RECV
	vc_assert(TS::NOT_REQUESTED == s->sr_status, "state as in a fresh object");
#endif
#ifndef ST_ASIO_DISPATCH_BATCH_MSG
	vc_assert(0 == s->dispatching_msg.len, "no message is left");
#endif
	s->send_buffer.close_all(); s->recv_buffer.close_all(); s->sending_msgs.close_all();
	vc_assert(0 == s->send_buffer.n + s->recv_buffer.n + s->sending_msgs.n && 0 == s->send_buffer.total + s->recv_buffer.total, "no message is left");
	vc_assert(1 == s->pk().resets && 1 == s->up().resets, "encoder and decoder start over");
	vc_assert(0 == s->stat.send_msg_sum + s->stat.send_byte_sum + s->stat.recv_msg_sum + s->stat.recv_byte_sum && 0 == s->stat.last_send_time + s->stat.last_recv_time + s->stat.establish_time + s->stat.break_time, "statistics start over");
	vc_assert(0 == live_waits() && !s->is_timer(T_USER) && !s->is_timer(T_RECV), "no timer runs");
	vc_assert(s->io_context_refs == (vc_split(refs == 0) ? 1u : refs) && attached == (refs == 0 ? 1u : 0u) && 0 == detached, "the object counts at least once on its context");
	vc_assert(s->_id == id && s->msg_resuming_interval_ == limit && s->send_buf_size_ == sb && s->recv_buf_size_ == rb, "its identity and settings stay");
	vc_assert(0 == n_close + n_after_close + n_connect + n_offered + n_send_error + n_recv_error, "no notification");
	vc_cover("end");
}
#if ST_ASIO_DELAY_CLOSE == 0
// tracked_executor: every asynchronous call is counted until it has been called back
struct EX : public tracked_executor {EX(boost::asio::io_context& c) : tracked_executor(c) {} using tracked_executor::aci;};
static unsigned ran; static void task_fn() {++ran;} static void h1_fn(const boost::system::error_code&) {++ran;} static void h2_fn(const boost::system::error_code&, size_t) {++ran;}
extern "C" void vc_contract_p14_tracking()
{
	net_begin();
	ctx = new boost::asio::io_context();
	EX* e = new EX(*ctx); ran = 0;
	boost::asio::io_context::strand* st = new boost::asio::io_context::strand(*ctx);
	vc_assert(!e->is_async_calling() && 1 == e->get_aci_ref(), "nothing is pending at first");
	int k = (int) vc_fork(8);
	vcn::cur = NULL;
	vcn::h1_t* h1 = NULL; vcn::h2_t* h2 = NULL;
	if (0 == k) e->post(&task_fn); else if (1 == k) e->defer(&task_fn); else if (2 == k) e->dispatch(&task_fn);
	else if (3 == k) e->post_strand(*st, &task_fn); else if (4 == k) e->defer_strand(*st, &task_fn); else if (5 == k) e->dispatch_strand(*st, &task_fn);
	else if (6 == k) h1 = new vcn::h1_t(e->make_handler_error(&h1_fn)); else h2 = new vcn::h2_t(e->make_handler_error_size(&h2_fn));
	vc_assert(0 == ran && e->is_async_calling(), "a pending call is counted");
	if (k < 6) {vc_assert(1 == vcn::pending_tasks() && vcn::tasks[0].strand == (k < 3 ? NULL : st->impl) && vcn::tasks[0].kind == (vcn::task_kind) (k % 3), "handed to the executor as asked"); vcn::run_task(0);}
	else if (h1) {(*h1)(boost::system::error_code()); delete h1;}
	else {(*h2)(boost::system::error_code(), 1); delete h2;}
	vc_assert(1 == ran && !e->is_async_calling(), "... until it has been called back, once");
	vc_cover("end");
}
static boost::shared_ptr<char>* held_refs;
extern "C" void vc_contract_p14_last_call() // the decision itself: the callback in progress holds *aci references
{
	net_begin();
	ctx = new boost::asio::io_context();
	EX* e = new EX(*ctx);
	unsigned k = (unsigned) vc_fork(4);
	boost::shared_ptr<char> a, b, c;
	if (k > 0) a = e->aci; if (k > 1) b = e->aci; if (k > 2) c = e->aci;
	uint8_t m = vc_u8("references-of-the-callback"); vc_assume(m >= 1 && m < 128); *e->aci = (char) m;
	int r = e->is_last_async_call();
	vc_assert(r == (vc_split(k + 1 > m) ? 0 : vc_split(k + 1 < m) ? -1 : 1), "the last call exactly when nobody else holds a reference");
	vc_cover("end");
}
#endif
