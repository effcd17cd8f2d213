// Contracts: handing received messages to the user (socket.h): P12
#include "recv_common.h"

static bool disp0; static uint64_t held_len, held_tok;
static vcn::wait_op* redo() {return wait_of(T_DISP);}
static uint64_t d_tasks() {return tasks_in(s->d_strand());}
static void run_disp() {for (unsigned i = 0; i < vcn::ntask; ++i) if (vcn::tasks[i].pending && vcn::tasks[i].strand == s->d_strand()) {vcn::run_task(i); return;}}
static void forget_tasks() {for (unsigned i = 0; i < vcn::ntask; ++i) vcn::tasks[i].pending = false;}
static void disp_begin()
{
	recv_begin();
	vcn::cur = NULL;
	disp0 = s->dispatching;
	// a task for the dispatcher, as messages that arrive make it
	s->dispatching = false;
	s->dispatch_msg();
	vc_assert(1 == d_tasks() && 0 == n_offered, "new messages ask for dispatching (in the dispatch strand), not at once");
	s->dispatching = disp0;
}
static void others_receive() {uint64_t k = vc_u64("received-meanwhile"); vc_assume(k < ((uint64_t) 1 << 40)); s->recv_buffer.more(k);}
extern "C" void vc_contract_p12_dispatch_msg()
{
	recv_begin();
	vcn::cur = vc_split(vc_bool("in-dis-strand")) ? s->d_strand() : s->io_strand();
	bool d = vc_split(s->dispatching);
	s->dispatch_msg();
	vc_assert(0 == n_offered && d_tasks() == (d ? 0u : 1u), "asking: one task in the dispatch strand unless a message is being dispatched; never at once");
	vc_assert(0 == vcn::nop && same_stat() && (bool) s->dispatching == d, "nothing else");
	vc_cover("end");
}
#ifndef ST_ASIO_DISPATCH_BATCH_MSG
static uint64_t exp_len, exp_tok; static bool answer;
static bool user_gets(TS& t, MSG& m)
{
	vc_assert(vcn::cur == t.d_strand(), "the user is called in the dispatch strand");
	vc_assert(t.dispatching, "... while dispatching (no one starts another)");
	vc_assert(vc_and(m.len == exp_len, m.tok == exp_tok), "the user gets the message declined before, or the oldest one");
	others_receive();
	answer = vc_split(vc_bool("accepted"));
	if (!answer) {m.len = exp_len = vc_u64("user-changed"); m.tok = exp_tok = vc_u64("user-changed-content"); vc_assume(m.len < MSGLIM && m.tok < MSGLIM);} // a user may handle a part of it
	return answer;
}
static void expect_next(TS::out_queue_type& q) {q.close_all(); exp_len = q.feat(0, 0); exp_tok = q.feat(1, 0);}
extern "C" void vc_contract_p12_offer()
{
	disp_begin();
	held_len = s->dispatching_msg.len; held_tok = s->dispatching_msg.tok;
	TS::out_queue_type& q = s->recv_buffer;
	bool d = vc_split(disp0), any = d || vc_split(n0 > 0);
	if (d) {exp_len = held_len; exp_tok = held_tok;} else if (any) expect_next(q);
	user_msg = &user_gets;
	run_disp();
	q.close_all();
	vc_assert(n_offered == (any ? 1u : 0u), "one message is offered, if there is one");
	uint64_t off = !d && any ? 1 : 0;
	vc_assert(q.n + off >= n0 && vc_imp(vc_and(ix >= off, ix < n0), same_elem((const OCAN&) q, ix - off, *before, ix)), "exactly the offered message has left the queue");
	vc_assert(same_stat() && 0 == reads() && vcn::pending_tasks() == d_tasks(), "nothing else happens");
	if (!any)
	{
		vc_assert(!s->dispatching && 0 == d_tasks() && !redo(), "nothing to dispatch: idle");
		vc_cover("idle");
	}
	else if (answer)
	{
		vc_assert(!s->dispatching && 1 == d_tasks(), "accepted: the dispatcher comes back for the next one, in the dispatch strand");
		vc_assert(s->dispatching_msg.len == 0, "an accepted message is gone");
		zero_calls();
		bool more = vc_split(q.n > 0);
		if (more) expect_next(q);
		uint64_t k = q.n;
		run_disp();
		vc_assert(n_offered == (more ? 1u : 0u), "... the next message is offered, an accepted one never again");
		vc_cover("accepted");
	}
	else
	{
		vcn::wait_op* w = redo();
		vc_assert(s->dispatching && 0 == d_tasks() && w != NULL && w->ms == (int64_t) s->msg_handling_interval_, "declined: it is offered again after the handling interval");
		vc_assert(vc_and(s->dispatching_msg.len == exp_len, s->dispatching_msg.tok == exp_tok), "a declined message is kept");
		zero_calls();
		others_receive();
		s->dispatch_msg();
		vc_assert(0 == d_tasks(), "newer messages wait");
		uint64_t left = (q.close_all(), q.n);
		vcn::fire(*w, boost::system::error_code());
		vc_assert(1 == d_tasks() && !redo() && s->dispatching, "the timer asks the dispatcher, once");
		run_disp();
		vc_assert(1 == n_offered && (q.close_all(), q.n) >= left, "... which offers the declined message before any newer one");
		vc_cover("declined");
	}
	vc_cover("end");
}
#else
static uint64_t handled; static OCAN* seen_q;
static size_t user_takes(TS& t, TB::out_queue_type& q)
{
	vc_assert(vcn::cur == t.d_strand(), "the user is called in the dispatch strand");
	vc_assert(t.dispatching, "... while dispatching (no one starts another)");
	vc_assert(&q == &t.recv_buffer, "the user gets the queue");
	q.close_all();
	vc_assert(q.n > 0, "... which is not empty");
	vc_assert(vc_imp(ix < q.n, same_elem((const OCAN&) q, ix, *seen_q, ix)) && q.n == seen_q->n, "... with everything that arrived, in order");
	handled = vc_u64("handled");
	if (vc_split(handled > 0)) q.any_q("left");
	others_receive();
	q.close_all(); copy_out(*seen_q, q);
	return handled;
}
extern "C" void vc_contract_p12_offer()
{
	disp_begin();
	TS::out_queue_type& q = s->recv_buffer;
	seen_q = new OCAN(); copy_out(*seen_q, q);
	user_batch = &user_takes;
	bool any = vc_split(n0 > 0);
	run_disp();
	q.close_all();
	vc_assert(n_offered == (any ? 1u : 0u), "the messages are offered, if there are any");
	vc_assert(q.n == seen_q->n && vc_imp(ix < q.n, same_elem((const OCAN&) q, ix, *seen_q, ix)), "only the user takes messages");
	vc_assert(same_stat() && 0 == reads() && vcn::pending_tasks() == d_tasks(), "nothing else happens");
	if (!any)
	{
		vc_assert(!s->dispatching && 0 == d_tasks() && !redo(), "nothing to dispatch: idle");
		vc_cover("idle");
	}
	else if (handled > 0)
	{
		vc_assert(!s->dispatching && 1 == d_tasks(), "handled: the dispatcher comes back for what is left or new, in the dispatch strand");
		zero_calls();
		bool more = vc_split(q.n > 0);
		run_disp();
		vc_assert(n_offered == (more ? 1u : 0u), "... which is offered");
		vc_cover("handled");
	}
	else
	{
		vcn::wait_op* w = redo();
		vc_assert(s->dispatching && 0 == d_tasks() && w != NULL && w->ms == (int64_t) s->msg_handling_interval_, "not handled: offered again after the handling interval");
		zero_calls();
		s->dispatch_msg();
		vc_assert(0 == d_tasks(), "newer messages wait");
		vcn::fire(*w, boost::system::error_code());
		vc_assert(1 == d_tasks() && !redo(), "the timer asks the dispatcher, once");
		bool more = vc_split((q.close_all(), q.n) > 0);
		run_disp();
		vc_assert(n_offered == (more ? 1u : 0u), "... which offers them again");
		vc_cover("declined");
	}
	vc_cover("end");
}
#endif
#ifdef ST_ASIO_SYNC_RECV
// ---- synchronous receiving: the caller (sync_recv_msg) and the receiving link (handle_msg, handle_error) hand over through sr_status
static bool waited, notified_before_wait; static unsigned notes; static int st_at_note;
static LMSG* handed; static int how; // what the other side does while this one waits
static void caller_env(const void* cv, int what)
{
	if (2 != what) {++notes; st_at_note = s->sr_status; return;}
	vc_assert(TS::REQUESTED == s->sr_status && !waited && 0 == vc_locks_held, "the caller waits for the link, without the lock");
	waited = true;
	// the link: responds (with messages, which may be none), fails, is closed, or does nothing in time
	how = (int) vc_fork(4);
	if (0 == how) {s->sr_status = TS::RESPONDED; s->temp_msg_can.close_all(); s->temp_msg_can.any("decoded"); handed = new LMSG(s->temp_msg_can);}
	else if (1 == how) s->sr_status = TS::RESPONDED_FAILURE;
	else if (2 == how) s->started_ = false;
}
extern "C" void vc_contract_p12_sync_recv()
{
	recv_begin();
	vcn::cur = NULL;
	bool stop = vc_split(vc_bool("stopped"));
	ctx->stop_flag = stop;
	uint32_t v = vc_u32("sr_status"); vc_assume(v < 4); s->sr_status = (TS::sync_recv_status) v;
	bool busy = vc_split(TS::NOT_REQUESTED != v);
	s->started_ = vc_split(vc_bool("started"));
	bool was_started = s->started_;
	LMSG got; got.any("had");
	LMSG had(got);
	uint32_t duration = vc_u32("duration");
	waited = false; notes = 0; handed = NULL; how = -1; vcn_cv = &caller_env;
	s->temp_msg_can.any("not for the caller");
	LMSG temp0(s->temp_msg_can);
	sync_call_result re = s->sync_recv_msg(got, duration);
	vcn_cv = NULL;
	got.close_all(); had.close_all();
	vc_assert(0 == vc_locks_held, "the lock is released");
	vc_assert(vc_imp(ix < had.n, same_elem(got, ix, had, ix)), "what the caller had is kept");
	if (stop) vc_assert(NOT_APPLICABLE == re && !waited && s->sr_status == (int) v, "nothing is received after the service stopped");
	else if (busy) {vc_assert(DUPLICATE == re && !waited && s->sr_status == (int) v && 0 == notes, "one caller at a time"); vc_cover("busy");}
	else
	{
		vc_assert(TS::NOT_REQUESTED == s->sr_status && 1 == notes && TS::NOT_REQUESTED == st_at_note, "the link is told that the caller has finished");
		if (waited && 0 == how)
		{
			vc_assert(SUCCESS == re, "messages: success");
			vc_assert(got.n == had.n + handed->n && vc_imp(ix < handed->n, same_elem(got, had.n + ix, *handed, ix)), "the caller gets what was decoded, in order, after what it had");
			s->temp_msg_can.close_all();
			vc_assert(0 == s->temp_msg_can.n, "... and no one else");
			vc_cover("got");
		}
		else
		{
			vc_assert(SUCCESS != re && got.n == had.n, "no messages, no success");
			vc_assert((TIMEOUT == re) == (waited && 3 == how), "a timeout is reported as such");
			vc_assert(!waited || 3 != how || duration > 0, "... and only with a limit");
			s->temp_msg_can.close_all(); temp0.close_all();
			vc_assert(s->temp_msg_can.n == temp0.n, "messages stay with the link");
		}
	}
	if (stop || busy) vc_assert(got.n == had.n, "nothing delivered");
#ifdef ST_ASIO_PASSIVE_RECV
	vc_assert((0 == reads() + tasks_in(s->io_strand())) || (!stop && !busy), "only a caller that waits asks for reading");
#endif
	vc_cover("end");
}
// the link: hands decoded messages to a waiting caller, or reports the error to it
static void link_env(const void* cv, int what)
{
	if (2 != what) {++notes; st_at_note = s->sr_status; return;}
	vc_assert(!waited && 0 == vc_locks_held && notes == 1, "the link waits for the caller it woke, without the lock");
	waited = true;
	// the caller takes them (sync_recv_msg's contract), or the link is closed first
	how = (int) vc_fork(3);
	if (how < 2 && TS::RESPONDED == s->sr_status) {handed = new LMSG(s->temp_msg_can); s->temp_msg_can.clear();}
	if (how < 2) s->sr_status = TS::NOT_REQUESTED;
	if (1 == how) {s->sr_status = TS::REQUESTED; } // and calls again
	if (2 == how) s->started_ = false;
}
extern "C" void vc_contract_p12_sync_handle()
{
	recv_begin();
	uint32_t v = vc_u32("sr_status"); vc_assume(v < 2); s->sr_status = (TS::sync_recv_status) v; // (between reads)
	bool wanted = vc_split(TS::REQUESTED == v);
	kbytes = vc_u64("size-of-messages"); vc_assume(kbytes < MSGLIM * 1024);
	s->temp_msg_can.any("decoded");
	src = new LMSG(s->temp_msg_can); k0 = src->n;
	vc_assume(vc_imp(k0 == 0, kbytes == 0));
	waited = false; notes = 0; handed = NULL; how = -1; vcn_cv = &link_env;
	bool re = s->handle_msg();
	vcn_cv = NULL;
	vc_assert(0 == vc_locks_held, "the lock is released");
	TS::out_queue_type& q = s->recv_buffer; q.close_all(); s->temp_msg_can.close_all();
	vc_assert(s->stat.recv_msg_sum == st_recv_msg + k0 && s->stat.recv_byte_sum == st_recv_byte + kbytes, "the statistics grow by exactly what was received");
	if (wanted)
	{
		vc_assert(waited && 1 == notes && TS::RESPONDED == st_at_note, "a waiting caller is told");
		vc_assert(q.n == n0 && 0 == tasks_in(s->d_strand()) && 0 == n_offered, "... and nobody else gets the messages");
		if (how < 2)
		{
			vc_assert(handed->n == k0 && vc_imp(ix < k0, same_elem(*handed, ix, *src, ix)) && 0 == s->temp_msg_can.n, "... all of them, once");
			vc_assert(s->sr_status == (1 == how ? TS::REQUESTED : TS::NOT_REQUESTED), "the caller's state is the caller's");
			vc_cover("handed");
		}
		else vc_assert(!re && s->temp_msg_can.n == k0, "closed: reading ends");
	}
	else
	{
		vc_assert(!waited && 0 == notes && (int) v == s->sr_status, "nobody waits: the ordinary way");
#if defined(ST_ASIO_PASSIVE_RECV)
		vc_assert(q.n == n0 + k0 + (vc_split(k0 == 0) ? 1 : 0), "... queued");
#else
		vc_assert(q.n == n0 + k0, "... queued");
#endif
		vc_assert(0 == s->temp_msg_can.n, "...");
		vc_cover("queued");
	}
#ifndef ST_ASIO_PASSIVE_RECV
	vc_assert(vc_or(re, vc_or((wait_of(T_RECV) != NULL), 2 == how)), "reading goes on, or the timer is set");
#endif
	vc_cover("end");
}
extern "C" void vc_contract_p12_sync_error()
{
	recv_begin();
	uint32_t v = vc_u32("sr_status"); vc_assume(v < 2); s->sr_status = (TS::sync_recv_status) v;
	bool wanted = vc_split(TS::REQUESTED == v);
	s->temp_msg_can.any("decoded");
	LMSG t0(s->temp_msg_can);
	waited = false; notes = 0; handed = NULL; how = -1; vcn_cv = &link_env;
	s->handle_error();
	vcn_cv = NULL;
	s->temp_msg_can.close_all();
	vc_assert(0 == vc_locks_held && waited == wanted && notes == (wanted ? 1u : 0u), "a waiting caller is told");
	if (wanted) vc_assert(TS::RESPONDED_FAILURE == st_at_note, "... about the failure");
	vc_assert(0 == n_offered && s->temp_msg_can.n == t0.n, "no message is delivered");
	vc_cover("end");
}
#endif
