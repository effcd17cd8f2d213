// Contracts: the sending side of a TCP link (socket.h, tcp/socket.h), with other threads enqueueing at every step
#include "tcp_common.h"

// ---- interference: other threads accept messages (enqueue, then look at the flag).  Those between the two steps are `checkers`; one that
// finds the flag clear posts a task (`pend`).
static uint64_t checkers; static bool pend, interfering;
static void others()
{
	if (!interfering) return;
	interfering = false;
	uint64_t e = vc_u64("accepted-meanwhile"), c = vc_u64("between-enqueue-and-check");
	vc_assume(e < ((uint64_t) 1 << 40) && checkers < ((uint64_t) 1 << 50) && c <= checkers + e);
	s->send_buffer.more(e);
	pend = vc_or(pend, vc_and(c < checkers + e, s->sending.v == 0));
	checkers = c;
	interfering = true;
}
static void env_q(void* q) {if (q == &s->send_buffer) others();}
static void env_a(const void* a, int) {if (a == &s->sending) others();}
static void interfere() {checkers = vc_u64("between-enqueue-and-check"); vc_assume(checkers < ((uint64_t) 1 << 40)); pend = vc_bool("task-posted"); vq_env = &env_q; vcn_env = &env_a; interfering = true;}
static void calm() {interfering = false; vq_env = NULL; vcn_env = NULL;}
static bool someone() {return vc_or(vc_or(pend, checkers > 0), s->sending.v == 1);}
// nothing accepted is forgotten: while something is pending, a write is in flight or somebody is about to start one
static bool progress() {return vc_imp(s->send_buffer.n > 0, someone());}

static uint64_t ix; // an arbitrary index
static unsigned nested; static bool nested_writes;
static bool nested_send(TS& t, bool in_strand)
{
	interfering = false;
	vc_assert(0 == nested++, "model: one nested call");
	vc_assert(!in_strand && t.sending.v == 0 && t.sending_msgs.empty() && 0 == vcn::count_ops(vcn::WRITE), "do_send_msg: called again only when nothing is being sent");
	t.send_buffer.any_q("pending");
	checkers = vc_u64("between-enqueue-and-check"); pend = vc_bool("task-posted");
	nested_writes = vc_split(vc_bool("nested-call-writes"));
	if (nested_writes) {t.sending.v = 1; t.sending_msgs.any("sending"); vc_assume(t.sending_msgs.n > 0);}
	else vc_assume(progress());
	interfering = true;
	return nested_writes;
}
static void written(const char*)
{
	vcn::op* o = vcn::find_op(vcn::WRITE);
	TS::in_queue_type& q = s->send_buffer;
	vc_assert(o != NULL && o->obj == &s->next_layer_ && o->bufs != NULL, "exactly one write is in flight");
	vc_assert(o->strand == s->io_strand(), "its completion runs in the IO strand");
	s->sending_msgs.close_all(); o->bufs->close_all();
	vc_assert(s->sending_msgs.n > 0 && s->sending_msgs.n == q.moved && o->bufs->n == q.moved, "it carries every message taken from the queue");
	vc_assert(vc_imp(ix < q.moved, vc_and(o->bufs->feat(0, ix) == vc_aget(q.mv[1], ix), o->bufs->feat(1, ix) == vc_aget(q.mv[0], ix))), "... whole, in order");
	vc_assert(vc_imp(ix < q.moved, vc_and(s->sending_msgs.feat(1, ix) == vc_aget(q.mv[1], ix), s->sending_msgs.feat(0, ix) == vc_aget(q.mv[0], ix))), "... and they are kept until it completes");
	vc_assert(s->sending_buffer.n == q.moved, "their number is kept too");
}
static bool inv_send(void*, uint64_t i) // while the buffers are collected: one per message so far, the same bytes
{
	TS::in_queue_type& q = s->send_buffer;
	return vc_and(vc_and(i <= q.moved, s->sending_buffer.n == i), vc_and(s->sending_msgs.n == q.moved,
		vc_and(vc_imp(ix < q.moved, vc_and(s->sending_msgs.feat(1, ix) == vc_aget(q.mv[1], ix), s->sending_msgs.feat(0, ix) == vc_aget(q.mv[0], ix))),
			vc_imp(ix < i, vc_and(s->sending_buffer.feat(0, ix) == vc_aget(q.mv[1], ix), s->sending_buffer.feat(1, ix) == vc_aget(q.mv[0], ix))))));
}
static void send_begin()
{
	tcp_begin();
	ix = vc_u64("i"); vc_assume(ix < ((uint64_t) 1 << 40));
	s->sending_buffer.any("left over");
	vc_invariant1(&inv_send, NULL);
	send_contract = &nested_send; nested = 0; nested_writes = false;
	vcn::cur = s->io_strand();
}
static void after_send(uint64_t taken0, uint64_t n0, bool idle_allowed)
{
	calm();
	if (nested)
	{
		vc_assert(s->sending.v == (nested_writes ? 1 : 0), "the state is what the nested call left");
		vc_assert(nested_writes || progress(), "nothing accepted is forgotten");
	}
	else if (vc_split(s->sending.v == 1)) written("");
	else
	{
		vc_assert(s->sending.v == 0, "the flag is set or clear");
		vc_assert(0 == vcn::count_ops(vcn::WRITE) && s->sending_msgs.empty(), "nothing is in flight while the flag is clear");
		vc_assert(s->send_buffer.taken == taken0, "nothing is taken from the queue and not written");
		vc_assert(progress(), "nothing accepted is forgotten");
	}
}
extern "C" void vc_contract_p10_start_write()
{
	send_begin();
	uint64_t n0 = s->send_buffer.n, t0 = s->send_buffer.taken;
	interfere();
	bool re = s->do_send_msg(false);
	after_send(t0, n0, true);
	vc_assert(re == (s->sending.v == 1), "whether something is being sent is reported");
	vc_assert(vc_imp(vc_and(n0 > 0, !nested), s->sending.v == 1), "pending messages are written");
	vc_assert(0 == n_msg_send + n_batch_send + n_all_send + n_send_error && same_stat(), "nothing is reported as sent yet");
	vc_cover("end");
}
// a write in flight, from any state
static uint64_t k0;
static void in_flight()
{
	send_begin();
	vc_assume(s->send_buffer.n > 0);
	s->do_send_msg(false);
	s->sending_msgs.close_all();
	k0 = s->sending_msgs.n;
}
extern "C" void vc_contract_p10_no_second_write()
{
	in_flight();
	uint64_t t0 = s->send_buffer.taken;
	interfere();
	vc_assert(s->do_send_msg(false), "already sending");
	calm();
	vc_assert(s->send_buffer.taken == t0 && s->sending.v == 1 && 1 == vcn::nop, "nothing is taken or written while a write is in flight");
	written("");
	vc_cover("end");
}
static uint64_t first_len, first_tok, last_len, last_tok; static bool emptied;
static void at_sent(TS& t, int k)
{
	bool i = interfering; interfering = false;
	vc_assert(1 == t.sending.v && 0 == vcn::count_ops(vcn::WRITE), "notifications come after the write and before the next one");
	if (CB_ALL_SEND == k) emptied = true;
	interfering = i;
}
static unsigned next;
static bool next_send(TS& t, bool in_strand) // after a write: everything was reported and released, the flag is still set
{
	bool i = interfering; interfering = false;
	++next;
	vc_assert(in_strand && 1 == t.sending.v, "the next write follows in the same turn, nobody else can start one");
	vc_assert(t.sending_msgs.empty() && 0 == vcn::count_ops(vcn::WRITE), "the messages written are released, nothing is in flight");
	vc_assert(vcn::cur == t.io_strand(), "in the IO strand");
	interfering = i;
	return true;
}
extern "C" void vc_contract_p10_next_write() // do_send_msg(true), from the state above
{
	send_begin();
	s->sending.v = 1;
	uint64_t n0 = s->send_buffer.n, t0 = s->send_buffer.taken;
	interfere();
	bool re = s->do_send_msg(true);
	after_send(t0, n0, true);
	vc_assert(re == (s->sending.v == 1), "whether something is being sent is reported");
	vc_assert(vc_imp(vc_and(n0 > 0, !nested), s->sending.v == 1), "the next write starts as long as messages are pending");
	vc_assert(0 == n_msg_send + n_batch_send + n_all_send + n_send_error && same_stat(), "nothing is reported as sent yet");
	vc_cover("end");
}
extern "C" void vc_contract_p10_write_done()
{
	in_flight();
	vcn::op* o = vcn::find_op(vcn::WRITE);
	first_len = s->sending_msgs.feat(0, 0); first_tok = s->sending_msgs.feat(1, 0);
	last_len = s->sending_msgs.feat(0, k0 - 1); last_tok = s->sending_msgs.feat(1, k0 - 1);
	ICAN before; copy_list(before, s->sending_msgs);
	zero_calls(); snap_stat(); emptied = false;
	uint64_t bytes = vc_u64("bytes-written"), now0 = vcn_now, t0 = s->send_buffer.taken, n0 = s->send_buffer.n;
	at_callback = &at_sent;
	send_contract = &next_send; send_modular = true; next = 0;
	interfere();
	vcn::complete(*o, boost::system::error_code(), bytes);
	calm();
	at_callback = NULL;
	vc_assert(1 == next, "the next write is attempted, once");
	vc_assert(s->stat.send_byte_sum == st_send_byte + bytes && s->stat.send_msg_sum == st_send_msg + k0, "the statistics grow by exactly what was written");
	vc_assert((uint64_t) s->stat.last_send_time >= now0, "the time of the last sending is kept");
	vc_assert(s->stat.recv_msg_sum == st_recv_msg && s->stat.recv_byte_sum == st_recv_byte && 0 == n_send_error, "nothing else changes");
#ifdef ST_ASIO_WANT_MSG_SEND_NOTIFY
	vc_assert(1 == k0, "one message a time");
	vc_assert(1 == n_msg_send && sent_one.len == first_len && sent_one.tok == first_tok, "the message written is reported as sent, once");
#elif defined(ST_ASIO_WANT_BATCH_MSG_SEND_NOTIFY)
	vc_assert(1 == n_batch_send && sent->n == k0, "the messages written are reported as sent, once");
	vc_assert(vc_imp(ix < k0, same_elem(*sent, ix, before, ix)), "... each of them");
#endif
#ifdef ST_ASIO_WANT_ALL_MSG_SEND_NOTIFY
	vc_assert(n_all_send <= 1 && vc_imp(n0 > 0, 0 == n_all_send), "all-sent is not reported while messages are pending");
#if defined(ST_ASIO_WANT_MSG_SEND_NOTIFY) || !defined(ST_ASIO_WANT_BATCH_MSG_SEND_NOTIFY)
	vc_assert(vc_imp(n_all_send > 0, vc_and(all_one.len == last_len, all_one.tok == last_tok)), "all-sent names the last message");
#endif
#endif
	vc_cover("end");
}
#ifdef ST_ASIO_WANT_ALL_MSG_SEND_NOTIFY
extern "C" void vc_contract_p10_all_sent()
{
	in_flight();
	vc_assume(s->send_buffer.n == 0);
	zero_calls();
	vcn::complete(*vcn::find_op(vcn::WRITE), boost::system::error_code(), vc_u64("bytes-written"));
	vc_assert(1 == n_all_send, "the queue became empty: reported once");
	vc_cover("end");
}
#endif
static void at_error(TS& t, int k)
{
	if (CB_SEND_ERROR == k) vc_assert(0 == vcn::count_ops(vcn::WRITE), "nothing is written meanwhile");
}
extern "C" void vc_contract_p10_write_failed()
{
	in_flight();
	vcn::op* o = vcn::find_op(vcn::WRITE);
	ICAN before; copy_list(before, s->sending_msgs);
	zero_calls(); snap_stat();
	uint64_t t0 = s->send_buffer.taken;
	boost::system::error_code ec = vcn::some_error();
	at_callback = &at_error;
	vcn::complete(*o, ec, vc_u64("bytes-written"));
	at_callback = NULL;
	vc_assert(1 == n_send_error && send_ec.value() == ec.value(), "the error is reported once");
	vc_assert(sent->n == k0 && vc_imp(ix < k0, same_elem(*sent, ix, before, ix)), "... with the messages that were not written");
	vc_assert(s->sending_msgs.empty() && 0 == s->sending.v && 0 == vcn::count_ops(vcn::WRITE), "nothing is in flight");
	vc_assert(s->send_buffer.taken == t0 && same_stat() && 0 == n_msg_send + n_batch_send + n_all_send, "nothing else is written, or reported as sent");
	vc_cover("end");
}
