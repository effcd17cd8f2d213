// Contracts: reading from a TCP link (socket.h, tcp/socket.h): P13 (flow control) and what P12 needs of it
#include "recv_common.h"

static void is_read()
{
	vcn::op* o = vcn::find_op(vcn::READ);
	vc_assert(o != NULL && o->obj == &s->next_layer_ && o->strand == s->io_strand(), "the read's completion runs in the IO strand");
	vc_assert(o->size > 0 && o->data == vcn_buf_base && 1 == s->up().prepared, "it reads into the decoder's memory");
	vc_assert(o->cond && !o->cond->empty(), "the decoder decides when it ends");
#ifdef ST_ASIO_PASSIVE_RECV
	vc_assert(1 == s->reading.v, "the reading flag is set");
#endif
}
// nothing pending before: start a read
extern "C" void vc_contract_p13_read()
{
	recv_begin();
	bool up = is_connected();
#ifdef ST_ASIO_PASSIVE_RECV
	s->reading.v = vc_split(vc_bool("reading")) ? 1 : 0;
	bool busy = 1 == s->reading.v;
#ifdef NDEBUG
	if (vc_split(vc_bool("memory-for-reading")))
#endif
	{
		s->do_recv_msg();
		if (busy || !vc_split(up)) {vc_assert(0 == reads() && s->reading.v == (busy ? 1 : 0), "no second read, no read on a link that is not up");}
		else is_read();
		vc_cover("read");
	}
#ifdef NDEBUG // (otherwise the library asserts that the decoder offers memory)
	else
	{
		s->up().has_room = false;
		s->do_recv_msg();
		vc_assert(0 == reads() && s->reading.v == (busy ? 1 : 0), "the decoder offers no memory: nothing is read, the user can try again");
		vc_cover("no-memory");
	}
#endif
#else
	s->do_recv_msg();
	is_read();
#endif
	vc_assert(same_stat() && 0 == n_recv_error + n_unpack_error + n_offered, "nothing else happens");
	vc_cover("end");
}
#ifdef ST_ASIO_PASSIVE_RECV
extern "C" void vc_contract_p13_recv_msg() // the user asks for messages
{
	recv_begin();
	vcn::cur = vc_split(vc_bool("in-io-strand")) ? s->io_strand() : NULL;
	s->reading.v = vc_split(vc_bool("reading")) ? 1 : 0;
	bool busy = 1 == s->reading.v, up = is_connected();
	s->recv_msg();
	run_io();
	vc_assert(reads() == (!busy && vc_split(up) ? 1u : 0u), "asking starts a read, unless one is outstanding or the link is not up");
	if (reads()) is_read();
	vc_cover("end");
}
#endif
static boost::system::error_code ec; static uint64_t bytes; static vcn::op* rd;
static void reading_now()
{
	recv_begin();
	s->status = TB::CONNECTED;
	s->do_recv_msg();
	rd = vcn::find_op(vcn::READ);
	s->status = any_status();
	bool err = vc_split(vc_bool("read-error"));
	ec = err ? vcn::some_error() : boost::system::error_code();
	bytes = vc_u64("bytes-read"); vc_assume(bytes < MSGLIM);
	vc_assume(err || bytes > 0); // Asio and completion_condition: only an error ends a read without data
	kbytes = vc_u64("size-of-messages"); vc_assume(kbytes < MSGLIM * 1024);
	s->up().prepared = 0;
	zero_calls(); snap_stat();
}
#ifdef ST_ASIO_SYNC_DISPATCH
static uint64_t on_msg_n, on_msg_re; static bool on_msg_called;
static size_t the_user(TS& t, LMSG& l) // takes some of them (a positive result), or leaves them
{
	l.close_all();
	vc_assert(l.n == src->n && vc_imp(ix < l.n, same_elem(l, ix, *src, ix)) && !on_msg_called, "every decoded message is offered at once, in order");
	vc_assert(vcn::cur == t.io_strand() && 0 == reads(), "receiving waits for the user");
	on_msg_called = true;
	on_msg_re = vc_u64("handled");
	if (vc_split(on_msg_re > 0)) {l.any("left"); *src = l;}
	return on_msg_re;
}
#endif
static void parsed(LMSG& l) // what the decoder delivered
{
	l.close_all();
	src = new LMSG(l); k0 = l.n;
	vc_assume(vc_imp(k0 == 0, kbytes == 0));
}
static bool room_after; static void watch_room(const void*, int) {}
static void at_recv(TS& t, int k)
{
	if (CB_UNPACK_ERROR == k) vc_assert(1 == t.up().parsed && 0 == t.up().resets, "reported before the decoder is reset (the user can look at it)");
	if (CB_RECV_ERROR == k) vc_assert(0 == reads(), "nothing is read after an error");
}
extern "C" void vc_contract_p13_read_done()
{
	reading_now();
	bool disp0 = s->dispatching; uint64_t now0 = vcn_now;
	vunpacker::on_parsed = &parsed;
	at_callback = &at_recv;
#ifdef ST_ASIO_SYNC_DISPATCH
	on_msg_called = false; user_on_msg = &the_user;
#endif
	vcn::complete(*rd, ec, bytes);
	at_callback = NULL;
	TS::out_queue_type& q = s->recv_buffer;
	q.close_all(); s->temp_msg_can.close_all();
	bool data = vc_split(bytes > 0);
	// decoding
	vc_assert(s->up().parsed == (data ? 1u : 0u) && (!data || s->up().got == bytes), "what was received is decoded, once");
	bool bad = data && !s->up().ok;
	vc_assert(n_unpack_error == (bad && !ec ? 1u : 0u) && s->up().resets == (bad ? 1u : 0u), "a decoding error is reported once and the decoder starts over");
	vc_assert(n_recv_error == (ec ? 1u : 0u) && (!ec || recv_ec == ec), "a read error is reported once");
	vc_assert(0 == n_send_error + n_close + n_offered, "nothing else is reported");
	// the messages
	uint64_t put = 0;
	if (data)
	{
		vc_assert(s->stat.recv_msg_sum == st_recv_msg + k0 && s->stat.recv_byte_sum == st_recv_byte + kbytes && (uint64_t) s->stat.last_recv_time >= now0, "the statistics grow by exactly what was received");
		uint64_t k = src->n;
#ifdef ST_ASIO_SYNC_DISPATCH
#ifdef ST_ASIO_PASSIVE_RECV
		vc_assert(on_msg_called, "the user is always called");
#else
		vc_assert(on_msg_called == vc_split(k0 > 0), "the user is called with decoded messages");
#endif
		bool filler = false;
#elif defined(ST_ASIO_PASSIVE_RECV)
		bool filler = vc_split(k0 == 0); // an empty message gives the user the chance to ask again
#else
		bool filler = false;
#endif
		if (filler)
		{
			put = 1;
			vc_assert(q.n == n0 + 1 && q.feat(0, n0) == 0, "nothing was decoded: the user gets an empty message");
		}
		else
		{
			put = k;
			vc_assert(q.n == n0 + k, "every decoded message (that was not handled yet) is queued, once");
			vc_assert(vc_imp(ix < k, vc_and(q.feat(0, n0 + ix) == src->feat(0, ix), q.feat(1, n0 + ix) == src->feat(1, ix))), "... at the end, in order");
		}
		vc_assert(vc_imp(ix < n0, same_elem((const OCAN&) q, ix, *before, ix)), "the messages already there are untouched");
		vc_assert(s->temp_msg_can.n == 0, "no message is left for the next read");
#ifdef ST_ASIO_SYNC_DISPATCH
		if (on_msg_called && vc_split(on_msg_re > 0)) ; else
#endif
		if (!filler) vc_assert(vc_or(vc_imp(k > 0, q.in_given == kbytes), q.in_given == 0), "their size is known to the queue");
		vc_assert(vc_imp(vc_and(put > 0, !disp0), tasks_in(s->d_strand()) > 0), "dispatching is started unless it is going on");
		vc_assert(tasks_in(s->d_strand()) <= 1, "... once");
	}
	else vc_assert(q.n == n0 && same_stat() && tasks_in(s->d_strand()) == 0, "nothing received, nothing changes");
	vc_assert(disp0 == s->dispatching, "the state of dispatching is left to the dispatcher");
	// reading goes on
#ifdef ST_ASIO_PASSIVE_RECV
	vc_assert(0 == chain() && 0 == s->reading.v, "the user decides when to read again");
#else
	if (ec) vc_assert(0 == reads() && 0 == tasks_in(s->io_strand()), "an error ends reading");
	else
	{
		vc_assert(1 == chain(), "reading goes on: a read, or the timer that starts one");
		bool room = q.total < s->recv_buf_size_;
		if (reads()) {is_read(); vc_assert(room && !s->recv_idle_began, "a read is only started while there is room");}
		else
		{
			vcn::wait_op* w = wait_of(T_RECV);
			vc_assert(!room && s->recv_idle_began, "suspended only while there is no room");
			vc_assert(w != NULL && w->ms == (int64_t) s->msg_resuming_interval_, "room is looked for after the resuming interval");
			vc_cover("suspended");
		}
	}
#endif
	vc_cover("end");
}
#ifndef ST_ASIO_PASSIVE_RECV
// suspended: the timer looks for room
extern "C" void vc_contract_p13_resume()
{
	recv_begin();
	s->recv_idle_began = false;
	vc_assume(total0 >= s->recv_buf_size_);
	vc_assert(!s->handled_msg(), "no room: reading is suspended");
	vcn::wait_op* w = wait_of(T_RECV);
	vc_assert(w != NULL && s->recv_idle_began && 1 == chain(), "... and the timer set");
	s->recv_buffer.any_q("received");
	s->recv_buf_size_ = vc_u64("recv_buf_size"); vc_assume(s->recv_buf_size_ > 0);
	s->up().prepared = 0;
	vcn::fire(*w, boost::system::error_code());
	bool room = vc_split(s->recv_buffer.total < s->recv_buf_size_);
	vc_assert(1 == chain(), "the chain is kept");
	if (room)
	{
		run_io();
		is_read();
		vc_assert(!s->recv_idle_began && !wait_of(T_RECV) && !s->is_timer(T_RECV), "reading resumes");
		vc_cover("resumed");
	}
	else
	{
		w = wait_of(T_RECV);
		vc_assert(w != NULL && s->recv_idle_began && w->ms == (int64_t) s->msg_resuming_interval_, "the timer goes on");
		vc_cover("waiting");
	}
	vc_cover("end");
}
#endif
