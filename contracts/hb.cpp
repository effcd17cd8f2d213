// Contracts: heartbeats (socket.h, tcp/socket.h): P16
#include "tcp_common.h"

static const TS::tid T_HB = TS::TIMER_HEARTBEAT_CHECK;
static vcn::wait_op* wait_of(TS::tid id) {TS::timer_info* t = s->find_timer(id); return t && TS::timer_info::TIMER_STARTED == t->status ? vcn::armed(&t->timer) : NULL;}
static unsigned n_do_send; static bool send_called(TS& t, bool in_strand) {++n_do_send; return false;}
static bool is_sending; static uint64_t n0, ix; static ICAN* before;
static void hb_begin()
{
	tcp_begin();
	send_contract = &send_called; send_modular = true; n_do_send = 0;
	ix = vc_u64("i"); vc_assume(ix < ((uint64_t) 1 << 48));
	is_sending = vc_split(vc_bool("sending")); s->sending.v = is_sending ? 1 : 0;
	s->send_buffer.close_all(); n0 = s->send_buffer.n; before = new ICAN(); copy_list(*before, s->send_buffer);
	s->started_ = true; vcn::cur = NULL;
	vc_assume((uint64_t) s->stat.last_send_time <= ((uint64_t) 1 << 40) && (uint64_t) s->stat.last_recv_time <= ((uint64_t) 1 << 40));
}
static bool beat() // a heartbeat was handed over for sending
{
	TS::in_queue_type& q = s->send_buffer; q.close_all();
	vc_assert(vc_imp(ix < n0, same_elem((const ICAN&) q, ix, *before, ix)), "other messages keep their places");
	if (vc_split(q.n == n0)) return false;
	vc_assert(q.n == n0 + 1 && vc_and(q.feat(0, n0) == s->pk().one.len, q.feat(1, n0) == s->pk().one.tok) && s->pk().one.len > 0 && 1 == s->pk().beats, "what is sent is the packer's heartbeat");
	return true;
}
static uint32_t interval, absence; static bool ready, first; static int64_t last_r, last_s;
static bool dead(int64_t now) {return vc_split(now - last_r >= (int64_t) interval * (int64_t) absence);}
// the decisions, after any history
static void judge(bool re, bool call)
{
	ready = vc_split(is_connected());
	int64_t now = (int64_t) vcn_now;
	bool valid = vc_split(last_r > 0) && ready;
	bool d = valid && dead(now);
	vc_assert(n_hb_error == (d ? 1u : 0u), "a link without traffic for interval * absence is reported, once; any other is not");
	bool gave_up = d && !re;
	vc_assert(re || d, "only a reported link is given up");
	bool asked = s->pk().beats > 0;
#ifdef ST_ASIO_ALWAYS_SEND_HEARTBEAT
	bool want = valid && !gave_up;
#else
	bool want = valid && !gave_up && vc_split(now - last_s >= (int64_t) interval) && !is_sending;
#endif
	vc_assert(asked == want && s->pk().beats <= 1, "a heartbeat on a ready link that sent nothing for the interval and is not sending; none otherwise");
	bool b = beat();
	vc_assert(b == (want && vc_split(s->pk().one.len > 0)), "... it enters the send buffer (a packer without heartbeats makes none)");
	vc_assert(same_stat() && 0 == n_offered + n_close + n_recv_error + n_send_error && 0 == vcn::nop, "nothing else happens");
	if (d && re) vc_cover("tolerated");
}
extern "C" void vc_contract_p16_check()
{
	hb_begin();
	interval = vc_u32("interval"); absence = vc_u32("max-absence");
	vc_assume(interval > 0 && absence > 0 && (uint64_t) interval * absence < ((uint64_t) 1 << 31));
	last_r = s->stat.last_recv_time; last_s = s->stat.last_send_time;
	bool re = s->check_heartbeat((int) interval, (int) absence);
	judge(re, true);
	vc_cover("end");
}
// the timer
extern "C" void vc_contract_p16_timer()
{
	hb_begin();
	interval = vc_u32("interval"); absence = vc_u32("max-absence");
	vc_assume(interval > 0 && absence > 0 && interval <= 4294967 && (uint64_t) interval * absence < ((uint64_t) 1 << 31));
	bool deflt = vc_split(vc_bool("default-absence"));
	if (deflt) {absence = ST_ASIO_HEARTBEAT_MAX_ABSENCE; vc_assume((uint64_t) interval * absence < ((uint64_t) 1 << 31)); s->start_heartbeat((int) interval);}
	else s->start_heartbeat((int) interval, (int) absence);
	vcn::wait_op* w = wait_of(T_HB);
	vc_assert(w != NULL && (uint64_t) w->ms == (uint64_t) interval * 1000, "the link is checked once per interval");
	vc_assert(0 == n_hb_error && 0 == s->pk().beats, "not at once");
	s->start_heartbeat(1, 1);
	vc_assert(wait_of(T_HB) == w, "heartbeats are started once");
	last_r = s->stat.last_recv_time; last_s = s->stat.last_send_time;
	vcn::fire(*w, boost::system::error_code());
	w = wait_of(T_HB);
	judge(w != NULL, false);
	if (w) {vc_assert((uint64_t) w->ms == (uint64_t) interval * 1000, "... and again after the interval"); vc_cover("again");}
	else {vc_assert(!s->is_timer(T_HB), "a link given up is not checked any more"); vc_cover("given-up");}
	vc_cover("end");
}
// heartbeats of their own accord
extern "C" void vc_contract_p16_auto()
{
	hb_begin();
	s->started_ = false;
	s->start();
	vcn::wait_op* w = wait_of(T_HB);
#if ST_ASIO_HEARTBEAT_INTERVAL > 0
	vc_assert(w != NULL && w->ms == (int64_t) ST_ASIO_HEARTBEAT_INTERVAL * 1000, "a link that starts is checked");
	// traffic just now: never reported
	last_r = s->stat.last_recv_time; last_s = s->stat.last_send_time;
	vc_assert((uint64_t) last_r >= st_last_recv || true, "");
	interval = ST_ASIO_HEARTBEAT_INTERVAL; absence = ST_ASIO_HEARTBEAT_MAX_ABSENCE;
	vcn::fire(*w, boost::system::error_code());
	w = wait_of(T_HB);
	judge(w != NULL, false);
#else
	vc_assert(w == NULL && !s->is_timer(T_HB), "no heartbeat unless asked for");
#endif
	vc_cover("end");
}
