// The receiving side of a TCP link: common to the contracts of P12 and P13
#ifndef RECV_COMMON_H
#define RECV_COMMON_H
#include "tcp_common.h"

static uint64_t ix, n0, total0; static OCAN* before; static LMSG* src; static uint64_t k0, kbytes;
static uint64_t stub_size(LMSG* l) {l->close_all(); return kbytes;} // contract of get_size_in_byte (P07)
static void copy_out(OCAN& d, const OCAN& s) {s.close_all(); d.close_all(); for (unsigned k = 0; k < OCAN::F::N; ++k) vc_acopy(d.a[k], 0, s.a[k], 0, s.n); d.n = s.n;}
static bool filling(void*, uint64_t i, uint64_t j) // while decoded messages move to the queue's container
{
	if (!src) return true;
	OCAN* t = (OCAN*) OCAN::last; LMSG& from = s->temp_msg_can;
	bool r = vc_and(vc_and(i == j, i <= from.n), vc_and(t->n == from.n, from.n == src->n));
	r = vc_and(r, vc_imp(ix < i, vc_and(t->feat(0, ix) == src->feat(0, ix), t->feat(1, ix) == src->feat(1, ix))));
	return vc_and(r, vc_imp(vc_and(ix >= i, ix < src->n), same_elem(from, ix, *src, ix)));
}
static void recv_begin()
{
	tcp_begin();
	ix = vc_u64("i"); vc_assume(ix < ((uint64_t) 1 << 48));
	s->recv_idle_began = vc_bool("suspended");
	s->dispatching = vc_bool("dispatching");
#ifndef ST_ASIO_DISPATCH_BATCH_MSG
	s->dispatching_msg.len = vc_u64("len"); s->dispatching_msg.tok = vc_u64("tok"); vc_assume(s->dispatching_msg.len < MSGLIM && s->dispatching_msg.tok < MSGLIM);
#endif
	s->recv_buffer.close_all();
	before = new OCAN(); copy_out(*before, s->recv_buffer);
	n0 = s->recv_buffer.n; total0 = s->recv_buffer.total;
	s->started_ = true;
	vc_replace_name("16get_size_in_byteI3MSG|16get_size_in_byteIN.*listI3MSG", (void*) &stub_size);
	src = NULL;
	vc_invariant2(&filling, NULL);
	vcn::cur = s->io_strand();
}
// ---- the receiving chain: a read, a task that starts one, or the timer that will
static const TS::tid T_RECV = TS::TIMER_CHECK_RECV, T_DISP = TS::TIMER_DISPATCH_MSG;
static vcn::wait_op* wait_of(TS::tid id) {TS::timer_info* t = s->find_timer(id); return t && TS::timer_info::TIMER_STARTED == t->status ? vcn::armed(&t->timer) : NULL;}
static unsigned reads() {return vcn::count_ops(vcn::READ);}
static unsigned tasks_in(const void* strand) {unsigned r = 0; for (unsigned i = 0; i < vcn::ntask; ++i) if (vcn::tasks[i].pending && vcn::tasks[i].strand == strand) ++r; return r;}
static unsigned chain() {return reads() + tasks_in(s->io_strand()) + (wait_of(T_RECV) ? 1 : 0);}
static void run_io() {for (unsigned i = 0; i < vcn::ntask; ++i) if (vcn::tasks[i].pending && vcn::tasks[i].strand == s->io_strand()) vcn::run_task(i);}
#endif
