// Contracts: the message queues (container.h), for any content, and the functions around them
#include "common.h"
#include "feat_msg.h"
#include "container.h"
using namespace st_asio_wrapper;
typedef list<QMSG> CAN;
#ifdef Q_NOLOCK
typedef non_lock_queue<CAN> Q;
static bool held(Q&) {return true;}
#else
typedef lock_queue<CAN> Q;
static bool held(Q& q) {return 1 == *(unsigned*) q.mutex.native_handle();}
#endif
extern unsigned vc_locks_held;
enum {MQ = 1, MC = 2};

// abstract state of a container: n elements; element i is (size, content, ...); SUM(mon, i) = sizes of the first i
static Q* q; static CAN* can;
static uint64_t n0[3], total0[3];
static const uint64_t MAXSUM = (uint64_t) 1 << 60;
static void def(uint64_t mon, uint64_t i, uint64_t size) // instances of the definition of SUM; all sums are below 2^60
{
	vc_assume(SUM(mon, i + 1) == SUM(mon, i) + size);
	vc_assume(SUM(mon, i + 1) <= total0[mon] && SUM(mon, i) <= total0[mon]);
}
static bool defining;
static void load(uint64_t mon, uint64_t i, const uint64_t* f) {if (defining && mon) def(mon, i, f[0]);}
static bool need_lock;
static void touch(uint64_t mon) {if (MQ == mon && need_lock) vc_assert(held(*q), "the content is only accessed while the lock is held");}
// one arbitrary element of each container, by its features
struct elem
{
	uint64_t f[vc_feat<QMSG>::N];
	elem() {}
	elem(const CAN& l, uint64_t i) {for (unsigned k = 0; k < vc_feat<QMSG>::N; ++k) f[k] = l.feat(k, i);}
	elem(QMSG& m) {vc_feat<QMSG>::save(m, f);}
	bool operator==(const elem& o) const {bool r = true; for (unsigned k = 0; k < vc_feat<QMSG>::N; ++k) r = vc_and(r, f[k] == o.f[k]); return r;}
};
static uint64_t iq, ic; static elem eq, ec; // arbitrary indices below n0 and the elements there
static CAN& qc() {return *(CAN*) (Q*) q;}
static void any_can(CAN& c, uint64_t mon, uint64_t& i, elem& e)
{
	c.any(MQ == mon ? "queued" : "container");
	c.mon = mon;
	n0[mon] = c.n;
	total0[mon] = SUM(mon, n0[mon]);
	vc_assume(SUM(mon, 0) == 0 && total0[mon] < MAXSUM);
	uint64_t last = c.feat(0, n0[mon] - 1);
	vc_assume(vc_imp(n0[mon] > 0, SUM(mon, n0[mon]) == SUM(mon, n0[mon] - 1) + last && SUM(mon, n0[mon] - 1) <= total0[mon])); // the definition at the end
	i = vc_u64(MQ == mon ? "i" : "j");
	vc_assume(i < ((uint64_t) 1 << 48)); // only meaningful below n0
	e = elem(c, i);
}
static void begin(bool two)
{
	q = new Q();
	vc_assert(0 == q->size_in_byte() && q->empty() && q->is_empty() && 0 == q->size(), "a new queue is empty");
#ifdef Q_NOLOCK
	vc_assert(!q->is_thread_safe(), "thread safety is reported");
#else
	vc_assert(q->is_thread_safe(), "thread safety is reported");
#endif
	can = new CAN();
	any_can(qc(), MQ, iq, eq);
	q->total_size = total0[MQ];
	if (two) any_can(*can, MC, ic, ec);
	defining = need_lock = true;
	vc_on_load = &load; vc_on_touch = &touch;
}
static void end() {defining = need_lock = false; vc_on_load = NULL; vc_on_touch = NULL; vc_assert(0 == vc_locks_held, "every lock is released");}
// the byte counter
static bool counts(uint64_t v) {return vc_and(q->total_size == v, q->size_in_byte() == v);}
static bool inv_sum_q(void*, uint64_t x, uint64_t y) {return vc_and(x == SUM(MQ, y), y <= n0[MQ]);}
static bool inv_sum_c(void*, uint64_t x, uint64_t y) {return vc_and(x == SUM(MC, y), y <= n0[MC]);}

static QMSG* any_msg(uint64_t& z, elem& e)
{
	QMSG* m = new QMSG();
	any_str(*m, "size");
#ifdef ST_ASIO_FULL_STATISTIC
	m->begin_time = statistic::stat_time(boost::chrono::system_clock::duration((int64_t) vc_u64("begin-time")));
#endif
	e = elem(*m);
	z = m->size();
	return m;
}
static void one_in(bool front, bool copy)
{
	begin(false);
	uint64_t z; elem e; QMSG* m = any_msg(z, e);
	const QMSG& cm = *m;
	vc_list_may_fail = true;
	bool re = front ? (copy ? q->enqueue_front(cm) : q->enqueue_front(*m)) : (copy ? q->enqueue(cm) : q->enqueue(*m));
	vc_list_may_fail = false;
	qc().close_all();
	end();
	if (!re)
	{
		vc_assert(qc().n == n0[MQ] && counts(total0[MQ]), "a message that cannot be stored changes nothing");
		vc_assert(vc_imp(iq < n0[MQ], elem(qc(), iq) == eq), "... nor any message in the queue");
		vc_assert(elem(*m) == e, "... and stays with the caller");
		vc_cover("no memory");
		return;
	}
	vc_assert(qc().n == n0[MQ] + 1, "one message more");
	vc_assert(counts(total0[MQ] + z), "the byte total grows by its size");
	vc_assert(elem(qc(), front ? 0 : n0[MQ]) == e, "the message is at its place, unchanged");
	vc_assert(vc_imp(iq < n0[MQ], elem(qc(), iq + (front ? 1 : 0)) == eq), "the messages already there are untouched and in order");
	if (copy) vc_assert(elem(*m) == e, "the caller keeps its copy");
	else vc_assert(m->size() == 0, "the message has moved");
	vc_cover("in");
}
extern "C" void vc_contract_p07_enqueue() {one_in(false, vc_split(vc_bool("copy"))); vc_cover("end");}
extern "C" void vc_contract_p07_enqueue_front() {one_in(true, vc_split(vc_bool("copy"))); vc_cover("end");}

extern "C" void vc_contract_p07_try_dequeue()
{
	begin(false);
	uint64_t z; elem e; QMSG* m = any_msg(z, e);
	if (0 == iq) {} // any index
	elem first(qc(), 0);
	bool re = q->try_dequeue(*m);
	end();
	qc().close_all();
	if (!re)
	{
		vc_assert(0 == n0[MQ] && 0 == qc().n && counts(0 == n0[MQ] ? total0[MQ] : 0), "only an empty queue has nothing to give");
		vc_assert(elem(*m) == e, "the caller's message is untouched");
		vc_cover("empty");
		return;
	}
	vc_assert(n0[MQ] > 0 && qc().n == n0[MQ] - 1, "one message less");
	vc_assert(elem(*m) == first, "the message at the front is handed out");
	vc_assert(counts(total0[MQ] - first.f[0]), "the byte total shrinks by its size");
	vc_assume(iq > 0 && iq < n0[MQ]);
	vc_assert(elem(qc(), iq - 1) == eq, "the others keep their order");
	vc_cover("end");
}
static void all_in(bool front)
{
	begin(true);
	vc_invariant2(&inv_sum_c, NULL);
	bool given = vc_split(vc_bool("size given"));
	if (given && vc_split(total0[MC] == 0)) given = false;
	if (front) q->move_items_in_front(*can, given ? total0[MC] : 0);
	else q->move_items_in(*can, given ? total0[MC] : 0);
	end();
	qc().close_all(); can->close_all();
	vc_assert(qc().n == n0[MQ] + n0[MC] && 0 == can->n, "everything is moved");
	vc_assert(counts(total0[MQ] + total0[MC]), "the byte total grows by what is moved");
	vc_assert(vc_imp(iq < n0[MQ], elem(qc(), front ? n0[MC] + iq : iq) == eq), "the messages already there are untouched and in order");
	vc_assert(vc_imp(ic < n0[MC], elem(qc(), front ? ic : n0[MQ] + ic) == ec), "the moved ones follow in order");
}
extern "C" void vc_contract_p07_move_items_in() {all_in(false); vc_cover("end");}
extern "C" void vc_contract_p07_move_items_in_front() {all_in(true); vc_cover("end");}

static void moved(uint64_t k)
{
	vc_assert(k <= n0[MQ] && qc().n == n0[MQ] - k && can->n == n0[MC] + k, "the first k messages are moved");
	vc_assert(counts(total0[MQ] - SUM(MQ, k)), "the byte total shrinks by what is moved");
	vc_assert(vc_imp(ic < n0[MC], elem(*can, ic) == ec), "the messages already in the destination are untouched");
	vc_assert(vc_imp(iq < k, elem(*can, n0[MC] + iq) == eq), "the moved ones follow in order");
	vc_assert(vc_imp(vc_and(iq >= k, iq < n0[MQ]), elem(qc(), iq - k) == eq), "the others keep their order");
}
extern "C" void vc_contract_p07_move_items_out_num()
{
	begin(true);
	vc_invariant2(&inv_sum_q, NULL);
	bool dflt = vc_split(vc_bool("default"));
	uint64_t max = dflt ? (uint64_t) -1 : vc_u64("max");
	if (dflt) q->move_items_out(*can); else q->move_items_out(*can, (size_t) max);
	end();
	qc().close_all(); can->close_all();
	uint64_t k = can->n - n0[MC];
	vc_assert(k == vc_ite(max < n0[MQ], max, n0[MQ]), "as many as wanted and available");
	moved(k);
	vc_cover("end");
}
static uint64_t g_max;
static bool inv_below(void*, uint64_t x, uint64_t y) {return vc_or(y == 0, x < g_max);}
extern "C" void vc_contract_p07_move_items_out_bytes()
{
	begin(true);
	vc_invariant2(&inv_sum_q, NULL); vc_invariant2(&inv_below, NULL);
	g_max = vc_u64("max");
	q->move_items_out((size_t) g_max, *can);
	end();
	qc().close_all(); can->close_all();
	uint64_t k = can->n - n0[MC];
	moved(k);
	vc_assert(vc_imp(g_max == (uint64_t) -1, k == n0[MQ]), "no bound: all");
	vc_assert(vc_imp(n0[MQ] > 0, k > 0), "at least one message, if there is any");
	vc_assert(vc_imp(k < n0[MQ], SUM(MQ, k) >= g_max), "no fewer than the bound allows");
	vc_assert(vc_imp(vc_and(k > 1, g_max != (uint64_t) -1), SUM(MQ, k - 1) < g_max), "no more than needed to reach the bound");
	vc_cover("end");
}
extern "C" void vc_contract_p07_swap_clear()
{
	begin(true);
	vc_invariant2(&inv_sum_c, NULL);
	if (vc_split(vc_bool("swap")))
	{
		q->swap(*can);
		vc_assert(qc().n == n0[MC] && can->n == n0[MQ], "contents are exchanged");
		vc_assert(counts(total0[MC]), "the byte total is that of the new content");
		end();
		vc_assert(vc_imp(iq < n0[MQ], elem(*can, iq) == eq) && vc_imp(ic < n0[MC], elem(qc(), ic) == ec), "message by message");
		vc_cover("swapped");
	}
	else
	{
		vc_assert(q->is_empty() == (0 == n0[MQ]) && q->size() == n0[MQ], "emptiness is reported");
		q->clear();
		vc_assert(0 == qc().n && counts(0) && q->is_empty(), "a cleared queue is empty");
		vc_cover("cleared");
		end();
	}
	vc_cover("end");
}
// visitors: each message once, in order; do_something_to_one stops at the first accepted one
static uint64_t v_next; static uint64_t stop_at;
struct visit_all {void operator()(QMSG& m) const {vc_assert(&m == &qc().at(v_next), "each message in order"); ++v_next;}};
struct visit_one {bool operator()(QMSG& m) const {vc_assert(&m == &qc().at(v_next), "each message in order"); return v_next++ == stop_at;}};
static bool inv_visit(void*, uint64_t x, uint64_t y) {return vc_and(x == y, x <= n0[MQ]);}
static bool inv_stop(void*, uint64_t x) {return x <= stop_at;}
extern "C" void vc_contract_p07_do_something()
{
	begin(false);
	v_next = 0; stop_at = vc_u64("stop");
	vc_invariant2(&inv_visit, NULL); vc_invariant1(&inv_stop, NULL);
	if (vc_split(vc_bool("all")))
	{
		q->do_something_to_all(visit_all());
		vc_assert(v_next == n0[MQ], "every message is visited");
		vc_cover("all");
	}
	else
	{
		q->do_something_to_one(visit_one());
		vc_assert(v_next == vc_ite(stop_at < n0[MQ], stop_at + 1, n0[MQ]), "up to the first one accepted");
		vc_cover("one");
	}
	end();
	vc_assert(qc().n == n0[MQ] && counts(total0[MQ]), "the queue is as it was");
	vc_assert(vc_imp(iq < n0[MQ], elem(qc(), iq) == eq), "message by message");
	vc_cover("end");
}
// what the sockets offer on top: POP_FIRST_PENDING_MSG, POP_ALL_PENDING_MSG, GET_PENDING_MSG_SIZE
struct owner
{
	Q& send_buffer;
	owner(Q& s) : send_buffer(s) {}
	GET_PENDING_MSG_SIZE(get_pending, send_buffer)
	POP_FIRST_PENDING_MSG(pop_first, send_buffer, QMSG)
	POP_ALL_PENDING_MSG(pop_all, send_buffer, CAN)
};
extern "C" void vc_contract_p07_pop_pending()
{
	begin(true);
	owner o(*q);
	vc_assert(o.get_pending() == total0[MQ], "pending bytes are reported");
	if (vc_split(vc_bool("first")))
	{
		uint64_t z; elem e; QMSG* m = any_msg(z, e);
		elem first(qc(), 0);
		o.pop_first(*m);
		end();
		vc_assert(vc_imp(n0[MQ] > 0, elem(*m) == first), "the first message is handed out");
		vc_assert(vc_imp(n0[MQ] == 0, m->size() == 0), "or none");
		vc_assert(qc().n == vc_ite(n0[MQ] > 0, n0[MQ] - 1, 0) && counts(vc_ite(n0[MQ] > 0, total0[MQ] - first.f[0], total0[MQ])), "and removed");
		vc_cover("first");
	}
	else
	{
		o.pop_all(*can);
		end();
		vc_assert(can->n == n0[MQ] && qc().n == 0 && counts(0), "everything is handed out");
		vc_assert(vc_imp(iq < n0[MQ], elem(*can, iq) == eq), "in order");
		vc_cover("all");
	}
	vc_cover("end");
}
// get_size_in_byte of a container
extern "C" void vc_contract_p07_size_in_byte()
{
	begin(true);
	vc_invariant2(&inv_sum_c, NULL);
	const CAN& c = *can;
	vc_assert(st_asio_wrapper::get_size_in_byte(c) == total0[MC], "the sum of the sizes");
	vc_assert(can->n == n0[MC] && vc_imp(ic < n0[MC], elem(*can, ic) == ec), "nothing is changed");
	end();
	vc_cover("end");
}
