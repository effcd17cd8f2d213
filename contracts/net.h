// The socket layer's surroundings: an abstract message, packer, unpacker and queue (each is its contract), and the ghost state of models/net
#ifndef NET_H
#define NET_H
#include <boost/asio.hpp>
#include <boost/thread.hpp>
#include <boost/atomic.hpp>
#include <vc.h>

namespace vcn
{
const void* cur = NULL;
task tasks[MAXT]; unsigned ntask = 0; bool (*on_task)(task_kind, const void*, const h0_t&) = NULL;
op ops[MAXO]; unsigned nop = 0;
wait_op waits[MAXW]; unsigned nwait = 0;
}
bool boost::asio::vcn_timer::vcn_cancel_may_throw = false;
size_t (*boost::asio::io_context::on_run)(boost::asio::io_context*, bool) = NULL;
void (*boost::thread_group::on_create)(boost::thread_group*, const boost::function<void()>&) = NULL;
void (*boost::thread_group::on_join)(boost::thread_group*) = NULL;
void (*vcn_env)(const void*, int) = NULL; void (*vcn_seen)(const void*, int, uint64_t) = NULL;
void (*vcn_sleep)() = NULL; void (*vcn_cv)(const void*, int) = NULL; void (*vcn_future)(const void*) = NULL;
const char* vcn_buf_base = NULL;

namespace boost {inline std::string to_string(unsigned short) {return std::string();}} // used in log lines only
#include "common.h"

// time: some non negative, non decreasing value
static uint64_t vcn_now = 0;
static time_t vcn_time(time_t* t) {uint64_t v = vc_u64("now"); vc_assume(v >= vcn_now && v < ((uint64_t) 1 << 40)); vcn_now = v; if (t) *t = (time_t) v; return (time_t) v;}
static void stub_message(std::string* r, const void*) {new (r) std::string();}

// a message: a size and what it contains (a token); data() is ghost memory
struct MSG
{
	uint64_t len, tok;
	MSG() : len(0), tok(0) {}
	MSG(const char*, size_t l) : len(l), tok(vc_u64("content")) {} // content copied from somewhere
	bool empty() const {return 0 == len;}
	size_t size() const {return len;}
	const char* data() const {return vcn_buf_base + tok;}
	char* data() {return const_cast<char*>(vcn_buf_base) + tok;}
	void swap(MSG& o) {uint64_t l = len, t = tok; len = o.len; tok = o.tok; o.len = l; o.tok = t;}
	void clear() {len = 0; tok = 0;}
};
static const uint64_t MSGLIM = (uint64_t) 1 << 40;
static void any_msg(MSG& m) {m.len = vc_u64("len"); m.tok = vc_u64("tok"); vc_assume(m.len < MSGLIM && m.tok < MSGLIM);}
static bool sum_on = false; static uint64_t TSUM(uint64_t mon, uint64_t i) {return vc_uf2("tsum", mon, i);}
typedef st_asio_wrapper::obj_with_begin_time<MSG> TMSG;
#ifdef ST_ASIO_SYNC_SEND
typedef st_asio_wrapper::obj_with_begin_time_promise<MSG> IMSG;
#else
typedef TMSG IMSG;
#endif
inline uint64_t tm_of(const st_asio_wrapper::statistic::stat_time& t)
{
#ifdef ST_ASIO_FULL_STATISTIC
	return t.time_since_epoch().count();
#else
	return 0;
#endif
}
template<> struct vc_feat<MSG> : vc_feat_base<MSG>
{
	enum {N = 2};
	static void save(MSG& m, uint64_t* f) {f[0] = m.len; f[1] = m.tok;}
	static void load(MSG* p, const uint64_t* f) {new (p) MSG(); p->len = f[0]; p->tok = f[1];}
};
template<> struct vc_feat<TMSG> : vc_feat_base<TMSG>
{
	// the sum of the sizes of the elements put into a list one by one
	static void closed(uint64_t, uint64_t i, TMSG& m) {if (sum_on) vc_assume(TSUM(1, i + 1) == TSUM(1, i) + m.len);}
#ifdef ST_ASIO_FULL_STATISTIC
	enum {N = 3};
#else
	enum {N = 2};
#endif
	static void save(TMSG& m, uint64_t* f)
	{
		f[0] = m.len; f[1] = m.tok;
#ifdef ST_ASIO_FULL_STATISTIC
		f[2] = m.begin_time.time_since_epoch().count();
#endif
	}
	static void load(TMSG* p, const uint64_t* f)
	{
		new (p) TMSG(); p->len = f[0]; p->tok = f[1];
#ifdef ST_ASIO_FULL_STATISTIC
		p->begin_time = st_asio_wrapper::statistic::stat_time(boost::chrono::system_clock::duration((int64_t) f[2]));
#endif
	}
};
#include "container.h"

// ---- the message queue: the contract of lock_queue (decided by P07), one step each; other threads act between the steps
extern void (*vq_env)(void* q);
void (*vq_env)(void* q) = NULL;
static bool vq_may_fail = false; // an insertion may run out of memory
template<typename Can> class vqueue : public Can
{
public:
	typedef Can super; typedef typename Can::value_type data_type; typedef vc_feat<data_type> F;
	enum {N = F::N};
	uint64_t total, moved, taken; bool locked;  // ghost: bytes; elements moved out by the last move_items_out; number of elements that left
	uint64_t mv_n; vc_arr_t mv[N];              // ghost: the elements of the last non empty move_items_out
	uint64_t in_n, in_given; vc_arr_t in[N]; bool in_front; unsigned ins; // ghost: the last insertion
	vqueue() : total(0), moved(0), taken(0), locked(false), mv_n(0), in_n(0), in_given(0), in_front(false), ins(0) {for (unsigned i = 0; i < N; ++i) {mv[i] = vc_arr(); in[i] = vc_arr();}}
	void env() {if (vq_env && !locked) vq_env(this);}
	bool is_thread_safe() const {return true;}
	size_t size_in_byte() const {const_cast<vqueue*>(this)->env(); return total;}
	bool is_empty() const {const_cast<vqueue*>(this)->env(); return 0 == this->n;}
	bool empty() const {return is_empty();}
	size_t size() const {const_cast<vqueue*>(this)->env(); return this->n;}
	void lock() {vc_assert(!locked, "queue: lock() not nested"); env(); locked = true;}
	void unlock() {vc_assert(locked, "queue: unlock() matches lock()"); locked = false; env();}
	void clear() {env(); taken += this->n; Can::clear(); total = 0;}
	void swap(Can& o) {env(); uint64_t b = vc_u64("bytes"); vc_assume(vc_imp(o.n == 0, b == 0) && b < MSGLIM * 1024); Can::swap(o); total = b;}
	void put(Can& c, bool front, uint64_t bytes)
	{
		c.close_all();
		in_n = c.n; in_front = front; ++ins;
		for (unsigned k = 0; k < N; ++k) vc_acopy(in[k], 0, c.a[k], 0, c.n);
		this->splice_at(front ? 0 : this->n, c, 0, c.n);
		total += bytes;
	}
	template<typename T> bool one(T& m, bool front)
	{
		env();
		if (vq_may_fail && vc_split(vc_bool("queue-out-of-memory"))) return false;
		uint64_t b = m.size();
		Can c; c.emplace_back(m);
		put(c, front, b);
		env();
		return true;
	}
	template<typename T> bool enqueue(T& m) {return one(m, false);}
	template<typename T> bool enqueue(const T& m) {return one(m, false);}
	template<typename T> bool enqueue_front(T& m) {return one(m, true);}
	template<typename T> bool enqueue_front(const T& m) {return one(m, true);}
	template<typename T> bool enqueue_(T& m) {return one(m, false);}
	template<typename T> bool enqueue_(const T& m) {return one(m, false);}
	template<typename T> bool enqueue_front_(T& m) {return one(m, true);}
	template<typename T> bool enqueue_front_(const T& m) {return one(m, true);}
	static uint64_t bytes_of(Can& c, uint64_t given) {uint64_t b = vc_u64("bytes-of-list"); vc_assume(b < MSGLIM * 1024 && vc_imp(c.n == 0, b == 0)); return vc_ite(given != 0, given, b);}
	void move_items_in(Can& c, size_t size_in_byte = 0) {env(); in_given = size_in_byte; if (vc_split(c.n == 0)) return; put(c, false, bytes_of(c, size_in_byte)); env();}
	void move_items_in_(Can& c, size_t size_in_byte = 0) {move_items_in(c, size_in_byte);}
	void move_items_in_front(Can& c, size_t size_in_byte = 0) {env(); in_given = size_in_byte; if (vc_split(c.n == 0)) return; put(c, true, bytes_of(c, size_in_byte)); env();}
	void move_items_in_front_(Can& c, size_t size_in_byte = 0) {move_items_in_front(c, size_in_byte);}
	void out(Can& c, uint64_t k)
	{
		this->close_all();
		moved = k; taken += k;
		uint64_t b = vc_u64("bytes-moved"); vc_assume(b <= total && vc_imp(k == this->n, b == total) && vc_imp(k == 0, b == 0));
		total -= b;
		for (unsigned i = 0; i < N; ++i) vc_acopy(mv[i], 0, this->a[i], 0, vc_ite(k > 0, k, 0));
		mv_n = vc_ite(k > 0, k, mv_n);
		c.splice_at(c.n, *this, 0, k);
	}
	void move_items_out(size_t max_size_in_byte, Can& c)
	{
		env();
		uint64_t k = vc_u64("messages-moved");
		vc_assume(k <= this->n && vc_imp(this->n > 0, k > 0) && vc_imp(vc_and(max_size_in_byte == 0, this->n > 0), k == 1) && vc_imp(max_size_in_byte == (size_t) -1, k == this->n));
		out(c, k);
		env();
	}
	void move_items_out_(size_t max_size_in_byte, Can& c) {move_items_out(max_size_in_byte, c);}
	void move_items_out(Can& c, size_t max_item_num = -1) {env(); out(c, vc_ite(max_item_num < this->n, max_item_num, this->n)); env();}
	void move_items_out_(Can& c, size_t max_item_num = -1) {move_items_out(c, max_item_num);}
	bool try_dequeue(data_type& item)
	{
		env();
		if (vc_split(this->n == 0)) return false;
		item.swap(this->front());
		total -= item.size();
		++taken;
		Can::pop_front();
		env();
		return true;
	}
	bool try_dequeue_(data_type& item) {return try_dequeue(item);}
	template<typename P> void do_something_to_all(const P& p) {env(); (void) p;}
	// ghost: arbitrary content
	void any_q(const char* name) {this->any(name); total = vc_u64("bytes"); vc_assume(total < MSGLIM * 1024 && vc_imp(this->n == 0, total == 0));}
	// ghost: k more elements at the end
	void more(uint64_t k) {this->close_all(); vc_arr_t t = vc_arr(); for (unsigned i = 0; i < N; ++i) {vc_ahavoc(t); vc_acopy(this->a[i], this->n, t, 0, k);} vc_free(t); this->n += k; uint64_t b = vc_u64("bytes"); vc_assume(b < MSGLIM * 1024 && vc_imp(k == 0, b == 0)); total += b;}
};

// ---- packer: any result
struct vpacker : public st_asio_wrapper::i_packer<MSG>
{
	unsigned packed, beats, resets; bool ok; // ghost
	static void (*on_packed)(container_type&); container_type* made; container_type* last; MSG one; bool native_asked; // ghost: what the last packing gave
	vpacker() : packed(0), beats(0), resets(0), ok(false), made(NULL), last(new container_type()), native_asked(false) {}
	virtual void reset() {++resets;}
	bool out(container_type& c)
	{
		++packed; ok = vc_split(vc_bool("packing-succeeds"));
		if (ok) {vc_assert(c.empty(), "the packer gets an empty list"); c.any("packed"); made = &c; *last = c; if (on_packed) on_packed(c);} // a list, possibly empty
		return ok;
	}
	virtual bool pack_msg(msg_type& msg, const char* const pstr[], const size_t len[], size_t num, bool native = false) {++packed; ok = vc_split(vc_bool("packing-succeeds")); if (ok) any_msg(msg); else msg.clear(); one.len = msg.len; one.tok = msg.tok; native_asked = native; return ok;}
	virtual bool pack_msg(msg_type& msg, container_type& c) {return out(c);}
	virtual bool pack_msg(msg_type& a, msg_type& b, container_type& c) {return out(c);}
	virtual bool pack_msg(container_type& in, container_type& o) {return out(o);}
	virtual bool pack_heartbeat(msg_type& msg) {++beats; any_msg(msg); one.len = msg.len; one.tok = msg.tok; return !msg.empty();}
};
void (*vpacker::on_packed)(vpacker::container_type&) = NULL;
// ---- unpacker: any result
struct vunpacker : public st_asio_wrapper::i_unpacker<MSG>
{
	unsigned prepared, parsed, resets, dumps; bool ok; size_t got; bool has_room; // ghost
	static void (*on_parsed)(container_type&);
	vunpacker() : prepared(0), parsed(0), resets(0), dumps(0), ok(false), got(0), has_room(true) {}
	virtual void reset() {++resets;}
	virtual void dump_left_data() const {++const_cast<vunpacker*>(this)->dumps;}
	virtual bool parse_msg(size_t bytes, container_type& c)
	{
		++parsed; got = bytes;
		ok = vc_split(vc_bool("parsing-succeeds"));
		typename_list(c);
		if (on_parsed) on_parsed(c);
		return ok;
	}
	static void typename_list(container_type& c) {uint64_t k = vc_u64("parsed"); vc_assume(k < ((uint64_t) 1 << 40)); c.close_all(); vc_arr_t t = vc_arr(); for (unsigned i = 0; i < 2; ++i) {vc_ahavoc(t); vc_acopy(c.a[i], c.n, t, 0, k);} vc_free(t); c.n += k;}
	virtual size_t completion_condition(const boost::system::error_code& ec, size_t bytes) {return vc_u64("want");}
	virtual buffer_type prepare_next_recv()
	{
		++prepared;
		uint64_t n = vc_u64("room"); vc_assume(n < MSGLIM && (n > 0) == has_room);
		return buffer_type((void*) vcn_buf_base, n);
	}
};
#ifdef ST_ASIO_FULL_STATISTIC
static int64_t vcn_clock = 0;
static st_asio_wrapper::statistic::stat_time stub_now() {int64_t v = (int64_t) vc_u64("clock"); vc_assume(v >= vcn_clock && v < ((int64_t) 1 << 60)); vcn_clock = v; return st_asio_wrapper::statistic::stat_time(boost::chrono::system_clock::duration(v));}
#endif
void (*vunpacker::on_parsed)(vunpacker::container_type&) = NULL;
static void net_begin()
{
#ifdef ST_ASIO_FULL_STATISTIC
	vc_replace_name("9statistic3nowEv", (void*) &stub_now);
	vcn_clock = 0;
#endif
	vcn_buf_base = vc_unbounded();
	vc_replace((void*) &time, (void*) &vcn_time);
	vc_replace_name("5boost6system10error_code7messageB5cxx11Ev$|5boost6system10error_code7messageEv$", (void*) &stub_message);
	vcn_now = vc_u64("start"); vc_assume(vcn_now > 0 && vcn_now < ((uint64_t) 1 << 39));
}
template<typename L> inline bool same_elem(const L& a, uint64_t i, const L& b, uint64_t j) {bool r = true; for (unsigned k = 0; k < L::F::N; ++k) r = vc_and(r, a.feat(k, i) == b.feat(k, j)); return r;}
#endif
