// Contract of the part of Boost.Asio the socket layer depends on.  Real: buffers, error codes, addresses, endpoints.  Replaced: everything that
// waits or talks to the operating system.  An initiating function records what was asked for (namespace vcn); the contracts decide how it completes.
#ifndef BOOST_ASIO_HPP
#define BOOST_ASIO_HPP
#define BOOST_ASIO_DISABLE_LOCAL_SOCKETS
#include <vc.h>
#include <vector>
#include <boost/asio/detail/config.hpp>
#include <boost/asio/version.hpp>
#include <boost/asio/buffer.hpp>
#include <boost/asio/error.hpp>
#include <boost/asio/placeholders.hpp>
#include <boost/asio/ip/address.hpp>
#include <boost/asio/ip/basic_endpoint.hpp>
#include <boost/asio/detail/socket_types.hpp>
#include <boost/function.hpp>
#include <boost/chrono.hpp>
#include <boost/container/list.hpp>

// const_buffer sequences: pointer (offset in its object) and size
extern const char* vcn_buf_base;
template<> struct vc_feat<boost::asio::const_buffer>
{
	enum {N = 2};
	typedef boost::asio::const_buffer T;
	static T* make() {return (T*) vc_obj(sizeof(T), "const_buffer");}
	static void drop(T* p) {vc_free(p);}
	static void removed(uint64_t, vc_arr_t*, uint64_t, uint64_t) {}
	static void closed(uint64_t, uint64_t, T&) {}
	static void loaded(uint64_t, uint64_t, const uint64_t*) {}
	static void save(T& b, uint64_t* f) {f[0] = vc_ptr_off(b.data()); f[1] = b.size();}
	static void load(T* p, const uint64_t* f) {new (p) T(vcn_buf_base + f[0], f[1]);}
};
namespace std
{
template<typename A> class vector<boost::asio::const_buffer, A> : public boost::container::list<boost::asio::const_buffer>
{
public:
	void reserve(size_t) {}
	boost::asio::const_buffer& operator[](size_t i) {return this->at(i);}
	const boost::asio::const_buffer& operator[](size_t i) const {return this->at(i);}
};
}

namespace vcn
{
typedef boost::system::error_code ec_t;
typedef boost::function<void(const ec_t&, size_t)> h2_t;
typedef boost::function<void(const ec_t&)> h1_t;
typedef boost::function<void()> h0_t;
extern const void* cur; // the strand being run, NULL: none
inline ec_t some_error() {int v = (int) vc_u32("error"); vc_assume(v > 0 && v < 4096); return ec_t(v, boost::system::system_category());}

// tasks handed to an executor
enum task_kind {POST, DEFER, DISPATCH};
struct task {task_kind kind; const void* strand; h0_t* f; bool pending;};
enum {MAXT = 12, MAXO = 6, MAXW = 12};
extern task tasks[MAXT]; extern unsigned ntask;
extern bool (*on_task)(task_kind k, const void* strand, const h0_t& f); // true: taken care of
inline void add_task(task_kind k, const void* strand, const h0_t& f)
{
	if (on_task && on_task(k, strand, f)) return;
	if (DISPATCH == k && NULL != strand && cur == strand) {h0_t g(f); g(); return;} // already in this strand: run at once
	vc_assert(ntask < MAXT, "model: room for recorded tasks");
	tasks[ntask].kind = k; tasks[ntask].strand = strand; tasks[ntask].f = new h0_t(f); tasks[ntask].pending = true; ++ntask;
}
inline void run_task(unsigned i)
{
	vc_assert(tasks[i].pending, "model: a task runs once");
	tasks[i].pending = false;
	const void* old = cur; cur = tasks[i].strand;
	(*tasks[i].f)();
	cur = old;
	delete tasks[i].f; tasks[i].f = NULL;
}
inline unsigned pending_tasks() {unsigned r = 0; for (unsigned i = 0; i < ntask; ++i) if (tasks[i].pending) ++r; return r;}

// asynchronous operations on sockets
enum op_kind {READ, WRITE, READ_SOME, RECV_FROM, RECV, SEND_TO, SEND, CONNECT, ACCEPT};
struct op
{
	op_kind kind; const void* obj; const void* strand; bool pending;
	h2_t* h2; h1_t* h1;
	boost::function<size_t(const ec_t&, size_t)>* cond;
	const void* data; size_t size; // the buffer of a single buffer operation
	boost::container::list<boost::asio::const_buffer>* bufs;
	const void* ep;
};
extern op ops[MAXO]; extern unsigned nop;
inline op& new_op(op_kind k, const void* obj, const void* strand)
{
	vc_assert(nop < MAXO, "model: room for recorded operations");
	for (unsigned i = 0; i < nop; ++i)
		if (ops[i].pending && ops[i].obj == obj)
			vc_assert((WRITE == k || SEND_TO == k || SEND == k) != (WRITE == ops[i].kind || SEND_TO == ops[i].kind || SEND == ops[i].kind), "at most one read and one write outstanding on a socket");
	op& o = ops[nop++];
	o.kind = k; o.obj = obj; o.strand = strand; o.pending = true; o.h2 = NULL; o.h1 = NULL; o.cond = NULL; o.data = NULL; o.size = 0; o.bufs = NULL; o.ep = NULL;
	return o;
}
inline op* find_op(op_kind k) {for (unsigned i = 0; i < nop; ++i) if (ops[i].pending && ops[i].kind == k) return &ops[i]; return NULL;}
inline unsigned count_ops(op_kind k) {unsigned r = 0; for (unsigned i = 0; i < nop; ++i) if (ops[i].pending && ops[i].kind == k) ++r; return r;}
inline void complete(op& o, const ec_t& ec, size_t n = 0)
{
	vc_assert(o.pending, "model: an operation completes once");
	o.pending = false;
	const void* old = cur; cur = o.strand;
	if (o.h2) {h2_t h(*o.h2); delete o.h2; o.h2 = NULL; h(ec, n);}
	else {h1_t h(*o.h1); delete o.h1; o.h1 = NULL; h(ec);}
	cur = old;
}

// timers
struct wait_op {const void* timer; h1_t* h; bool pending, aborted; int64_t ms;};
extern wait_op waits[MAXW]; extern unsigned nwait;
inline unsigned pending_waits(const void* t) {unsigned r = 0; for (unsigned i = 0; i < nwait; ++i) if (waits[i].pending && waits[i].timer == t) ++r; return r;}
inline wait_op* armed(const void* t) {for (unsigned i = 0; i < nwait; ++i) if (waits[i].pending && !waits[i].aborted && waits[i].timer == t) return &waits[i]; return NULL;}
inline void fire(wait_op& w, const ec_t& ec)
{
	vc_assert(w.pending, "model: a wait completes once");
	w.pending = false;
	h1_t h(*w.h); delete w.h; w.h = NULL;
	const void* old = cur; cur = NULL;
	h(ec);
	cur = old;
}
}

namespace boost { namespace asio {

namespace detail { static const std::size_t default_max_transfer_size = 65536; }

class execution_context {};
class io_context : public execution_context
{
public:
	bool stop_flag; int work; bool running; int hint; // ghost
	io_context() : stop_flag(false), work(0), running(false), hint(-1) {}
	explicit io_context(int h) : stop_flag(false), work(0), running(false), hint(h) {}
	bool stopped() const {return stop_flag;}
	void stop() {stop_flag = true;}
	void restart() {stop_flag = false;}
	void reset() {stop_flag = false;}
	static size_t (*on_run)(io_context*, bool one);
	size_t run() {return on_run ? on_run(this, false) : 0;}
	size_t run_one() {return on_run ? on_run(this, true) : 0;}
	class executor_type
	{
	public:
		io_context* ctx;
		executor_type(io_context* c = NULL) : ctx(c) {}
		io_context& context() const {return *ctx;}
		bool operator==(const executor_type& o) const {return ctx == o.ctx;}
	};
	executor_type get_executor() {return executor_type(this);}
	class strand
	{
	public:
		io_context* ctx; const void* impl; // ghost: identity, shared by copies
		explicit strand(io_context& c) : ctx(&c), impl(this) {}
		bool running_in_this_thread() const {return vcn::cur == impl;}
		io_context& context() const {return *ctx;}
	};
};
typedef io_context io_service;
class any_io_executor
{
public:
	io_context* ctx;
	any_io_executor() : ctx(NULL) {}
	any_io_executor(const io_context::executor_type& e) : ctx(e.ctx) {}
	io_context& context() const {return *ctx;}
};
template<typename E> class executor_work_guard
{
	E e; bool owns;
public:
	typedef E executor_type;
	explicit executor_work_guard(const E& x) : e(x), owns(true) {++e.context().work;}
	executor_work_guard(const executor_work_guard& o) : e(o.e), owns(o.owns) {if (owns) ++e.context().work;}
	~executor_work_guard() {reset();}
	void reset() {if (owns) {owns = false; --e.context().work;}}
	bool owns_work() const {return owns;}
	E get_executor() const {return e;}
};
template<typename F> void post(io_context&, const F& f) {vcn::add_task(vcn::POST, NULL, f);}
template<typename F> void defer(io_context&, const F& f) {vcn::add_task(vcn::DEFER, NULL, f);}
template<typename F> void dispatch(io_context&, const F& f) {vcn::add_task(vcn::DISPATCH, NULL, f);}
template<typename F> void post(const io_context::strand& s, const F& f) {vcn::add_task(vcn::POST, s.impl, f);}
template<typename F> void defer(const io_context::strand& s, const F& f) {vcn::add_task(vcn::DEFER, s.impl, f);}
template<typename F> void dispatch(const io_context::strand& s, const F& f) {vcn::add_task(vcn::DISPATCH, s.impl, f);}

// a handler bound to a strand runs in it as long as the binding is kept (a conversion to boost::function loses it, as in Asio)
template<typename F> struct executor_binder
{
	F f; const void* impl;
	executor_binder(const F& x, const void* i) : f(x), impl(i) {}
	template<typename A> void operator()(const A& a) const {F g(f); g(a);}
	template<typename A, typename B> void operator()(const A& a, const B& b) const {F g(f); g(a, b);}
	const F& get() const {return f;}
};
template<typename F> executor_binder<F> bind_executor(const io_context::strand& s, const F& f) {return executor_binder<F>(f, s.impl);}
template<typename F> const void* vcn_strand(const F&) {return NULL;}
template<typename F> const void* vcn_strand(const executor_binder<F>& b) {return b.impl;}

template<typename S, typename B, typename C, typename H> void async_read(S& s, const B& b, const C& cond, const H& h)
{
	vcn::op& o = vcn::new_op(vcn::READ, &s, vcn_strand(h));
	o.h2 = new vcn::h2_t(h); o.cond = new boost::function<size_t(const vcn::ec_t&, size_t)>(cond);
	o.size = buffer_size(b);
	o.data = (*buffer_sequence_begin(b)).data();
}
template<typename S, typename H> void async_write(S& s, const std::vector<const_buffer>& b, const H& h)
{
	vcn::op& o = vcn::new_op(vcn::WRITE, &s, vcn_strand(h));
	o.h2 = new vcn::h2_t(h);
	o.bufs = new boost::container::list<const_buffer>(b);
}
template<typename S, typename B, typename H> void async_write(S& s, const B& b, const H& h)
{
	vcn::op& o = vcn::new_op(vcn::WRITE, &s, vcn_strand(h));
	o.h2 = new vcn::h2_t(h);
	o.size = buffer_size(b); o.data = (*buffer_sequence_begin(b)).data();
}

class socket_base
{
public:
	enum shutdown_type {shutdown_receive, shutdown_send, shutdown_both};
	static const int max_listen_connections = 4096, max_connections = 4096;
	struct reuse_address {bool v; reuse_address(bool b) : v(b) {}};
	struct broadcast {bool v; broadcast(bool b) : v(b) {}};
	typedef int message_flags;
};
// ghost state of a socket; every operation the operating system may refuse does so or not
template<typename P> class vcn_socket : public socket_base
{
public:
	typedef vcn_socket lowest_layer_type; typedef vcn_socket next_layer_type;
	typedef P protocol_type; typedef typename P::endpoint endpoint_type; typedef any_io_executor executor_type;
	io_context* ctx; bool open_, bound, connected, reuse; unsigned closes, shuts_send, shuts_both; endpoint_type local, remote; P proto;
	void zero() {open_ = bound = connected = reuse = false; closes = shuts_send = shuts_both = 0;}
	explicit vcn_socket(io_context& c) : ctx(&c), proto(P::v4()) {zero();}
	explicit vcn_socket(const any_io_executor& e) : ctx(e.ctx), proto(P::v4()) {zero();}
	any_io_executor get_executor() {return any_io_executor(io_context::executor_type(ctx));}
	vcn_socket& lowest_layer() {return *this;}
	const vcn_socket& lowest_layer() const {return *this;}
	bool is_open() const {return open_;}
	static bool fails() {return vc_split(vc_bool("operation-fails"));}
	static void result(bool f, vcn::ec_t& ec) {ec = f ? vcn::some_error() : vcn::ec_t();}
	void open(const P& p, vcn::ec_t& ec) {if (open_ || fails()) {result(true, ec); return;} open_ = true; proto = p; result(false, ec);}
	void close(vcn::ec_t& ec) {++closes; open_ = bound = connected = false; result(fails(), ec);}
	void close() {vcn::ec_t ec; close(ec);}
	void shutdown(shutdown_type t, vcn::ec_t& ec) {if (shutdown_send == t) ++shuts_send; else ++shuts_both; result(fails(), ec);}
	void bind(const endpoint_type& ep, vcn::ec_t& ec) {if (!open_ || fails()) {result(true, ec); return;} bound = true; local = ep; result(false, ec);}
	void connect(const endpoint_type& ep, vcn::ec_t& ec) {if (fails()) {result(true, ec); return;} open_ = connected = true; remote = ep; result(false, ec);}
	template<typename O> void set_option(const O& o, vcn::ec_t& ec) {option(o); result(fails(), ec);}
	void option(const reuse_address& o) {reuse = o.v;}
	template<typename O> void option(const O&) {}
	endpoint_type local_endpoint(vcn::ec_t& ec) const {result(fails(), ec); return local;}
	endpoint_type remote_endpoint(vcn::ec_t& ec) const {result(fails(), ec); return remote;}
	template<typename H> void async_connect(const endpoint_type& ep, const H& h)
	{
		vcn::op& o = vcn::new_op(vcn::CONNECT, this, vcn_strand(h));
		o.h1 = new vcn::h1_t(h); o.ep = new endpoint_type(ep);
		open_ = true;
	}
	template<typename B> vcn::op& single(vcn::op_kind k, const B& b, const void* st)
	{
		vcn::op& o = vcn::new_op(k, this, st);
		o.size = buffer_size(b); o.data = (*buffer_sequence_begin(b)).data();
		return o;
	}
	template<typename B, typename H> void async_read_some(const B& b, const H& h) {single(vcn::READ_SOME, b, vcn_strand(h)).h2 = new vcn::h2_t(h);}
	template<typename B, typename H> void async_receive(const B& b, const H& h) {single(vcn::RECV, b, vcn_strand(h)).h2 = new vcn::h2_t(h);}
	template<typename B, typename H> void async_receive_from(const B& b, endpoint_type& ep, const H& h) {vcn::op& o = single(vcn::RECV_FROM, b, vcn_strand(h)); o.ep = &ep; o.h2 = new vcn::h2_t(h);}
	template<typename B, typename H> void async_send(const B& b, const H& h) {single(vcn::SEND, b, vcn_strand(h)).h2 = new vcn::h2_t(h);}
	template<typename B, typename H> void async_send_to(const B& b, const endpoint_type& ep, const H& h) {vcn::op& o = single(vcn::SEND_TO, b, vcn_strand(h)); o.ep = new endpoint_type(ep); o.h2 = new vcn::h2_t(h);}
};
template<typename P> class vcn_acceptor : public socket_base
{
public:
	typedef P protocol_type; typedef typename P::endpoint endpoint_type; typedef any_io_executor executor_type;
	io_context* ctx; bool open_, bound, listening, reuse; int backlog; endpoint_type local; unsigned cancels;
	explicit vcn_acceptor(io_context& c) : ctx(&c), open_(false), bound(false), listening(false), reuse(false), backlog(0), cancels(0) {}
	any_io_executor get_executor() {return any_io_executor(io_context::executor_type(ctx));}
	bool is_open() const {return open_;}
	static bool fails() {return vc_split(vc_bool("operation-fails"));}
	static void result(bool f, vcn::ec_t& ec) {ec = f ? vcn::some_error() : vcn::ec_t();}
	void open(const P&, vcn::ec_t& ec) {if (open_ || fails()) {result(true, ec); return;} open_ = true; result(false, ec);}
	void bind(const endpoint_type& ep, vcn::ec_t& ec) {if (!open_ || fails()) {result(true, ec); return;} bound = true; local = ep; result(false, ec);}
	void listen(int n, vcn::ec_t& ec) {if (!open_ || fails()) {result(true, ec); return;} listening = true; backlog = n; result(false, ec);}
	template<typename O> void set_option(const O& o, vcn::ec_t& ec) {reuse = o.v; result(fails(), ec);}
	void cancel(vcn::ec_t& ec) {++cancels; result(fails(), ec);}
	void close(vcn::ec_t& ec) {open_ = bound = listening = false; result(fails(), ec);}
	template<typename S, typename H> void async_accept(S& s, const H& h)
	{
		vc_assert(vcn::nop < vcn::MAXO, "model: room for recorded operations");
		vcn::op& o = vcn::ops[vcn::nop++];
		o.kind = vcn::ACCEPT; o.obj = &s; o.strand = vcn_strand(h); o.pending = true; o.h2 = NULL; o.cond = NULL; o.data = this; o.size = 0; o.bufs = NULL; o.ep = NULL;
		o.h1 = new vcn::h1_t(h);
	}
};
namespace ip
{
class tcp
{
	int family_;
	explicit tcp(int f) : family_(f) {}
public:
	typedef basic_endpoint<tcp> endpoint;
	typedef vcn_socket<tcp> socket;
	typedef vcn_acceptor<tcp> acceptor;
	struct no_delay {bool v; no_delay(bool b) : v(b) {}};
	static tcp v4() {return tcp(BOOST_ASIO_OS_DEF(AF_INET));}
	static tcp v6() {return tcp(BOOST_ASIO_OS_DEF(AF_INET6));}
	int type() const {return BOOST_ASIO_OS_DEF(SOCK_STREAM);}
	int protocol() const {return BOOST_ASIO_OS_DEF(IPPROTO_TCP);}
	int family() const {return family_;}
	friend bool operator==(const tcp& a, const tcp& b) {return a.family_ == b.family_;}
	friend bool operator!=(const tcp& a, const tcp& b) {return a.family_ != b.family_;}
};
class udp
{
	int family_;
	explicit udp(int f) : family_(f) {}
public:
	typedef basic_endpoint<udp> endpoint;
	typedef vcn_socket<udp> socket;
	static udp v4() {return udp(BOOST_ASIO_OS_DEF(AF_INET));}
	static udp v6() {return udp(BOOST_ASIO_OS_DEF(AF_INET6));}
	int type() const {return BOOST_ASIO_OS_DEF(SOCK_DGRAM);}
	int protocol() const {return BOOST_ASIO_OS_DEF(IPPROTO_UDP);}
	int family() const {return family_;}
	friend bool operator==(const udp& a, const udp& b) {return a.family_ == b.family_;}
	friend bool operator!=(const udp& a, const udp& b) {return a.family_ != b.family_;}
};
}
// a waitable timer: a wait completes with success (possibly already on its way when it is cancelled) or as aborted
class vcn_timer
{
public:
	io_context* ctx; int64_t ms; bool set;
	explicit vcn_timer(io_context& c) : ctx(&c), ms(0), set(false) {}
	~vcn_timer() {abort();}
	size_t abort()
	{
		size_t r = 0;
		for (unsigned i = 0; i < vcn::nwait; ++i)
			if (vcn::waits[i].pending && vcn::waits[i].timer == this && !vcn::waits[i].aborted)
				{vcn::waits[i].aborted = true; ++r;}
		return r;
	}
	template<typename D> size_t expires_after(const D& d) {size_t r = abort(); ms = boost_or_std_ms(d); set = true; return r;}
	template<typename D> static int64_t boost_or_std_ms(const D& d) {return d.count();} // the library only uses milliseconds
	size_t cancel() {if (vcn_cancel_may_throw && vc_split(vc_bool("cancel-throws"))) throw boost::system::system_error(vcn::some_error()); return abort();}
	size_t cancel(vcn::ec_t& ec) {ec = vcn::ec_t(); return abort();}
	template<typename H> void async_wait(const H& h)
	{
		vc_assert(set, "a wait has an expiry");
		vc_assert(vcn::nwait < vcn::MAXW, "model: room for recorded waits");
		vcn::wait_op& w = vcn::waits[vcn::nwait++];
		w.timer = this; w.h = new vcn::h1_t(h); w.pending = true; w.aborted = false; w.ms = ms;
	}
	static bool vcn_cancel_may_throw;
};
typedef vcn_timer system_timer; typedef vcn_timer steady_timer;
typedef boost::system::system_error system_error;

}} // namespace
#endif
