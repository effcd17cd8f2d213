// Contract of the part of Boost.Thread the library uses.  A contract runs one thread; the others act at the hooks.
#ifndef BOOST_THREAD_HPP
#define BOOST_THREAD_HPP
#include <vc.h>
#include <stddef.h>
#include <ostream>
#include <boost/chrono.hpp>
#include <boost/function.hpp>
#include <boost/noncopyable.hpp>
#include <boost/shared_ptr.hpp>
extern unsigned vc_locks_held;
extern void (*vcn_sleep)();                 // other threads act while this one sleeps
extern void (*vcn_cv)(const void* cv, int what); // 0: notify_one 1: notify_all 2: waiting (others act, the lock is released)
extern void (*vcn_future)(const void* shared); // others act while this one waits for the result
#define BOOST_THREAD_USES_CHRONO
#define BOOST_THREAD_FUTURE unique_future
namespace boost
{
class mutex : noncopyable
{
public:
	unsigned held;
	mutex() : held(0) {}
	~mutex() {vc_assert(0 == held, "a mutex is destroyed unlocked");}
	void lock() {vc_assert(0 == held, "lock: not already held (deadlock)"); held = 1; ++vc_locks_held;}
	bool try_lock() {if (held) return false; held = 1; ++vc_locks_held; return true;}
	void unlock() {vc_assert(1 == held, "unlock: held"); held = 0; --vc_locks_held;}
	typedef boost::noncopyable scoped_lock_base;
	unsigned* native_handle() {return &held;}
};
class shared_mutex : public mutex
{
public:
	unsigned shared;
	shared_mutex() : shared(0) {}
	void lock() {vc_assert(0 == shared, "lock: not held for reading (deadlock)"); mutex::lock();}
	void lock_shared() {vc_assert(0 == held, "lock: not already held (deadlock)"); ++shared; ++vc_locks_held;}
	void unlock_shared() {vc_assert(shared > 0, "unlock: held"); --shared; --vc_locks_held;}
};
template<typename M> class lock_guard : noncopyable {M& m; public: explicit lock_guard(M& x) : m(x) {m.lock();} ~lock_guard() {m.unlock();}};
template<typename M> class shared_lock : noncopyable {M& m; public: explicit shared_lock(M& x) : m(x) {m.lock_shared();} ~shared_lock() {m.unlock_shared();}};
struct defer_lock_t {}; struct try_to_lock_t {};
template<typename M> class unique_lock : noncopyable
{
	M& m; bool owns;
public:
	explicit unique_lock(M& x) : m(x), owns(true) {m.lock();}
	unique_lock(M& x, defer_lock_t) : m(x), owns(false) {}
	~unique_lock() {if (owns) m.unlock();}
	void lock() {vc_assert(!owns, "unique_lock: not owned"); m.lock(); owns = true;}
	void unlock() {vc_assert(owns, "unique_lock: owned"); m.unlock(); owns = false;}
	bool owns_lock() const {return owns;}
	M* mutex() const {return &m;}
};
struct cv_status {enum type {no_timeout, timeout}; };
class condition_variable : noncopyable
{
public:
	void notify_one() {if (vcn_cv) vcn_cv(this, 0);}
	void notify_all() {if (vcn_cv) vcn_cv(this, 1);}
	template<typename L> void others(L& l) {vc_assert(l.owns_lock(), "condition: the lock is held"); l.unlock(); if (vcn_cv) vcn_cv(this, 2); l.lock();}
	template<typename L> void wait(L& l) {others(l);}
	template<typename L, typename P> void wait(L& l, P p) {if (!p()) {others(l); vc_assume(p());}} // returns only once the condition holds
	template<typename L, typename D, typename P> bool wait_for(L& l, const D&, P p) {if (p()) return true; others(l); return p();}
};
class thread {public: struct id {bool operator==(const id&) const {return true;}};};
inline std::ostream& operator<<(std::ostream& o, const thread::id&) {return o;}
namespace this_thread {inline thread::id get_id() {return thread::id();} template<typename D> void sleep_for(const D&) {if (vcn_sleep) vcn_sleep();}}
class thread_group : noncopyable
{
public:
	size_t n; // ghost
	thread_group() : n(0) {}
	static void (*on_create)(thread_group*, const boost::function<void()>&);
	static void (*on_join)(thread_group*);
	template<typename F> thread* create_thread(const F& f) {++n; boost::function<void()> g(f); if (on_create) on_create(this, g); return NULL;}
	void join_all() {if (on_join) on_join(this);}
	size_t size() const {return n;}
};
// promise / future: the shared state says how often the result was set
struct future_status {enum type {ready, timeout, deferred}; };
template<typename T> struct vcn_shared {unsigned sets; T value; bool taken; vcn_shared() : sets(0), value(), taken(false) {}};
template<typename T> class unique_future
{
public:
	boost::shared_ptr<vcn_shared<T> > s;
	unique_future() {}
	void swap(unique_future& o) {s.swap(o.s);}
	void others() {if (0 == s->sets && vcn_future) vcn_future(s.get());}
	template<typename D> future_status::type wait_for(const D&) {others(); return s->sets ? future_status::ready : future_status::timeout;}
	T get() {others(); vc_assume(s->sets > 0); return s->value;} // waits for ever otherwise
};
template<typename T> class promise
{
public:
	boost::shared_ptr<vcn_shared<T> > s;
	promise() : s(new vcn_shared<T>()) {}
	unique_future<T> get_future() {vc_assert(!s->taken, "promise: one future"); s->taken = true; unique_future<T> f; f.s = s; return f;}
	void set_value(const T& v) {vc_assert(0 == s->sets, "promise: the result is set at most once"); ++s->sets; s->value = v;}
};
}
#endif
