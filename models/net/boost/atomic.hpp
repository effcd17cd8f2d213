// Contract of boost::atomic for the verifier: plain operations; before each of them other threads may act (vcn_env)
#ifndef BOOST_ATOMIC_HPP
#define BOOST_ATOMIC_HPP
#include <vc.h>
#include <stddef.h>
#include <boost/cstdint.hpp>
extern void (*vcn_env)(const void* obj, int what); // 0 load, 1 store, 2 exchange and the like
extern void (*vcn_seen)(const void* obj, int what, uint64_t v); // the value read / written
#define BOOST_ATOMIC_FLAG_LOCK_FREE 2
namespace boost
{
typedef enum memory_order {memory_order_relaxed, memory_order_consume, memory_order_acquire, memory_order_release, memory_order_acq_rel, memory_order_seq_cst} memory_order;
template<typename T> class atomic
{
public:
	T v;
	void e(int w) const {if (vcn_env) vcn_env(this, w);}
	T s(int w, T x) const {if (vcn_seen) vcn_seen(this, w, (uint64_t) x); return x;}
	typedef T value_type;
	atomic() : v(0) {}
	atomic(T x) : v(x) {}
	T load(memory_order = memory_order_seq_cst) const {e(0); return s(0, v);}
	void store(T x, memory_order = memory_order_seq_cst) {e(1); v = x; s(1, x);}
	T exchange(T x, memory_order = memory_order_seq_cst) {e(2); T o = v; v = x; s(2, o); return o;}
	bool compare_exchange_strong(T& x, T d, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) {e(2); if (v == x) {v = d; s(2, x); return true;} x = v; s(2, x); return false;}
	bool compare_exchange_weak(T& x, T d, memory_order a = memory_order_seq_cst, memory_order b = memory_order_seq_cst) {return compare_exchange_strong(x, d, a, b);}
	T fetch_add(T x, memory_order = memory_order_seq_cst) {e(2); T o = v; v += x; s(2, o); return o;}
	T fetch_sub(T x, memory_order = memory_order_seq_cst) {e(2); T o = v; v -= x; s(2, o); return o;}
	operator T() const {return load();}
	T operator=(T x) {store(x); return x;}
	T operator++() {return fetch_add(1) + 1;}
	T operator++(int) {return fetch_add(1);}
	T operator--() {return fetch_sub(1) - 1;}
	T operator--(int) {return fetch_sub(1);}
	T operator+=(T x) {return fetch_add(x) + x;}
	T operator-=(T x) {return fetch_sub(x) - x;}
	bool is_lock_free() const {return true;}
private:
	atomic(const atomic&); atomic& operator=(const atomic&);
};
typedef atomic<boost::uint_fast64_t> atomic_uint_fast64_t; typedef atomic<size_t> atomic_size_t; typedef atomic<boost::int_fast32_t> atomic_int_fast32_t; typedef atomic<bool> atomic_bool;
class atomic_flag
{
public:
	bool v;
	atomic_flag() : v(false) {}
	bool test_and_set(memory_order = memory_order_seq_cst) {if (vcn_env) vcn_env(this, 2); bool o = v; v = true; if (vcn_seen) vcn_seen(this, 2, o); return o;}
	void clear(memory_order = memory_order_seq_cst) {if (vcn_env) vcn_env(this, 1); v = false; if (vcn_seen) vcn_seen(this, 1, 0);}
};
}
#endif
