// Contract of boost::container::list for the verifier: a sequence of n elements.  Element state is kept in ghost arrays
// (one per feature of the element type, see vc_feat); a few elements at a time are materialised as real objects.
#ifndef BOOST_CONTAINER_LIST_HPP
#define BOOST_CONTAINER_LIST_HPP
#include <vc.h>
#include <boost/container/container_fwd.hpp>
#include <new>
#include <iterator>
#include <stddef.h>

extern void (*vc_on_touch)(uint64_t mon); // monitor: the list is looked at or changed
extern bool vc_list_may_fail;               // adding an element may run out of memory
template<typename T> struct vc_feat; // N, save(T&, u64*), load(T*, const u64*) (construct in place), closed(list*, idx, T&)

namespace boost { namespace container {

enum {VC_SLOTS = 8};
template<typename T, typename A> class sym_list
{
public:
	typedef T value_type;
	typedef T& reference;
	typedef const T& const_reference;
	typedef size_t size_type;
	typedef ptrdiff_t difference_type;

	typedef vc_feat<T> F;
	struct slot_t {T* p; uint64_t idx; bool fresh;};
	mutable uint64_t n;
	mutable slot_t slot[VC_SLOTS];
	mutable unsigned nslot;
	mutable vc_arr_t a[F::N];
	uint64_t mon; // ghost: identifies the sym_list for the monitor

	static sym_list* last; // ghost: the list made last
	static void loop_hook(void* p) {((sym_list*) p)->close_all();}
	void init() {last = this; n = 0; nslot = 0; mon = 0; for (unsigned s = 0; s < VC_SLOTS; ++s) {slot[s].p = NULL; slot[s].idx = 0; slot[s].fresh = false;} for (unsigned i = 0; i < F::N; ++i) a[i] = vc_arr(); vc_on_loop(&loop_hook, this);}
	// ghost: an arbitrary list
	void any(const char* name) {close_all(); n = vc_u64(name); vc_assume(n < ((uint64_t) 1 << 48)); for (unsigned i = 0; i < F::N; ++i) vc_ahavoc(a[i]);}
	uint64_t feat(unsigned k, uint64_t i) const {close_all(); return vc_aget(a[k], i);}

	void close(unsigned s) const
	{
		uint64_t f[F::N];
		bool changed = slot[s].fresh;
		F::save(*slot[s].p, f);
		for (unsigned i = 0; i < F::N; ++i)
			if (!vc_must(f[i] == vc_aget(a[i], slot[s].idx)))
			{
				vc_aset(a[i], slot[s].idx, f[i]);
				changed = true;
			}
		if (changed)
			F::closed(mon, slot[s].idx, *slot[s].p);
		F::drop(slot[s].p);
		slot[s].p = NULL; slot[s].idx = 0; slot[s].fresh = false;
	}
	void close_all() const {for (unsigned s = 0; s < nslot; ++s) close(s); nslot = 0;}
	void touch() const {if (vc_on_touch) vc_on_touch(mon);}
	static void oom() {if (vc_list_may_fail && vc_split(vc_bool("out-of-memory"))) throw std::bad_alloc();}
	slot_t& open() const {if (nslot == VC_SLOTS) close_all(); return slot[nslot++];}

	T& at(uint64_t i) const
	{
		touch();
		for (unsigned s = 0; s < nslot; ++s)
			if (vc_split(slot[s].idx == i))
				return *slot[s].p;
		uint64_t f[F::N];
		for (unsigned k = 0; k < F::N; ++k)
			f[k] = vc_aget(a[k], i);
		F::loaded(mon, i, f);
		slot_t& s = open();
		s.p = F::make();
		F::load(s.p, f);
		s.idx = i;
		s.fresh = false;
		return *s.p;
	}

	class const_iterator
	{
	public:
		typedef std::bidirectional_iterator_tag iterator_category;
		typedef T value_type; typedef ptrdiff_t difference_type; typedef const T* pointer; typedef const T& reference;
		const sym_list* l; uint64_t i;
		const_iterator() : l(NULL), i(0) {}
		const_iterator(const sym_list* _l, uint64_t _i) : l(_l), i(_i) {}
		const T& operator*() const {vc_assert(i < l->n, "list: iterator dereferenced at end()"); return l->at(i);}
		const T* operator->() const {return &operator*();}
		const_iterator& operator++() {vc_assert(i < l->n, "list: iterator incremented past end()"); ++i; return *this;}
		const_iterator operator++(int) {const_iterator r(*this); ++*this; return r;}
		const_iterator& operator--() {vc_assert(i > 0, "list: iterator decremented before begin()"); --i; return *this;}
		bool operator==(const const_iterator& o) const {return i == o.i;}
		bool operator!=(const const_iterator& o) const {return i != o.i;}
	};
	class iterator
	{
	public:
		typedef std::bidirectional_iterator_tag iterator_category;
		typedef T value_type; typedef ptrdiff_t difference_type; typedef T* pointer; typedef T& reference;
		const sym_list* l; uint64_t i;
		iterator() : l(NULL), i(0) {}
		iterator(const sym_list* _l, uint64_t _i) : l(_l), i(_i) {}
		T& operator*() const {vc_assert(i < l->n, "list: iterator dereferenced at end()"); return l->at(i);}
		T* operator->() const {return &operator*();}
		iterator& operator++() {vc_assert(i < l->n, "list: iterator incremented past end()"); ++i; return *this;}
		iterator operator++(int) {iterator r(*this); ++*this; return r;}
		iterator& operator--() {vc_assert(i > 0, "list: iterator decremented before begin()"); --i; return *this;}
		operator const_iterator() const {return const_iterator(l, i);}
		bool operator==(const iterator& o) const {return i == o.i;}
		bool operator!=(const iterator& o) const {return i != o.i;}
		bool operator==(const const_iterator& o) const {return i == o.i;}
		bool operator!=(const const_iterator& o) const {return i != o.i;}
	};

	sym_list() {init();}
	explicit sym_list(size_t c)
	{
		init();
		oom();
		T* p = F::make(); new (p) T();
		uint64_t f[F::N];
		F::save(*p, f);
		F::drop(p);
		for (unsigned i = 0; i < F::N; ++i) vc_afill(a[i], 0, c, f[i]);
		n = c;
	}
	sym_list(const sym_list& o) {init(); o.close_all(); for (unsigned i = 0; i < F::N; ++i) vc_acopy(a[i], 0, o.a[i], 0, o.n); n = o.n;}
	sym_list& operator=(const sym_list& o) {close_all(); o.close_all(); for (unsigned i = 0; i < F::N; ++i) vc_acopy(a[i], 0, o.a[i], 0, o.n); n = o.n; return *this;}
	~sym_list() {clear(); vc_off_loop(this); for (unsigned i = 0; i < F::N; ++i) vc_free(a[i]);}

	iterator begin() {return iterator(this, 0);}
	iterator end() {return iterator(this, n);}
	const_iterator begin() const {return const_iterator(this, 0);}
	const_iterator end() const {return const_iterator(this, n);}
	const_iterator cbegin() const {return const_iterator(this, 0);}
	const_iterator cend() const {return const_iterator(this, n);}
	bool empty() const {touch(); return 0 == n;}
	size_t size() const {return n;}
	T& front() {vc_assert(n > 0, "list: front() of an empty list"); return at(0);}
	const T& front() const {vc_assert(n > 0, "list: front() of an empty list"); return at(0);}
	T& back() {vc_assert(n > 0, "list: back() of an empty list"); return at(n - 1);}
	const T& back() const {vc_assert(n > 0, "list: back() of an empty list"); return at(n - 1);}

	T& add_back(T* p) {touch(); slot_t& s = open(); s.p = p; s.idx = n++; s.fresh = true; return *p;}
	T& add_front(T* p)
	{
		touch();
		close_all();
		for (unsigned i = 0; i < F::N; ++i)
			vc_acopy(a[i], 1, a[i], 0, n);
		++n;
		slot_t& s = open(); s.p = p; s.idx = 0; s.fresh = true; return *p;
	}
	T& emplace_back() {oom(); T* p = F::make(); new (p) T(); return add_back(p);}
	template<typename A1> T& emplace_back(const A1& x) {oom(); T* p = F::make(); new (p) T(x); return add_back(p);}
	template<typename A1> T& emplace_back(A1& x) {oom(); T* p = F::make(); new (p) T(x); return add_back(p);}
	template<typename A1, typename B> T& emplace_back(const A1& x, const B& y) {oom(); T* p = F::make(); new (p) T(x, y); return add_back(p);}
	template<typename A1, typename B, typename C> T& emplace_back(const A1& x, const B& y, const C& z) {oom(); T* p = F::make(); new (p) T(x, y, z); return add_back(p);}
	T& emplace_front() {oom(); T* p = F::make(); new (p) T(); return add_front(p);}
	template<typename A1> T& emplace_front(const A1& x) {oom(); T* p = F::make(); new (p) T(x); return add_front(p);}
	template<typename A1> T& emplace_front(A1& x) {oom(); T* p = F::make(); new (p) T(x); return add_front(p);}
	void push_back(const T& x) {emplace_back(x);}
	void push_front(const T& x) {emplace_front(x);}

	void pop_front()
	{
		vc_assert(n > 0, "list: pop_front() of an empty list");
		close_all();
		F::removed(mon, a, 0, 1);
		shift(0, 1);
	}
	void pop_back() {vc_assert(n > 0, "list: pop_back() of an empty list"); close_all(); F::removed(mon, a, n - 1, 1); --n;}
	// remove c elements at i
	void shift(uint64_t i, uint64_t c)
	{
		touch();
		for (unsigned k = 0; k < F::N; ++k)
			vc_acopy(a[k], i, a[k], i + c, n - i - c);
		n -= c;
	}
	void clear() {touch(); close_all(); F::removed(mon, a, 0, n); n = 0;}
	void swap(sym_list& o)
	{
		touch(); o.touch(); close_all(); o.close_all();
		uint64_t t = n; n = o.n; o.n = t;
		for (unsigned i = 0; i < F::N; ++i) vc_aswap(a[i], o.a[i]);
	}
	iterator erase(const_iterator p)
	{
		vc_assert(p.l == this, "list: iterator of another list");
		vc_assert(p.i < n, "list: erase(end())");
		close_all(); F::removed(mon, a, p.i, 1);
		shift(p.i, 1);
		return iterator(this, p.i);
	}
	iterator erase(iterator p) {return erase((const_iterator) p);}
	iterator erase(const_iterator p, const_iterator q)
	{
		vc_assert(p.i <= q.i && q.i <= n, "list: invalid range");
		close_all(); F::removed(mon, a, p.i, q.i - p.i);
		shift(p.i, q.i - p.i);
		return iterator(this, p.i);
	}
	void splice_at(uint64_t i, sym_list& o, uint64_t j, uint64_t c)
	{
		touch(); o.touch(); close_all(); o.close_all();
		for (unsigned k = 0; k < F::N; ++k)
		{
			vc_acopy(a[k], i + c, a[k], i, n - i);
			vc_acopy(a[k], i, o.a[k], j, c);
		}
		n += c;
		o.shift(j, c);
	}
	void splice(const_iterator p, sym_list& o) {vc_assert(p.l == this, "list: iterator of another list"); vc_assert(this != &o, "list: self splice"); splice_at(p.i, o, 0, o.n);}
	void splice(const_iterator p, sym_list& o, const_iterator q) {splice(p, o, q, const_iterator(q.l, q.i + 1));}
	void splice(const_iterator p, sym_list& o, const_iterator q, const_iterator r)
	{
		vc_assert(p.l == this && q.l == &o && r.l == &o, "list: iterator of another list");
		vc_assert(this != &o, "list: self splice");
		vc_assert(q.i <= r.i && r.i <= o.n, "list: invalid range");
		splice_at(p.i, o, q.i, r.i - q.i);
	}
};
template<typename T, typename A> sym_list<T, A>* sym_list<T, A>::last = NULL;

// elements without a feature representation: the sequence itself, node by node (lists of known length)
template<typename T, typename A> class con_list
{
public:
	typedef T value_type; typedef T& reference; typedef const T& const_reference; typedef size_t size_type; typedef ptrdiff_t difference_type;
	struct node {node* p; node* q; T* v;};
	node h; size_t n; uint64_t mon;
	void touch() const {if (vc_on_touch) vc_on_touch(mon);}
	void init() {h.p = h.q = &h; h.v = NULL; n = 0; mon = 0;}
	template<typename U> class it
	{
	public:
		typedef std::bidirectional_iterator_tag iterator_category; typedef T value_type; typedef ptrdiff_t difference_type; typedef U* pointer; typedef U& reference;
		node* x;
		it() : x(NULL) {}
		it(node* y) : x(y) {}
		template<typename V> it(const it<V>& o) : x(o.x) {}
		U& operator*() const {vc_assert(NULL != x->v, "list: iterator dereferenced at end()"); return *x->v;}
		U* operator->() const {return &operator*();}
		it& operator++() {vc_assert(NULL != x->v, "list: iterator incremented past end()"); x = x->q; return *this;}
		it operator++(int) {it r(*this); ++*this; return r;}
		it& operator--() {x = x->p; vc_assert(NULL != x->v, "list: iterator decremented before begin()"); return *this;}
		it operator--(int) {it r(*this); --*this; return r;}
		template<typename V> bool operator==(const it<V>& o) const {return x == o.x;}
		template<typename V> bool operator!=(const it<V>& o) const {return x != o.x;}
	};
	typedef it<T> iterator; typedef it<const T> const_iterator;
	con_list() {init();}
	explicit con_list(size_t c) {init(); for (size_t i = 0; i < c; ++i) emplace_back();}
	con_list(const con_list& o) {init(); for (const_iterator i = o.begin(); i != o.end(); ++i) push_back(*i);}
	con_list& operator=(const con_list& o) {if (this != &o) {clear(); for (const_iterator i = o.begin(); i != o.end(); ++i) push_back(*i);} return *this;}
	~con_list() {clear();}
	iterator begin() {return iterator(h.q);} iterator end() {return iterator(&h);}
	const_iterator begin() const {return const_iterator(h.q);} const_iterator end() const {return const_iterator(const_cast<node*>(&h));}
	const_iterator cbegin() const {return begin();} const_iterator cend() const {return end();}
	bool empty() const {touch(); return 0 == n;}
	size_t size() const {return n;}
	T& front() {vc_assert(n > 0, "list: front() of an empty list"); return *h.q->v;}
	const T& front() const {vc_assert(n > 0, "list: front() of an empty list"); return *h.q->v;}
	T& back() {vc_assert(n > 0, "list: back() of an empty list"); return *h.p->v;}
	const T& back() const {vc_assert(n > 0, "list: back() of an empty list"); return *h.p->v;}
	T& link(node* at, T* v) {touch(); node* x = new node(); x->v = v; x->q = at; x->p = at->p; at->p->q = x; at->p = x; ++n; return *v;}
	void unlink(node* x) {touch(); x->p->q = x->q; x->q->p = x->p; --n;}
	void kill(node* x) {T* v = x->v; unlink(x); delete x; delete v;}
	static void oom() {if (vc_list_may_fail && vc_split(vc_bool("out-of-memory"))) throw std::bad_alloc();}
	T& emplace_back() {oom(); return link(&h, new T());}
	template<typename X> T& emplace_back(const X& x) {oom(); return link(&h, new T(x));}
	template<typename X> T& emplace_back(X& x) {oom(); return link(&h, new T(x));}
	template<typename X, typename B> T& emplace_back(const X& x, const B& y) {oom(); return link(&h, new T(x, y));}
	template<typename X, typename B, typename C> T& emplace_back(const X& x, const B& y, const C& z) {oom(); return link(&h, new T(x, y, z));}
	T& emplace_front() {oom(); return link(h.q, new T());}
	template<typename X> T& emplace_front(const X& x) {oom(); return link(h.q, new T(x));}
	void push_back(const T& x) {emplace_back(x);}
	void push_front(const T& x) {emplace_front(x);}
	void pop_front() {vc_assert(n > 0, "list: pop_front() of an empty list"); kill(h.q);}
	void pop_back() {vc_assert(n > 0, "list: pop_back() of an empty list"); kill(h.p);}
	void clear() {touch(); while (h.q != &h) kill(h.q);}
	iterator erase(const_iterator i) {vc_assert(NULL != i.x->v, "list: erase(end())"); node* r = i.x->q; kill(i.x); return iterator(r);}
	iterator erase(const_iterator i, const_iterator j) {while (i != j) i = erase(i); return iterator(j.x);}
	template<typename P> void remove_if(P p) {for (iterator i = begin(); i != end();) if (p(*i)) i = erase(i); else ++i;}
	void move1(node* at, con_list& o, node* x) {T* v = x->v; o.unlink(x); delete x; link(at, v);}
	void splice(const_iterator p, con_list& o, const_iterator q) {if (q.x == p.x) return; T* v = q.x->v; o.touch(); touch(); (void) v; q.x->p->q = q.x->q; q.x->q->p = q.x->p; --o.n; q.x->q = p.x; q.x->p = p.x->p; p.x->p->q = q.x; p.x->p = q.x; ++n;}
	void splice(const_iterator p, con_list& o, const_iterator q, const_iterator r) {while (q != r) {const_iterator t = q; ++q; splice(p, o, t);}}
	void splice(const_iterator p, con_list& o) {vc_assert(this != &o, "list: self splice"); splice(p, o, o.begin(), o.end());}
	void swap(con_list& o) {con_list t; t.splice(t.end(), o); o.splice(o.end(), *this); splice(end(), t);}
};

template<typename T> struct vc_has_feat
{
	template<typename U, size_t N> struct probe {};
	template<typename U> static char test(probe<U, sizeof(vc_feat<U>)>*);
	template<typename U> static char (&test(...))[2];
	enum {value = 1 == sizeof(test<T>(0))};
};
template<typename T, typename A, bool F> struct vc_list_sel {typedef sym_list<T, A> type;};
template<typename T, typename A> struct vc_list_sel<T, A, false> {typedef con_list<T, A> type;};
template<typename T, typename A> class list : public vc_list_sel<T, A, vc_has_feat<T>::value>::type
{
	typedef typename vc_list_sel<T, A, vc_has_feat<T>::value>::type super;
public:
	list() {}
	explicit list(size_t c) : super(c) {}
};

template<typename T, typename A> inline void swap(list<T, A>& a, list<T, A>& b) {a.swap(b);}

}} // namespace
#endif
