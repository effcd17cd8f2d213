// Contracts: basic_buffer, string_buffer (ext/ext.h): a byte string that owns its storage
#include "common.h"
using namespace st_asio_wrapper;
using namespace st_asio_wrapper::ext;

static const uint64_t MAXSZ = UINT_MAX;
// representation: no storage and nothing in it, or cap bytes of storage, len of them used
static bool valid(const basic_buffer& b)
{
	if (NULL == b.buff)
		return vc_and(b.len == 0, b.cap == 0);
	return vc_and(vc_and(vc_region_size(b.buff) == b.cap, vc_ptr_off(b.buff) == 0), vc_and(b.len <= b.cap, b.cap > 0));
}
static void check(const basic_buffer& b)
{
	vc_assert(valid(b), "storage has the size it is said to have");
	vc_assert(NULL == b.buff || vc_is_live(b.buff), "storage is not released");
	vc_assert(b.size() == (NULL == b.buff ? 0 : b.len) && b.empty() == (b.size() == 0) && b.data() == b.buff && const_cast<basic_buffer&>(b).data() == b.buff && b.capacity() == b.cap, "accessors");
}
static void any_buf(basic_buffer& b, const char* name)
{
	if (vc_split(vc_bool("no storage")))
		return;
	uint64_t c = vc_u64("capacity"), n = vc_u64(name);
	vc_assume(c > 0 && c <= MAXSZ);
	vc_assume(n <= c);
	b.buff = vc_alloc(c, name);
	b.cap = (unsigned) c;
	b.len = (unsigned) n;
}
// ghost copy of the value
struct val
{
	uint64_t n; char* p;
	explicit val(const basic_buffer& b) : n(b.size()), p(vc_unbounded()) {if (n > 0) vc_memcpy_ghost(p, b.buff, n);}
	val(const char* s, uint64_t z) : n(z), p(vc_unbounded()) {if (n > 0) vc_memcpy_ghost(p, s, n);}
	uint8_t at(uint64_t i) const {return vc_byte(p, i);}
};
static void same(const basic_buffer& b, const val& v)
{
	uint64_t j = vc_u64("byte");
	check(b);
	vc_assert(b.size() == v.n, "size");
	vc_assert(j >= v.n || vc_byte(b.buff, j) == v.at(j), "content");
}
static void joined(const basic_buffer& b, const val& x, const val& y)
{
	uint64_t j = vc_u64("byte");
	check(b);
	vc_assert(b.size() == x.n + y.n, "size");
	if (j < x.n)
		vc_assert(vc_byte(b.buff, j) == x.at(j), "content kept");
	else if (j < x.n + y.n)
		vc_assert(vc_byte(b.buff, j) == y.at(j - x.n), "content appended");
}
static void apart(const basic_buffer& a, const basic_buffer& b) {vc_assert(NULL == a.buff || NULL == b.buff || !vc_same_object(a.buff, b.buff), "buffers do not share storage");}
// too long: refused, nothing changed
static basic_buffer* tb; static const val* tv; static bool too_long;
static void thrown(void*) {vc_assert(too_long, "refused only if too long"); same(*tb, *tv); vc_cover("refused");}
static void refuse(basic_buffer& b, const val& v, bool c) {tb = &b; tv = &v; too_long = c; vc_on_throw(&thrown, NULL);}
// C strings: strlen is right
static const char* z_str; static uint64_t z_len;
extern "C" uint64_t stub_strlen(const char* s)
{
	if (s == z_str)
		return z_len;
	uint64_t n = 0; // a literal
	while (s[n]) ++n;
	return n;
}
static char* any_z(const char* name)
{
	z_len = vc_u64(name);
	vc_assume(z_len < MAXSZ);
	char* p = vc_alloc(z_len + 1, name);
	vc_setbyte(p, z_len, 0);
	vc_readonly(p, true);
	z_str = p;
	vc_replace((void*) &strlen, (void*) &stub_strlen);
	return p;
}

// contract of reserve (proved by p06_size), for its callers
extern "C" void stub_reserve(basic_buffer* b, uint64_t n)
{
	if (n > MAXSZ)
		throw std::length_error("too big memory request");
	uint64_t c = vc_u64("new capacity");
	vc_assume(c >= n && c <= MAXSZ);
	vc_assume(c >= b->len && c > 0);
	char* p = vc_alloc(c, "grown");
	if (NULL != b->buff)
	{
		vc_memcpy_ghost(p, b->buff, b->len);
		vc_free(b->buff);
	}
	b->buff = p;
	b->cap = (unsigned) c;
}
static void modular() {vc_replace_name("12basic_buffer7reserveEm$", (void*) &stub_reserve);}

extern "C" void vc_contract_p06_append_range()
{
	modular();
	basic_buffer b;
	any_buf(b, "old");
	val v(b);
	uint64_t n = vc_u64("n");
	vc_assume(n < ((uint64_t) 1 << 40));
	const char* p;
	if (vc_split(vc_bool("own bytes")))
	{
		uint64_t off = vc_u64("from");
		vc_assume(off <= b.size());
		vc_assume(n <= b.size() - off);
		if (NULL == b.buff)
			vc_stop();
		p = b.buff + off;
	}
	else if (vc_split(vc_bool("null")))
		p = NULL;
	else
		p = vc_alloc(n, "other");
	val w(p, NULL == p ? 0 : n);
	refuse(b, v, b.size() + n > MAXSZ);
	basic_buffer* r = &b.append(p, n);
	vc_on_throw(NULL, NULL);
	vc_assert(r == &b, "returns itself");
	joined(b, v, w);
	vc_cover("appended");
}
extern "C" void vc_contract_p06_append_fill()
{
	modular();
	basic_buffer b;
	any_buf(b, "old");
	val v(b);
	uint64_t n = vc_u64("n"), j = vc_u64("byte");
	char c = (char) vc_u8("c");
	if (vc_split(vc_bool("one")))
	{
		n = 1;
		refuse(b, v, b.size() + n > MAXSZ);
		bool op = vc_split(vc_bool("operator"));
		vc_assert((op ? &(b += c) : &b.append(c)) == &b, "returns itself");
	}
	else
	{
		vc_assume(n < ((uint64_t) 1 << 40));
		refuse(b, v, b.size() + n > MAXSZ);
		vc_assert(&b.append(n, c) == &b, "returns itself");
	}
	vc_on_throw(NULL, NULL);
	check(b);
	vc_assert(b.size() == v.n + n, "size");
	if (j < v.n)
		vc_assert(vc_byte(b.buff, j) == v.at(j), "content kept");
	else if (j < v.n + n)
		vc_assert(vc_byte(b.buff, j) == (uint8_t) c, "content appended");
	vc_cover("appended");
}
extern "C" void vc_contract_p06_append_other()
{
	modular();
	basic_buffer b, o;
	any_buf(b, "old");
	any_buf(o, "other");
	val v(b), w(o);
	refuse(b, v, v.n + w.n > MAXSZ);
	bool op = vc_split(vc_bool("operator"));
	basic_buffer* r = op ? &(b += o) : &b.append(o);
	vc_on_throw(NULL, NULL);
	vc_assert(r == &b, "returns itself");
	joined(b, v, w);
	same(o, w);
	apart(b, o);
	vc_cover("appended");
}
extern "C" void vc_contract_p06_append_self()
{
	modular();
	basic_buffer b;
	any_buf(b, "old");
	val v(b);
	refuse(b, v, v.n + v.n > MAXSZ);
	bool op = vc_split(vc_bool("operator"));
	op ? b += b : b.append(b);
	vc_on_throw(NULL, NULL);
	joined(b, v, v);
	vc_cover("appended");
}
extern "C" void vc_contract_p06_append_string()
{
	modular();
	basic_buffer b;
	any_buf(b, "old");
	val v(b);
	char* s = any_z("string");
	val w(s, z_len);
	refuse(b, v, v.n + z_len > MAXSZ);
	switch (vc_fork(4))
	{
	case 0: b.append(s); break;
	case 1: b.append((const char*) s); break;
	case 2: b += s; break;
	case 3: b += (const char*) s; break;
	}
	joined(b, v, w);
	vc_cover("appended");
}
extern "C" void vc_contract_p06_append_std()
{
	modular();
	basic_buffer b;
	any_buf(b, "old");
	val v(b);
	std::string s;
	any_str(s, "string");
	val w(s.data(), s.size());
	refuse(b, v, v.n + w.n > MAXSZ);
	bool op = vc_split(vc_bool("operator"));
	op ? b += s : b.append(s);
	joined(b, v, w);
	vc_cover("appended");
}
extern "C" void vc_contract_p06_append_array()
{
	modular();
	basic_buffer b;
	any_buf(b, "old");
	val v(b);
	char a[7];
	vc_bytes(a, 7); vc_havoc_bytes(a, 7);
	const char (&ca)[7] = a;
	uint64_t n = vc_u64("n");
	val w(a, n < 7 ? n : 7);
	refuse(b, v, v.n + w.n > MAXSZ);
	bool c = vc_split(vc_bool("const"));
	vc_assume(vc_imp(c, n <= 7)); // a const array decays to a pointer
	c ? b.append(ca, n) : b.append(a, n);
	joined(b, v, w);
	vc_cover("appended");
}
extern "C" void vc_contract_p06_append2()
{
	modular();
	basic_buffer b;
	any_buf(b, "old");
	val v(b);
	if (v.n > 0 && v.at(v.n - 1) == 0)
		--v.n; // the terminating zero is replaced
	if (vc_split(vc_bool("string")))
	{
		char* s = any_z("string");
		val w(s, z_len + 1);
		vc_assume(v.n + w.n <= MAXSZ);
		b.append2(s);
		joined(b, v, w);
		vc_cover("string");
	}
	else
	{
		uint64_t n = vc_u64("n");
		vc_assume(v.n <= MAXSZ);
		vc_assume(n <= MAXSZ - v.n);
		char* s = vc_alloc(n, "range");
		val w(s, n);
		b.append2(s, n);
		joined(b, v, w);
		vc_cover("range");
	}
}

extern "C" void vc_contract_p06_construct()
{
	modular();
	char* z = any_z("string");
	val v(z, z_len), all(z, z_len + 1);
	uint64_t n = vc_u64("n");
	vc_assume(n <= MAXSZ);
	uint64_t how = vc_fork(13);
	if (0 == how) {basic_buffer b; check(b); vc_assert(b.size() == 0 && b.empty(), "empty");}
	if (1 == how) {basic_buffer b((size_t) n); check(b); vc_assert(b.size() == n, "size"); if (n > 0) vc_assert(NULL != b.buff, "storage");}
	if (2 == how) {basic_buffer b((int) n); check(b); vc_assert(b.size() == ((int) n > 0 ? (uint64_t) (int) n : 0), "size");}
	if (3 == how) {basic_buffer b((size_t) n, 'x'); uint64_t j = vc_u64("byte"); check(b); vc_assert(b.size() == n, "size"); vc_assert(j >= n || vc_byte(b.buff, j) == 'x', "content");}
	if (4 == how) {basic_buffer b(z); same(b, v);}
	if (5 == how) {basic_buffer b((const char*) z); same(b, v);}
	if (6 == how) {vc_assume(n <= z_len + 1); basic_buffer b((const char*) z, (size_t) n); all.n = n; same(b, all);}
	if (7 == how || 8 == how)
	{
		char a[7];
		vc_bytes(a, 7); vc_havoc_bytes(a, 7);
		const char (&ca)[7] = a;
		val w(a, n < 7 ? n : 7);
		if (8 == how) vc_assume(n <= 7); // a const array decays to a pointer
		if (7 == how) {basic_buffer b(a, (size_t) n); same(b, w);}
		else {basic_buffer b(ca, (size_t) n); same(b, w);}
	}
	if (9 == how) {basic_buffer o; any_buf(o, "other"); val w(o); basic_buffer b(o); same(b, w); same(o, w); apart(o, b);}
	if (10 == how) {std::string s; any_str(s, "other", MAXSZ); val w(s.data(), s.size()); basic_buffer b(s); same(b, w);}
	vc_cover("built");
}
extern "C" void vc_contract_p06_construct_part()
{
	modular();
	uint64_t pos = vc_u64("pos"), len = vc_u64("len"), n, j = vc_u64("byte");
	basic_buffer o;
	any_buf(o, "other");
	val w(o);
	bool part = vc_split(vc_bool("length given")), str = vc_split(vc_bool("std::string"));
	n = pos < w.n ? w.n - pos : 0;
	if (part && len < n)
		n = len;
	basic_buffer* b;
	if (str)
	{
		std::string s;
		if (w.n > 0)
			s.assign(o.data(), w.n);
		b = part ? new basic_buffer(s, pos, len) : new basic_buffer(s, pos);
	}
	else
		b = part ? new basic_buffer(o, pos, len) : new basic_buffer(o, pos);
	check(*b);
	vc_assert(b->size() == n, "size of the part");
	vc_assert(j >= n || vc_byte(b->buff, j) == w.at(pos + j), "content of the part");
	apart(*b, o);
	same(o, w);
	vc_cover("built");
}
extern "C" void vc_contract_p06_assign()
{
	modular();
	basic_buffer b, o;
	any_buf(b, "old");
	uint64_t how = vc_fork(10);
	if (0 == how) {any_buf(o, "other"); val w(o); vc_assert(&(b = o) == &b, "returns itself"); same(b, w); same(o, w); apart(o, b);}
	if (1 == how) {val w(b); vc_assert(&(b = b) == &b, "returns itself"); same(b, w);}
	if (2 == how) {std::string s; any_str(s, "other", MAXSZ); val w(s.data(), s.size()); vc_assert(&(b = s) == &b, "returns itself"); same(b, w);}
	if (3 == how || 4 == how) {char* z = any_z("string"); val w(z, z_len); if (3 == how) b = z; else b = (const char*) z; same(b, w);}
	if (5 == how) {b = 'c'; check(b); vc_assert(b.size() == 1 && vc_byte(b.buff, 0) == 'c', "one byte");}
	if (6 == how) {uint64_t n = vc_u64("n"); vc_assume(n <= MAXSZ); char* s = vc_alloc(n, "range"); val w(s, n); b.assign(s, n); same(b, w);}
	if (7 == how) // a part of itself
	{
		uint64_t off = vc_u64("from"), n = vc_u64("n");
		vc_assume(off <= b.size());
		vc_assume(n <= b.size() - off);
		if (NULL == b.buff) vc_stop();
		val w(b.buff + off, n);
		b.assign(b.buff + off, n);
		same(b, w);
	}
	if (8 == how) {val w(b); uint64_t n = vc_u64("n"); vc_assume(n <= MAXSZ); uint64_t j = vc_u64("byte"); b.assign(n); check(b); vc_assert(b.size() == n, "size"); vc_assert(j >= n || j >= w.n || vc_byte(b.buff, j) == w.at(j), "content kept");}
	vc_cover("assigned");
}
extern "C" void vc_contract_p06_size()
{
	basic_buffer b;
	any_buf(b, "old");
	val v(b);
	uint64_t n = vc_u64("n"), j = vc_u64("byte");
	vc_assume(n < ((uint64_t) 1 << 40));
	refuse(b, v, n > MAXSZ);
	uint64_t how = vc_fork(5);
	if (0 == how)
	{
		b.resize(n);
		vc_on_throw(NULL, NULL);
		check(b);
		vc_assert(b.size() == n, "size");
		vc_assert(j >= n || j >= v.n || vc_byte(b.buff, j) == v.at(j), "content kept");
	}
	if (1 == how) {b.reserve(n); same(b, v); vc_assert(b.cap >= n, "capacity");}
	if (2 == how) {too_long = false; b.shrink_to_fit(); same(b, v);}
	if (3 == how) {too_long = false; b.clear(); check(b); vc_assert(b.size() == 0 && b.empty(), "empty");}
	if (4 == how)
	{
		too_long = false;
		char* p = b.buff;
		b.clean();
		check(b);
		vc_assert(b.size() == 0 && NULL == b.buff && (NULL == p || !vc_is_live(p)), "storage is released");
	}
	vc_assert(b.max_size() == MAXSZ, "limit");
	vc_cover("end");
}
static uint64_t e_pos;
static void erase_thrown(void*) {vc_assert(e_pos > tv->n, "refused only behind the end"); same(*tb, *tv); vc_cover("refused");}
extern "C" void vc_contract_p06_erase()
{
	modular();
	basic_buffer b;
	any_buf(b, "old");
	val v(b);
	uint64_t n = vc_u64("n"), pos = vc_u64("pos"), j = vc_u64("byte");
	refuse(b, v, false);
	e_pos = pos;
	vc_on_throw(&erase_thrown, NULL);
	switch (vc_fork(3))
	{
	case 0: b.erase(pos, n); break;
	case 1: vc_assume(n >= UINT_MAX); b.erase(pos); break;
	case 2: vc_assume(n >= UINT_MAX && pos == 0); b.erase(); break;
	}
	vc_on_throw(NULL, NULL);
	vc_assert(pos <= v.n, "refused behind the end");
	uint64_t k = n < v.n - pos ? n : v.n - pos; // erased
	check(b);
	vc_assert(b.size() == v.n - k, "size");
	if (j < b.size())
		vc_assert(vc_byte(b.buff, j) == v.at(j < pos ? j : j + k), "content kept");
	vc_cover("erased");
}
extern "C" void vc_contract_p06_swap_release()
{
	modular();
	basic_buffer* b = new basic_buffer();
	basic_buffer o;
	any_buf(*b, "old");
	any_buf(o, "other");
	val v(*b), w(o);
	b->swap(o);
	same(*b, w); same(o, v);
	apart(*b, o);
	b->swap(*b);
	same(*b, w);
	char *p = b->buff, *q = o.buff;
	delete b;
	vc_assert(NULL == p || !vc_is_live(p), "storage is released with the buffer");
	vc_assert(NULL == q || vc_is_live(q), "and only that");
	char* a = vc_alloc(10, "attached"); // helpers for subclasses
	o.do_detach();
	vc_assert(NULL == o.buff && 0 == o.len && 0 == o.cap, "detached");
	o.do_attach(a, 3, 10);
	check(o);
	vc_assert(o.buff == a && o.size() == 3 && o.cap == 10, "attached");
	vc_cover("end");
}
extern "C" void vc_contract_p06_string_buffer()
{
	string_buffer* s = new string_buffer();
	i_buffer* b = s;
	vc_assert(b->empty() && b->size() == 0, "empty");
	uint64_t n = vc_u64("n");
	vc_assume(n < ((uint64_t) 1 << 40));
	s->resize(n);
	vc_assert(b->empty() == (n == 0) && b->size() == n && b->data() == ((std::string*) s)->data(), "the string");
	vc_cover("end");
}
