// Contracts of external (precompiled) dependencies, as executable specifications for the verifier.
#include <vc.h>
#include <string.h>

void (*vc_on_touch)(uint64_t) = 0;
bool vc_list_may_fail = false;
void (*vc_on_push)(uint64_t, uint64_t, const char*, uint64_t) = 0;
void (*vc_on_removed)(uint64_t, vc_arr_t*, uint64_t, uint64_t) = 0;
const char* vc_pos_base = 0;
void (*vc_pos_push)(uint64_t, uint64_t, uint64_t) = 0;
void (*vc_pos_load)(uint64_t, uint64_t, uint64_t) = 0;
void (*vc_on_load)(uint64_t, uint64_t, const uint64_t*) = 0;

// std::string: p points to n + 1 bytes, p[n] == 0.  Growth keeps the address (a real std::string may move: pointers into
// a string that has been appended to are not tracked as dangling).
struct S {char* p; uint64_t n; char sso[16];};
#define STR(x) __asm__("_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE" x)
#define STRK(x) __asm__("_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE" x)
static const uint64_t MAXS = (uint64_t) 1 << 62;

static void mk(S* s) {s->p = vc_alloc(1, "std::string"); s->n = 0; vc_setbyte(s->p, 0, 0);}
static void setlen(S* s, uint64_t n) {vc_resize(s->p, n + 1); vc_setbyte(s->p, n, 0); s->n = n;}
static void app(S* s, const char* b, uint64_t n)
{
	vc_check_range(b, n, "std::string: source range readable");
	uint64_t o = s->n;
	vc_assert(n < MAXS - o, "std::string: length_error");
	vc_resize(s->p, o + n + 1);
	vc_memcpy_ghost(s->p + o, b, n);
	vc_setbyte(s->p, o + n, 0);
	s->n = o + n;
}
static void set(S* s, const char* b, uint64_t n)
{
	vc_check_range(b, n, "std::string: source range readable");
	vc_assert(n < MAXS, "std::string: length_error");
	if (vc_same_object(s->p, b))
	{
		char* t = vc_alloc(n, "tmp");
		vc_memcpy_ghost(t, b, n);
		vc_resize(s->p, n + 1);
		vc_memcpy_ghost(s->p, t, n);
		vc_free(t);
	}
	else
	{
		vc_resize(s->p, n + 1);
		vc_memcpy_ghost(s->p, b, n);
	}
	vc_setbyte(s->p, n, 0);
	s->n = n;
}

extern "C" {
void s_ctor(S* s) STR("C1Ev"); void s_ctor(S* s) {mk(s);}
void s_ctor2(S* s) STR("C2Ev"); void s_ctor2(S* s) {mk(s);}
void s_ctor_z(S* s, const char* b, const void* a) STR("C1EPKcRKS3_"); void s_ctor_z(S* s, const char* b, const void* a) {mk(s); app(s, b, strlen(b));}
void s_ctor_z2(S* s, const char* b, const void* a) STR("C2EPKcRKS3_"); void s_ctor_z2(S* s, const char* b, const void* a) {mk(s); app(s, b, strlen(b));}
void s_ctor_z3(S* s, const char* b, const void* a) STR("C2IS3_EEPKcRKS3_"); void s_ctor_z3(S* s, const char* b, const void* a) {mk(s); app(s, b, strlen(b));}
void s_ctor_n(S* s, const char* b, uint64_t n, const void* a) STR("C1EPKcmRKS3_"); void s_ctor_n(S* s, const char* b, uint64_t n, const void* a) {mk(s); app(s, b, n);}
void s_ctor_n2(S* s, const char* b, uint64_t n, const void* a) STR("C2EPKcmRKS3_"); void s_ctor_n2(S* s, const char* b, uint64_t n, const void* a) {mk(s); app(s, b, n);}
void s_copy(S* s, const S* o) STR("C1ERKS4_"); void s_copy(S* s, const S* o) {mk(s); app(s, o->p, o->n);}
void s_copy2(S* s, const S* o) STR("C2ERKS4_"); void s_copy2(S* s, const S* o) {mk(s); app(s, o->p, o->n);}
void s_move(S* s, S* o) STR("C1EOS4_"); void s_move(S* s, S* o) {s->p = o->p; s->n = o->n; mk(o);}
void s_move2(S* s, S* o) STR("C2EOS4_"); void s_move2(S* s, S* o) {s->p = o->p; s->n = o->n; mk(o);}
void s_dtor(S* s) STR("D1Ev"); void s_dtor(S* s) {vc_free(s->p);}
void s_dtor2(S* s) STR("D2Ev"); void s_dtor2(S* s) {vc_free(s->p);}
uint64_t s_size(const S* s) STRK("4sizeEv"); uint64_t s_size(const S* s) {return s->n;}
uint64_t s_length(const S* s) STRK("6lengthEv"); uint64_t s_length(const S* s) {return s->n;}
uint64_t s_capacity(const S* s) STRK("8capacityEv"); uint64_t s_capacity(const S* s) {uint64_t c = vc_u64("string-capacity"); vc_assume(c >= s->n && c < MAXS); return c;}
uint64_t s_max_size(const S* s) STRK("8max_sizeEv"); uint64_t s_max_size(const S* s) {return MAXS;}
bool s_empty(const S* s) STRK("5emptyEv"); bool s_empty(const S* s) {return 0 == s->n;}
const char* s_data(const S* s) STRK("4dataEv"); const char* s_data(const S* s) {return s->p;}
char* s_datam(S* s) STR("4dataEv"); char* s_datam(S* s) {return s->p;}
const char* s_cstr(const S* s) STRK("5c_strEv"); const char* s_cstr(const S* s) {return s->p;}
char* s_begin(S* s) STR("5beginEv"); char* s_begin(S* s) {return s->p;}
char* s_end(S* s) STR("3endEv"); char* s_end(S* s) {return s->p + s->n;}
const char* s_cbegin(const S* s) STRK("5beginEv"); const char* s_cbegin(const S* s) {return s->p;}
const char* s_cend(const S* s) STRK("3endEv"); const char* s_cend(const S* s) {return s->p + s->n;}
char* s_idx(S* s, uint64_t i) STR("ixEm"); char* s_idx(S* s, uint64_t i) {vc_assert(i <= s->n, "std::string: index"); return s->p + i;}
const char* s_cidx(const S* s, uint64_t i) STRK("ixEm"); const char* s_cidx(const S* s, uint64_t i) {vc_assert(i <= s->n, "std::string: index"); return s->p + i;}
void s_clear(S* s) STR("5clearEv"); void s_clear(S* s) {setlen(s, 0);}
void s_reserve(S* s, uint64_t n) STR("7reserveEm"); void s_reserve(S* s, uint64_t n) {vc_assert(n < MAXS, "std::string: length_error");}
void s_reserve0(S* s) STR("7reserveEv"); void s_reserve0(S* s) {}
void s_shrink(S* s) STR("13shrink_to_fitEv"); void s_shrink(S* s) {}
void s_resize_c(S* s, uint64_t n, char c) STR("6resizeEmc");
void s_resize_c(S* s, uint64_t n, char c)
{
	uint64_t o = s->n;
	vc_assert(n < MAXS, "std::string: length_error");
	vc_resize(s->p, n + 1);
	if (n > o)
		memset(s->p + o, c, n - o);
	vc_setbyte(s->p, n, 0);
	s->n = n;
}
void s_resize(S* s, uint64_t n) STR("6resizeEm"); void s_resize(S* s, uint64_t n) {s_resize_c(s, n, 0);}
S* s_app(S* s, const char* b, uint64_t n) STR("6appendEPKcm"); S* s_app(S* s, const char* b, uint64_t n) {app(s, b, n); return s;}
S* s_appz(S* s, const char* b) STR("6appendEPKc"); S* s_appz(S* s, const char* b) {app(s, b, strlen(b)); return s;}
S* s_apps(S* s, const S* o) STR("6appendERKS4_"); S* s_apps(S* s, const S* o) {app(s, o->p, o->n); return s;}
S* s_appc(S* s, uint64_t n, char c) STR("6appendEmc"); S* s_appc(S* s, uint64_t n, char c) {s_resize_c(s, s->n + n, c); return s;}
S* s_pes(S* s, const S* o) STR("pLERKS4_"); S* s_pes(S* s, const S* o) {app(s, o->p, o->n); return s;}
S* s_pez(S* s, const char* b) STR("pLEPKc"); S* s_pez(S* s, const char* b) {app(s, b, strlen(b)); return s;}
S* s_pec(S* s, char c) STR("pLEc"); S* s_pec(S* s, char c) {s_resize_c(s, s->n + 1, c); return s;}
void s_pb(S* s, char c) STR("9push_backEc"); void s_pb(S* s, char c) {s_resize_c(s, s->n + 1, c);}
S* s_asn(S* s, const char* b, uint64_t n) STR("6assignEPKcm"); S* s_asn(S* s, const char* b, uint64_t n) {set(s, b, n); return s;}
S* s_asz(S* s, const char* b) STR("6assignEPKc"); S* s_asz(S* s, const char* b) {set(s, b, strlen(b)); return s;}
S* s_ass(S* s, const S* o) STR("6assignERKS4_"); S* s_ass(S* s, const S* o) {if (s != o) set(s, o->p, o->n); return s;}
S* s_eqs(S* s, const S* o) STR("aSERKS4_"); S* s_eqs(S* s, const S* o) {if (s != o) set(s, o->p, o->n); return s;}
S* s_eqz(S* s, const char* b) STR("aSEPKc"); S* s_eqz(S* s, const char* b) {set(s, b, strlen(b)); return s;}
S* s_eqc(S* s, char c) STR("aSEc"); S* s_eqc(S* s, char c) {setlen(s, 0); s_resize_c(s, 1, c); return s;}
S* s_erase(S* s, uint64_t pos, uint64_t n) STR("5eraseEmm");
S* s_erase(S* s, uint64_t pos, uint64_t n)
{
	vc_assert(pos <= s->n, "std::string: out_of_range");
	uint64_t m = n < s->n - pos ? n : s->n - pos;
	memmove(s->p + pos, s->p + pos + m, s->n - pos - m);
	setlen(s, s->n - m);
	return s;
}
void s_swap(S* s, S* o) STR("4swapERS4_"); void s_swap(S* s, S* o) {char* p = s->p; s->p = o->p; o->p = p; uint64_t n = s->n; s->n = o->n; o->n = n;}
void s_ctor_a(S* s, const void*) STR("C1ERKS3_"); void s_ctor_a(S* s, const void*) {mk(s);}
void s_ctor_a2(S* s, const void*) STR("C2ERKS3_"); void s_ctor_a2(S* s, const void*) {mk(s);}
void s_ga(void* r, const S* s) STRK("13get_allocatorEv"); void s_ga(void* r, const S* s) {}
void ss_str(S* r, const void*) __asm__("_ZNKSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv");
void ss_str(S* r, const void*)
{
	uint64_t n = vc_u64("text");
	vc_assume(n < ((uint64_t) 1 << 40));
	r->p = vc_alloc(n + 1, "std::string");
	vc_setbyte(r->p, n, 0);
	r->n = n;
}
char s_dummy;
// members of the object model
bool vc_string_valid(const S* s) {return s->n < MAXS;}
}

// pthread mutexes: the first word tells whether the mutex is held (not recursive).  A contract runs alone: lock() on a held mutex never returns.
unsigned vc_locks_held = 0;
extern "C" {
int pthread_mutex_init(unsigned* m, const void*) {*m = 0; return 0;}
int pthread_mutex_destroy(unsigned* m) {vc_assert(0 == *m, "a mutex is destroyed unlocked"); return 0;}
int pthread_mutex_lock(unsigned* m) {vc_assert(0 == *m, "lock: not already held (deadlock)"); *m = 1; ++vc_locks_held; return 0;}
int pthread_mutex_unlock(unsigned* m) {vc_assert(1 == *m, "unlock: held"); *m = 0; --vc_locks_held; return 0;}
}

// the standard exceptions: what() is some text
static void ex_dtor(void*) {}
static const char* ex_what(void*) {return "what";}
#define EX(x) void* vt_##x[5] __asm__("_ZTVSt" #x) = {0, 0, (void*) &ex_dtor, (void*) &ex_dtor, (void*) &ex_what}; const char* what_##x(void*) __asm__("_ZNKSt" #x "4whatEv"); const char* what_##x(void*) {return "what";}
EX(12length_error) EX(12out_of_range) EX(13runtime_error) EX(11logic_error) EX(16invalid_argument) EX(9bad_alloc) EX(9exception) EX(14overflow_error) EX(17bad_function_call)

// libc searches: what is found is what was searched for (that it is the first one is not said)
extern "C" size_t strnlen(const char* p, size_t n)
{
	uint64_t r = vc_u64("strnlen");
	vc_assume(r <= n);
	vc_check_range(p, vc_ite(r < n, r + 1, n), "strnlen: range readable");
	vc_assume(vc_imp(r < n, 0 == vc_byte(p, r)));
	return r;
}
extern "C" void* vc_memchr(const void* p, int c, size_t n) __asm__("memchr");
extern "C" void* vc_memchr(const void* p, int c, size_t n)
{
	vc_check_range(p, n, "memchr: range readable");
	uint64_t r = vc_u64("memchr");
	vc_assume(r <= n);
	vc_assume(vc_imp(r < n, (uint8_t) c == vc_byte(p, r)));
	return vc_split(r == n) ? NULL : (char*) p + r;
}
