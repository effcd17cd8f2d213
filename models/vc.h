// The contract language: ghost operations the verifier (vc/engine.py) gives a meaning to.
#ifndef VC_H
#define VC_H
#include <stddef.h>
#include <stdint.h>
extern "C" {
uint64_t vc_u64(const char* name); uint32_t vc_u32(const char* name); uint16_t vc_u16(const char* name); uint8_t vc_u8(const char* name);
bool vc_bool(const char* name);                       // arbitrary values
void vc_assume(bool c);                               // precondition of the contract
void vc_assert(bool c, const char* name);             // postcondition: a named obligation
void vc_cover(const char* name);                      // must be reachable (vacuity guard)
void vc_stop();
char* vc_alloc(uint64_t n, const char* name);         // n bytes of arbitrary content
char* vc_unbounded();                                 // ghost bytes, no limit
void* vc_obj(uint64_t n, const char* name);           // structured object
void vc_bytes(const void* p, uint64_t n);
void vc_resize(const void* p, uint64_t n);            // ghost: change the size of the region p points into
uint64_t vc_region_size(const void* p);
void vc_readonly(const void* p, bool b);
uint8_t vc_byte(const void* p, uint64_t off);         // ghost read
void vc_setbyte(const void* p, uint64_t off, uint8_t v);
void vc_memcpy_ghost(void* d, const void* s, uint64_t n);
void vc_check_range(const void* p, uint64_t n, const char* name); // precondition of a dependency: n bytes accessible
typedef struct vc_arr_s* vc_arr_t;
vc_arr_t vc_arr(); uint64_t vc_aget(vc_arr_t a, uint64_t i); void vc_aset(vc_arr_t a, uint64_t i, uint64_t v);
void vc_acopy(vc_arr_t d, uint64_t di, vc_arr_t s, uint64_t si, uint64_t n); void vc_ahavoc(vc_arr_t a); void vc_afill(vc_arr_t a, uint64_t i, uint64_t n, uint64_t v); void vc_aswap(vc_arr_t a, vc_arr_t b);
void vc_havoc_bytes(void* p, uint64_t n);
uint64_t vc_uf1(const char* f, uint64_t a); uint64_t vc_uf2(const char* f, uint64_t a, uint64_t b);
uint64_t vc_fork(uint64_t n);                         // one path per value
bool vc_split(bool c);                                // case split
typedef bool (*vc_inv_t)(void*);
typedef bool (*vc_inv1_t)(void*, uint64_t);
void vc_invariant(vc_inv_t f, void* ctx);             // loop invariant candidate over the abstract state
void vc_invariant1(vc_inv1_t f, void* ctx);           // ... relating it to one value the loop changes
typedef bool (*vc_inv2_t)(void*, uint64_t, uint64_t);
void vc_invariant2(vc_inv2_t f, void* ctx);
void vc_invariant_b(vc_inv2_t f, void* ctx);           // ... the first value is a flag (tried with both polarities)
void vc_invariants_clear();
typedef void (*vc_hook_t)(void*);
void vc_on_loop(vc_hook_t f, void* ctx); void vc_off_loop(void* ctx);
void vc_on_throw(vc_hook_t f, void* ctx);             // exceptional postcondition (NULL: nothing may be thrown)
void vc_lazy(const void* p, void* f, void* ctx);
uint64_t vc_ptr_off(const void* p); bool vc_same_object(const void* a, const void* b); bool vc_is_live(const void* p);
void vc_free(void* p);
void vc_replace(void* fn, void* stub); bool vc_replace_name(const char* mangled, void* stub);
void vc_log(const char* s, ...);
bool vc_is_concrete(uint64_t v); bool vc_must(bool c);
uint64_t vc_snap(const void* p, uint64_t n);          // content token of n bytes
void vc_unsnap(void* p, uint64_t n, uint64_t token);  // write the content back
bool vc_and(bool a, bool b); bool vc_or(bool a, bool b); bool vc_not(bool a); bool vc_imp(bool a, bool b); // strict connectives: no case split
uint64_t vc_ite(bool c, uint64_t a, uint64_t b);
uint64_t vc_div(uint64_t a, uint64_t b);              // exact quotient, b constant
void vc_unroll_hint(uint64_t n);
void vc_cut(bool b);                                  // cut loops without trying to unroll
}
#endif
