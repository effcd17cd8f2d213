// how elements of the library's lists are represented in the ghost arrays of the list contract
#ifndef VC_ELEM_H
#define VC_ELEM_H
#include <vc.h>
#include <string>
#include <new>
#include <utility>
extern void (*vc_on_push)(uint64_t mon, uint64_t idx, const char* data, uint64_t size);     // monitor: first view of a new element
extern void (*vc_on_load)(uint64_t mon, uint64_t idx, const uint64_t* f); // definition of / invariant assumed for an element of an arbitrary list
extern void (*vc_pos_push)(uint64_t idx, uint64_t off, uint64_t len);      // the same for lists of positions (local to the decoders)
extern const char* vc_pos_base;
extern void (*vc_pos_load)(uint64_t idx, uint64_t off, uint64_t len);
extern void (*vc_on_removed)(uint64_t mon, vc_arr_t* a, uint64_t i, uint64_t c);

template<typename T> struct vc_feat_base
{
	static T* make() {return (T*) vc_obj(sizeof(T), "list-element");}
	static void drop(T* p) {p->~T(); vc_free(p);}
	static void removed(uint64_t mon, vc_arr_t* a, uint64_t i, uint64_t c) {if (vc_on_removed) vc_on_removed(mon, a, i, c);}
	static void closed(uint64_t, uint64_t, T&) {}
	static void loaded(uint64_t mon, uint64_t idx, const uint64_t* f) {if (vc_on_load) vc_on_load(mon, idx, f);}
};

// strings: size and content token
template<> struct vc_feat<std::string> : vc_feat_base<std::string>
{
	enum {N = 2};
	static void save(std::string& s, uint64_t* f) {f[0] = s.size(); f[1] = vc_snap(s.data(), s.size());}
	static void load(std::string* p, const uint64_t* f)
	{
		new (p) std::string();
		vc_assume(f[0] < ((uint64_t) 1 << 48));
		p->resize(f[0]);
		vc_unsnap((void*) p->data(), f[0], f[1]);
	}
	static void closed(uint64_t mon, uint64_t idx, std::string& s) {if (vc_on_push) vc_on_push(mon, idx, s.data(), s.size());}
};

// positions: pointer and length
template<> struct vc_feat<std::pair<const char*, size_t> > : vc_feat_base<std::pair<const char*, size_t> >
{
	enum {N = 2};
	typedef std::pair<const char*, size_t> T;
	static void save(T& s, uint64_t* f) {extern const char* vc_pos_base; vc_pos_base = s.first; f[0] = vc_ptr_off(s.first); f[1] = s.second;}
	static void load(T* p, const uint64_t* f) {extern const char* vc_pos_base; new (p) T(vc_pos_base - vc_ptr_off(vc_pos_base) + f[0], f[1]);}
	static void closed(uint64_t, uint64_t idx, T& s) {if (vc_pos_push) vc_pos_push(idx, vc_ptr_off(s.first), s.second);}
	static void loaded(uint64_t, uint64_t idx, const uint64_t* f) {if (vc_pos_load) vc_pos_load(idx, f[0], f[1]);}
};
#endif
