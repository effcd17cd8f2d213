// list elements: a replaceable buffer (unique_buffer / shared_buffer of a string)
#ifndef FEAT_BUF_H
#define FEAT_BUF_H
#ifdef UNP_UNIQUE
typedef unique_buffer<std::string> BUF;
#else
typedef shared_buffer<std::string> BUF;
#endif
template<> struct vc_feat<BUF> : vc_feat_base<BUF>
{
	enum {N = 3};
	static void save(BUF& b, uint64_t* f) {f[0] = b.raw_buffer() ? 1 : 0; f[1] = b.size(); f[2] = f[0] ? vc_snap(b.data(), b.size()) : 0;}
	static void load(BUF* p, const uint64_t* f)
	{
		vc_assume(f[1] < ((uint64_t) 1 << 48));
		std::string* s = new std::string();
		s->resize(f[1]);
		vc_unsnap((void*) s->data(), f[1], f[2]);
		new (p) BUF(s);
	}
	static void closed(uint64_t mon, uint64_t idx, BUF& s) {vc_assert(s.raw_buffer() != NULL, "a delivered message exists"); if (vc_on_push) vc_on_push(mon, idx, s.data(), s.size());}
};
#endif
