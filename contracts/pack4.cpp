// Contracts: packer2, the encoder for messages held by reference (ext/packer.h)
#include "common.h"
#include "ext/packer.h"
using namespace st_asio_wrapper;
using namespace st_asio_wrapper::ext;
typedef unique_buffer<i_buffer> B;

// list elements: present?, size, content
template<> struct vc_feat<B> : vc_feat_base<B>
{
	enum {N = 3};
	static void save(B& b, uint64_t* f) {f[0] = b.raw_buffer() ? 1 : 0; f[1] = b.size(); f[2] = f[0] ? vc_snap(b.data(), b.size()) : 0;}
	static void load(B* p, const uint64_t* f)
	{
		if (vc_split(f[0] == 0))
		{
			vc_assume(f[1] == 0);
			new (p) B();
			return;
		}
		vc_assume(f[1] < ((uint64_t) 1 << 48));
		string_buffer* s = new string_buffer();
		s->resize(f[1]);
		vc_unsnap((void*) s->std::string::data(), f[1], f[2]);
		new (p) B(s);
	}
};
typedef st_asio_wrapper::list<B> buffers;

static uint64_t limit() {return max_packed() - ST_ASIO_HEAD_LEN;}
static uint64_t g_n;
static void on_load(uint64_t mon, uint64_t i, const uint64_t* f)
{
	vc_assume(vc_and(f[0] <= 1, vc_imp(f[0] == 0, vc_and(f[1] == 0, f[2] == 0))));
	if (1 == mon)
	{
		vc_assume(SUM(1, i + 1) == SUM(1, i) + f[1]);
		vc_assume(vc_imp(i < g_n, vc_and(SUM(1, i) <= SUM(1, i + 1), SUM(1, i + 1) <= SUM(1, g_n))));
	}
}
static bool inv_sum(void* p, uint64_t x, uint64_t y) {return vc_and(x <= g_n, y == SUM(1, x));}

struct buf_snap
{
	uint64_t has, n, tok;
	buf_snap(B& b) : has(b.raw_buffer() ? 1 : 0), n(b.size()), tok(has ? vc_snap(b.data(), b.size()) : 0) {}
	bool same(B& b) const {buf_snap o(b); return vc_and(o.n == n, vc_imp(n > 0, o.tok == tok));}
	bool at(buffers& l, uint64_t i) const {return vc_and(l.feat(1, i) == n, vc_imp(n > 0, l.feat(2, i) == tok));}
};
static void any_buf(B& b, const char* name)
{
	if (vc_split(vc_bool("null")))
		return;
	string_buffer* s = new string_buffer();
	any_str(*s, name);
	b.raw_buffer(s);
}
struct list_snap
{
	uint64_t n, k, f[3];
	list_snap(buffers& l, const char* nm) : n(l.size()), k(vc_u64(nm)) {for (unsigned i = 0; i < 3; ++i) f[i] = l.feat(i, k);}
	bool at(buffers& l, uint64_t i) const {return vc_imp(k < n, vc_and(l.feat(1, i) == f[1], vc_imp(f[1] > 0, l.feat(2, i) == f[2])));}
};
static bool head_is(buffers& l, uint64_t i, uint64_t v)
{
	B& h = l.at(i);
	return vc_and(h.size() == ST_ASIO_HEAD_LEN, be_head(h.data()) == v);
}

extern "C" void vc_contract_p01_packer2_messages()
{
	i_packer<B>* ip = new packer2<>();
	buffers can;
	can.any("pending");
	list_snap old(can, "k");
	B m1, m2;
	any_buf(m1, "size1"); any_buf(m2, "size2");
	buf_snap s1(m1), s2(m2);
	bool two = vc_split(vc_bool("two"));
	bool re = two ? ip->pack_msg(m1, m2, can) : ip->pack_msg(m1, can);
	uint64_t n = s1.n + (two ? s2.n : 0);
	if (re)
	{
		vc_cover("packed");
		vc_assert(n <= limit(), "only messages within the limit are accepted");
		vc_assert(can.size() == old.n + (two ? 3 : 2) && old.at(can, old.k), "header and messages are appended");
		vc_assert(head_is(can, old.n, n + ST_ASIO_HEAD_LEN), "header carries the total length");
		vc_assert(s1.at(can, old.n + 1), "the message follows its header unchanged");
		if (two)
			vc_assert(s2.at(can, old.n + 2), "second message follows the first unchanged");
	}
	else
	{
		vc_cover("refused");
		vc_assert(n > limit(), "refused only when it does not fit");
		vc_assert(can.size() == old.n && old.at(can, old.k) && s1.same(m1) && s2.same(m2), "a refusal changes nothing");
	}
}

extern "C" void vc_contract_p01_packer2_list()
{
	i_packer<B>* ip = new packer2<>();
	buffers in, out;
	in.any("in"); out.any("out");
	in.mon = 1;
	g_n = in.size();
	vc_on_load = &on_load;
	vc_assume(SUM(1, 0) == 0 && SUM(1, g_n) < ((uint64_t) 1 << 60));
	vc_invariant2(&inv_sum, NULL);
	uint64_t total = SUM(1, g_n);
	list_snap o(out, "k"), i(in, "j");
	bool re = ip->pack_msg(in, out);
	vc_on_load = NULL;
	if (re)
	{
		vc_cover("packed");
		vc_assert(total <= limit(), "only messages within the limit are accepted");
		vc_assert(out.size() == o.n + 1 + i.n && in.size() == 0, "header and all messages are appended");
		vc_assert(o.at(out, o.k), "messages already there are untouched");
		vc_assert(i.at(out, o.n + 1 + i.k), "every message follows the header in order, unchanged");
		vc_assert(head_is(out, o.n, total + ST_ASIO_HEAD_LEN), "header carries the total length");
	}
	else
	{
		vc_cover("refused");
		vc_assert(total > limit(), "refused only when it does not fit");
		vc_assert(out.size() == o.n && in.size() == i.n && o.at(out, o.k) && i.at(in, i.k), "a refusal changes nothing");
	}
}

// the array form: by the contract of the encoder it wraps (proved in pack.cpp)
static const char* const* g_pstr; static const size_t* g_len; static size_t g_num; static bool g_native, g_ok, g_called;
static uint64_t g_size, g_tok;
extern "C" bool stub_pack(void* self, std::string* msg, const char* const* pstr, const size_t* len, size_t num, bool native)
{
	vc_assert(pstr == g_pstr && len == g_len && num == g_num && native == g_native, "arguments are passed on");
	vc_assert(!g_called, "packed once");
	g_called = true;
	any_str(*msg, "packed");
	str_snap s(*msg);
	g_size = s.n; g_tok = s.tok;
	return g_ok;
}

extern "C" void vc_contract_p01_packer2_array()
{
	vc_replace_name("_ZN15st_asio_wrapper3ext6packerINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEE8pack_msgERS7_PKPKcPKmmb", (void*) &stub_pack);
	i_packer<B>* ip = new packer2<>();
	B m;
	any_buf(m, "old");
	buf_snap s(m);
	const char* ps[1] = {NULL}; size_t ls[1];
	g_pstr = ps; g_len = ls; g_num = vc_u64("num"); g_native = vc_bool("native"); g_ok = vc_split(vc_bool("ok")); g_called = false;
	bool re = ip->pack_msg(m, ps, ls, g_num, g_native);
	vc_assert(re == g_ok && g_called, "result of the wrapped encoder");
	if (re)
	{
		vc_assert(m.size() == g_size && vc_snap(m.data(), m.size()) == g_tok, "message is what the wrapped encoder produced");
		vc_cover("packed");
	}
}

extern "C" void vc_contract_p01_packer2_heartbeat_raw()
{
	i_packer<B>* ip = new packer2<>();
	B m;
	any_buf(m, "old");
	vc_assert(ip->pack_heartbeat(m), "a heartbeat can always be packed");
	vc_assert(m.size() == ST_ASIO_HEAD_LEN && be_head(m.data()) == ST_ASIO_HEAD_LEN, "a heartbeat is a header announcing an empty body");
	string_buffer* p = new string_buffer();
	any_str(*p, "packed");
	vc_assume(p->size() >= ST_ASIO_HEAD_LEN);
	B b(p);
	const B& cb = b;
	vc_assert(ip->raw_data_len(cb) == p->size() - ST_ASIO_HEAD_LEN, "payload length excludes the header only");
	vc_assert(ip->raw_data(b) == p->data() + ST_ASIO_HEAD_LEN && ip->raw_data(cb) == p->data() + ST_ASIO_HEAD_LEN, "payload starts right after the header");
	vc_assert(packer2<>::get_max_msg_size() == limit(), "advertised maximum");
	vc_cover("end");
}
