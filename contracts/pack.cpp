// Contracts: message framing, sender side (ext/packer.h)
#include "common.h"
#include "ext/packer.h"
using namespace st_asio_wrapper;
using namespace st_asio_wrapper::ext;

struct pack_ctx
{
	uint64_t num, k, j, B, pre; // string k, byte j of it, its value
	uint64_t kind, i, B2, all; // what precedes the bodies: 0 nothing, 1 header, 2 prefix with byte i == B2
	bool havepre;
	std::string* msg;
};

static uint64_t P(uint64_t i) {return vc_uf1("prefix_sum", i);}
static uint64_t L(uint64_t i) {return vc_uf1("len", i);}
static uint64_t plus(uint64_t a, uint64_t b) {return vc_ite(a + b < a, (uint64_t) -1, a + b);} // lengths may add up to more than 64 bits hold
static const uint64_t HUGE_LEN = (uint64_t) 1 << 40;
static bool nul(uint64_t i) {return vc_uf1("is_null", i) == 1;}

// element i of the caller's pointer array
extern "C" const char* hook_pstr(pack_ctx* c, uint64_t off)
{
	uint64_t i = vc_div(off, sizeof(char*));
	vc_assume(P(i + 1) == plus(P(i), nul(i) ? 0 : L(i)));
	vc_assume(vc_imp(i < c->num, vc_and(P(i) <= P(i + 1), P(i + 1) <= P(c->num))));
	vc_assume(vc_imp(c->k < i, P(c->k + 1) <= P(i)));
	if (vc_split(nul(i)))
		return NULL;
	char* p = vc_alloc(vc_ite(L(i) < HUGE_LEN, L(i), HUGE_LEN), "caller-string"); // claimed lengths beyond that do not fit anyway
	vc_assume(vc_imp(vc_and(i == c->k, c->j < L(i)), vc_byte(p, c->j) == c->B));
	return p;
}
extern "C" uint64_t hook_len(pack_ctx* c, uint64_t off) {return L(vc_div(off, sizeof(size_t)));}

// invariants over the abstract state; x: a value the loop changes
static bool inv_total(void* p, uint64_t x) {pack_ctx* c = (pack_ctx*) p; return x <= c->num;}
static bool inv_sum(void* p, uint64_t x, uint64_t y) {pack_ctx* c = (pack_ctx*) p; return vc_and(vc_and(x <= c->num, P(x) <= ST_ASIO_MSG_BUFFER_SIZE), y == c->pre + P(x));}
static bool inv_sum_suf(void* p, uint64_t x, uint64_t y) {pack_ctx* c = (pack_ctx*) p; return vc_and(vc_and(x <= c->num, P(x) <= ST_ASIO_MSG_BUFFER_SIZE), y == c->all + P(x));}
static bool content(pack_ctx* c, uint64_t x)
{
	return vc_and(c->msg->size() == c->pre + P(x), vc_imp(vc_and(vc_and(c->k < x, !nul(c->k)), c->j < L(c->k)), vc_byte(c->msg->data(), c->pre + P(c->k) + c->j) == c->B));
}
static bool inv_content(void* p, uint64_t x)
{
	pack_ctx* c = (pack_ctx*) p;
	if (1 == c->kind)
		return vc_and(be_head(c->msg->data()) == c->pre + P(c->num), content(c, x));
	if (2 == c->kind)
		return vc_and(vc_imp(c->havepre, vc_byte(c->msg->data(), c->i) == c->B2), content(c, x));
	return content(c, x);
}

// caller's arrays and the invariants for packing them behind c.pre bytes
static void setup(pack_ctx& c, std::string& msg, const char**& pstr, size_t*& len)
{
	c.num = vc_u64("num");
	vc_assume(c.num < ((uint64_t) 1 << 40));
	c.k = vc_u64("k"); c.j = vc_u64("j"); c.B = vc_u8("B");
	vc_assume(c.k < c.num);
	vc_assume(vc_and(!nul(c.k), c.j < L(c.k)));
	vc_assume(P(0) == 0);
	vc_assume(P(c.k + 1) == plus(P(c.k), L(c.k)));
	vc_assume(vc_and(P(c.k) <= P(c.k + 1), P(c.k + 1) <= P(c.num)));
	c.msg = &msg;
	pstr = (const char**) vc_obj(c.num * sizeof(char*), "pstr");
	len = (size_t*) vc_obj(c.num * sizeof(size_t), "len");
	vc_lazy(pstr, (void*) &hook_pstr, &c);
	vc_lazy(len, (void*) &hook_len, &c);
	vc_invariant1(&inv_total, &c);
	vc_invariant2(&inv_sum, &c);
	vc_invariant1(&inv_content, &c);
}

extern "C" void vc_contract_p01_packer_pack_msg()
{
	packer<>* pk = new packer<>();
	std::string msg;
	any_str(msg, "old");
	pack_ctx c;
	const char** pstr; size_t* len;
	bool native = vc_split(vc_bool("native"));
	c.kind = native ? 0 : 1;
	c.pre = native ? 0 : ST_ASIO_HEAD_LEN;
	setup(c, msg, pstr, len);
	i_packer<std::string>* ip = pk;
	bool re = ip->pack_msg(msg, pstr, len, c.num, native);
	uint64_t total = plus(c.pre, P(c.num));
	if (re)
	{
		vc_cover("packed");
		vc_assert(total <= ST_ASIO_MSG_BUFFER_SIZE, "only messages within the limit are accepted");
		vc_assert(msg.size() == total, "packed size is header plus all bodies");
		vc_assert(vc_byte(msg.data(), c.pre + P(c.k) + c.j) == c.B, "every body byte is in place");
		if (!native)
			vc_assert(be_head(msg.data()) == total, "header carries the total length, big endian");
	}
	else
	{
		vc_cover("refused");
		vc_assert(total > (native ? ST_ASIO_MSG_BUFFER_SIZE : max_packed()), "a message is refused only when it does not fit");
	}
}

// nothing to pack: no entry at all, or only missing / empty ones
extern "C" void vc_contract_p01_packer_pack_nothing()
{
	packer<>* pk = new packer<>();
	i_packer<std::string>* ip = pk;
	std::string msg;
	any_str(msg, "old");
	uint64_t n = vc_fork(3);
	const char* pstr[2];
	size_t len[2];
	for (unsigned i = 0; i < n; ++i)
	{
		bool missing = vc_split(vc_bool("missing"));
		pstr[i] = missing ? NULL : vc_alloc(1, "s");
		len[i] = missing ? vc_u64("junk") : 0;
	}
	bool re = ip->pack_msg(msg, pstr, len, n, vc_split(vc_bool("native")));
	vc_assert(vc_imp(re, msg.size() == 0 || (msg.size() == ST_ASIO_HEAD_LEN && be_head(msg.data()) == ST_ASIO_HEAD_LEN)), "no bytes are invented");
	vc_assert(re, "an empty message is not an error");
	vc_assert(!ip->pack_msg(msg, NULL, len, 1) && !ip->pack_msg(msg, pstr, NULL, 1), "missing arrays are refused");
	vc_cover("end");
}

extern "C" void vc_contract_p02_prefix_suffix_pack_msg()
{
	prefix_suffix_packer* pk = new prefix_suffix_packer();
	std::string msg, prefix, suffix;
	any_str(msg, "old");
	any_str(prefix, "prefix"); any_str(suffix, "suffix");
	vc_assume(vc_and(suffix.size() > 0, prefix.size() + suffix.size() < ST_ASIO_MSG_BUFFER_SIZE)); // precondition of prefix_suffix()
	pk->prefix_suffix(prefix, suffix);
	vc_assert(str_snap(prefix).same(pk->prefix()) && str_snap(suffix).same(pk->suffix()), "delimiters are stored");
	pack_ctx c;
	const char** pstr; size_t* len;
	bool native = vc_split(vc_bool("native"));
	c.kind = native ? 0 : 2;
	c.pre = native ? 0 : prefix.size();
	c.i = vc_u64("i"); c.B2 = vc_byte(prefix.data(), c.i);
	vc_assume(vc_imp(prefix.size() > 0, c.i < prefix.size()));
	c.havepre = prefix.size() > 0;
	uint64_t s = vc_u64("s"); vc_assume(s < suffix.size());
	uint8_t B3 = vc_byte(suffix.data(), s);
	setup(c, msg, pstr, len);
	if (!native) vc_invariant2(&inv_sum_suf, &c);
	c.all = prefix.size() + suffix.size();
	i_packer<std::string>* ip = pk;
	bool re = ip->pack_msg(msg, pstr, len, c.num, native);
	uint64_t total = plus(P(c.num), native ? 0 : prefix.size() + suffix.size());
	if (re)
	{
		vc_cover("packed");
		vc_assert(total <= ST_ASIO_MSG_BUFFER_SIZE, "only messages within the limit are accepted");
		vc_assert(msg.size() == total, "packed size is prefix, bodies and suffix");
		vc_assert(vc_byte(msg.data(), c.pre + P(c.k) + c.j) == c.B, "every body byte is in place");
		if (!native)
		{
			vc_assert(vc_imp(c.havepre, vc_byte(msg.data(), c.i) == c.B2), "prefix comes first");
			vc_assert(vc_byte(msg.data(), c.pre + P(c.num) + s) == B3, "suffix comes last");
		}
	}
	else
	{
		vc_cover("refused");
		vc_assert(total > ST_ASIO_MSG_BUFFER_SIZE, "a message is refused only when it does not fit");
	}
}

extern "C" void vc_contract_p02_fixed_pack_msg()
{
	fixed_length_packer* pk = new fixed_length_packer();
	std::string msg;
	any_str(msg, "old");
	pack_ctx c;
	const char** pstr; size_t* len;
	bool native = vc_split(vc_bool("native"));
	c.kind = 0;
	c.pre = 0;
	setup(c, msg, pstr, len);
	i_packer<std::string>* ip = pk;
	bool re = ip->pack_msg(msg, pstr, len, c.num, native);
	uint64_t total = P(c.num);
	if (re)
	{
		vc_cover("packed");
		vc_assert(total <= ST_ASIO_MSG_BUFFER_SIZE && msg.size() == total, "packed size is that of the bodies");
		vc_assert(vc_byte(msg.data(), P(c.k) + c.j) == c.B, "every body byte is in place");
	}
	else
	{
		vc_cover("refused");
		vc_assert(total > ST_ASIO_MSG_BUFFER_SIZE, "a message is refused only when it does not fit");
	}
}
