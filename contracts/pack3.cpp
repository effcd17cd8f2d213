// Contracts: delimited and fixed-length encoders, forms that take messages / lists of messages (ext/packer.h)
#include "pack_common.h"

struct ps_ctx
{
	prefix_suffix_packer* pk;
	std::string prefix, suffix;
	uint64_t pre, add; // list elements before the bodies, all framing bytes
	ps_ctx()
	{
		pk = new prefix_suffix_packer();
		any_str(prefix, "prefix"); any_str(suffix, "suffix");
		vc_assume(vc_and(suffix.size() > 0, prefix.size() + suffix.size() < ST_ASIO_MSG_BUFFER_SIZE)); // precondition of prefix_suffix()
		pk->prefix_suffix(prefix, suffix);
		pre = vc_split(prefix.size() > 0) ? 1 : 0;
		add = prefix.size() + suffix.size();
	}
};

extern "C" void vc_contract_p02_prefix_suffix_messages()
{
	ps_ctx c;
	str_snap sp(c.prefix), ss(c.suffix);
	i_packer<std::string>* ip = c.pk;
	strings can;
	can.any("pending");
	list_snap old(can, "k");
	std::string m1, m2;
	any_str(m1, "size1"); any_str(m2, "size2");
	str_snap s1(m1), s2(m2);
	bool two = vc_split(vc_bool("two")), cst = vc_split(vc_bool("const")), re;
	const std::string &c1 = m1, &c2 = m2;
	if (two)
		re = cst ? ip->pack_msg(c1, c2, can) : ip->pack_msg(m1, m2, can);
	else
		re = cst ? ip->pack_msg(c1, can) : ip->pack_msg(m1, can);
	uint64_t n = c.add + s1.n + (two ? s2.n : 0), cnt = two ? 2 : 1;
	if (re)
	{
		vc_cover("packed");
		vc_assert(n <= ST_ASIO_MSG_BUFFER_SIZE, "only messages within the limit are accepted");
		vc_assert(can.size() == old.n + c.pre + cnt + 1, "prefix, bodies and suffix are appended");
		vc_assert(old.at(can, old.k), "messages already there are untouched");
		if (c.pre)
			vc_assert(str_is(can, old.n, sp), "prefix first");
		vc_assert(str_is(can, old.n + c.pre, s1), "then the body");
		if (two)
			vc_assert(str_is(can, old.n + c.pre + 1, s2), "then the second body");
		vc_assert(str_is(can, old.n + c.pre + cnt, ss), "suffix last");
	}
	else
	{
		vc_cover("refused");
		vc_assert(n > ST_ASIO_MSG_BUFFER_SIZE, "refused only when it does not fit");
		vc_assert(can.size() == old.n && old.at(can, old.k), "a refusal leaves the list unchanged");
	}
	if (!re || cst)
		vc_assert(s1.same(m1) && s2.same(m2), "messages are left unchanged");
}

extern "C" void vc_contract_p02_prefix_suffix_list()
{
	ps_ctx c;
	str_snap sp(c.prefix), ss(c.suffix);
	i_packer<std::string>* ip = c.pk;
	strings in, out;
	in.any("in"); out.any("out");
	in.mon = 1;
	g_n = in.size();
	vc_on_load = &on_load;
	vc_assume(SUM(1, 0) == 0 && SUM(1, g_n) < ((uint64_t) 1 << 60));
	vc_invariant2(&inv_sum, NULL);
	uint64_t total = SUM(1, g_n) + c.add;
	list_snap o(out, "k"), i(in, "j");
	bool re = ip->pack_msg(in, out);
	vc_on_load = NULL;
	if (re)
	{
		vc_cover("packed");
		vc_assert(total <= ST_ASIO_MSG_BUFFER_SIZE, "only messages within the limit are accepted");
		vc_assert(out.size() == o.n + c.pre + i.n + 1, "prefix, bodies and suffix are appended");
		vc_assert(o.at(out, o.k), "messages already there are untouched");
		vc_assert(i.at(out, o.n + c.pre + i.k), "every body in order, unchanged");
		if (c.pre)
			vc_assert(str_is(out, o.n, sp), "prefix first");
		vc_assert(str_is(out, o.n + c.pre + i.n, ss), "suffix last");
		vc_assert(in.size() == 0, "messages are moved");
	}
	else
	{
		vc_cover("refused");
		vc_assert(total > ST_ASIO_MSG_BUFFER_SIZE, "refused only when it does not fit");
		vc_assert(out.size() == o.n && in.size() == i.n && o.at(out, o.k) && i.at(in, i.k), "a refusal changes nothing");
	}
}

extern "C" void vc_contract_p02_prefix_suffix_heartbeat_raw()
{
	ps_ctx c;
	i_packer<std::string>* ip = c.pk;
	std::string m;
	any_str(m, "old");
	vc_assert(ip->pack_heartbeat(m), "a heartbeat can always be packed");
	uint64_t i = vc_u64("i");
	vc_assume(i < c.add);
	vc_assert(m.size() == c.add, "a heartbeat is prefix and suffix");
	if (vc_split(i < c.prefix.size()))
		vc_assert(vc_byte(m.data(), i) == vc_byte(c.prefix.data(), i), "prefix byte of the heartbeat");
	else
		vc_assert(vc_byte(m.data(), i) == vc_byte(c.suffix.data(), i - c.prefix.size()), "suffix byte of the heartbeat");
	std::string p;
	any_str(p, "packed");
	vc_assume(p.size() >= c.add);
	const std::string& cp = p;
	vc_assert(ip->raw_data_len(cp) == p.size() - c.add, "payload length excludes the delimiters only");
	vc_assert(ip->raw_data(p) == p.data() + c.prefix.size() && ip->raw_data(cp) == p.data() + c.prefix.size(), "payload starts right after the prefix");
	vc_cover("end");
}

extern "C" void vc_contract_p02_fixed_messages()
{
	i_packer<std::string>* ip = new fixed_length_packer();
	strings can;
	can.any("pending");
	list_snap old(can, "k");
	std::string m1, m2;
	any_str(m1, "size1"); any_str(m2, "size2");
	str_snap s1(m1), s2(m2);
	bool two = vc_split(vc_bool("two")), cst = vc_split(vc_bool("const")), re;
	const std::string &c1 = m1, &c2 = m2;
	if (two)
		re = cst ? ip->pack_msg(c1, c2, can) : ip->pack_msg(m1, m2, can);
	else
		re = cst ? ip->pack_msg(c1, can) : ip->pack_msg(m1, can);
	vc_cover("packed");
	vc_assert(re, "always accepted");
	vc_assert(can.size() == old.n + (two ? 2 : 1) && old.at(can, old.k), "bodies are appended");
	vc_assert(str_is(can, old.n, s1), "body unchanged");
	if (two)
		vc_assert(str_is(can, old.n + 1, s2), "second body unchanged");
	if (cst)
		vc_assert(s1.same(m1) && s2.same(m2), "messages are left unchanged");
}

extern "C" void vc_contract_p02_fixed_list()
{
	i_packer<std::string>* ip = new fixed_length_packer();
	strings in, out; // callers pass an empty list to fill
	in.any("in");
	list_snap i(in, "j");
	bool re = ip->pack_msg(in, out);
	vc_cover("packed");
	vc_assert(re && out.size() == i.n && i.at(out, i.k), "every body in order, unchanged");
	vc_assert(in.size() == 0, "messages are moved");
}
