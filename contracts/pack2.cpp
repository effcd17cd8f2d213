// Contracts: message framing, sender side: the forms that take messages / lists of messages (ext/packer.h)
#include "pack_common.h"

template<typename M> static void msg1()
{
	packer<>* pk = new packer<>();
	i_packer<std::string>* ip = pk;
	strings can;
	can.any("pending");
	std::string m;
	any_str(m, "size");
	str_snap s(m);
	list_snap old(can, "k");
	M& mm = m;
	bool re = ip->pack_msg(mm, can);
	if (re)
	{
		vc_cover("packed");
		vc_assert(s.n <= limit(), "only messages within the limit are accepted");
		vc_assert(can.size() == old.n + 2, "header and message are appended");
		vc_assert(old.at(can, old.k), "messages already there are untouched");
		vc_assert(head_is(can, old.n, s.n + ST_ASIO_HEAD_LEN), "header carries the total length");
		vc_assert(str_is(can, old.n + 1, s), "the message follows its header unchanged");
	}
	else
	{
		vc_cover("refused");
		vc_assert(s.n > limit(), "a message is refused only when it does not fit");
		vc_assert(can.size() == old.n && old.at(can, old.k), "a refused message leaves the list unchanged");
	}
	if (!re || sizeof(M) != sizeof(std::string))
		vc_assert(s.same(m), "the message is left unchanged");
}
extern "C" void vc_contract_p01_packer_msg_list() {msg1<std::string>(); vc_cover("end");}
extern "C" void vc_contract_p01_packer_cmsg_list()
{
	packer<>* pk = new packer<>();
	i_packer<std::string>* ip = pk;
	strings can;
	std::string m;
	any_str(m, "size");
	str_snap s(m);
	const std::string& mm = m;
	bool re = ip->pack_msg(mm, can);
	vc_assert(s.same(m), "a constant message is left unchanged");
	vc_assert(re == (s.n <= limit()), "refused exactly when it does not fit");
	if (re)
	{
		vc_cover("packed");
		vc_assert(can.size() == 2 && head_is(can, 0, s.n + ST_ASIO_HEAD_LEN) && str_is(can, 1, s), "header, then the message");
	}
	else
		vc_assert(can.size() == 0, "a refused message leaves the list unchanged");
}

extern "C" void vc_contract_p01_packer_msg2_list()
{
	packer<>* pk = new packer<>();
	i_packer<std::string>* ip = pk;
	strings can;
	can.any("pending");
	std::string m1, m2;
	any_str(m1, "size1"); any_str(m2, "size2");
	str_snap s1(m1), s2(m2);
	list_snap old(can, "k");
	bool cst = vc_split(vc_bool("const"));
	bool re;
	if (cst)
	{
		const std::string &c1 = m1, &c2 = m2;
		re = ip->pack_msg(c1, c2, can);
	}
	else
		re = ip->pack_msg(m1, m2, can);
	uint64_t n = s1.n + s2.n;
	if (re)
	{
		vc_cover("packed");
		vc_assert(n <= limit(), "only messages within the limit are accepted");
		vc_assert(can.size() == old.n + 3, "header and both messages are appended");
		vc_assert(old.at(can, old.k), "messages already there are untouched");
		vc_assert(head_is(can, old.n, n + ST_ASIO_HEAD_LEN), "header carries the total length");
		vc_assert(str_is(can, old.n + 1, s1), "first message follows the header unchanged");
		vc_assert(str_is(can, old.n + 2, s2), "second message follows the first unchanged");
	}
	else
	{
		vc_cover("refused");
		vc_assert(n > limit(), "a message is refused only when it does not fit");
		vc_assert(can.size() == old.n && old.at(can, old.k), "refused messages leave the list unchanged");
	}
	if (!re || cst)
		vc_assert(s1.same(m1) && s2.same(m2), "messages are left unchanged");
}

extern "C" void vc_contract_p01_packer_list_list()
{
	packer<>* pk = new packer<>();
	i_packer<std::string>* ip = pk;
	strings in, out;
	in.any("in"); out.any("out");
	in.mon = 1;
	g_n = in.size();
	vc_on_load = &on_load;
	vc_assume(SUM(1, 0) == 0 && SUM(1, g_n) < ((uint64_t) 1 << 60));
	vc_invariant2(&inv_sum, NULL);
	uint64_t total = SUM(1, g_n);
	list_snap o(out, "k"), i(in, "j");
	bool re = ip->pack_msg(in, out);
	vc_on_load = NULL;
	if (re)
	{
		vc_cover("packed");
		vc_assert(total <= limit(), "only messages within the limit are accepted");
		vc_assert(out.size() == o.n + 1 + i.n, "header and all messages are appended");
		vc_assert(o.at(out, o.k), "messages already there are untouched");
		vc_assert(i.at(out, o.n + 1 + i.k), "every message follows the header in order, unchanged");
		vc_assert(head_is(out, o.n, total + ST_ASIO_HEAD_LEN), "header carries the total length");
		vc_assert(in.size() == 0, "messages are moved");
	}
	else
	{
		vc_cover("refused");
		vc_assert(total > limit(), "refused only when it does not fit");
		vc_assert(out.size() == o.n && in.size() == i.n && o.at(out, o.k) && i.at(in, i.k), "a refusal changes nothing");
	}
}

extern "C" void vc_contract_p01_packer_heartbeat_raw()
{
	packer<>* pk = new packer<>();
	i_packer<std::string>* ip = pk;
	std::string m;
	any_str(m, "old");
	vc_assert(ip->pack_heartbeat(m), "a heartbeat can always be packed");
	vc_assert(m.size() == ST_ASIO_HEAD_LEN && be_head(m.data()) == ST_ASIO_HEAD_LEN, "a heartbeat is a header announcing an empty body");
	std::string h2;
	vc_assert(ip->pack_heartbeat(h2) && h2.size() == ST_ASIO_HEAD_LEN && be_head(h2.data()) == ST_ASIO_HEAD_LEN, "heartbeats can be packed again");
	// the payload of a packed message
	std::string p;
	any_str(p, "packed");
	vc_assume(p.size() >= ST_ASIO_HEAD_LEN);
	const std::string& cp = p;
	vc_assert(ip->raw_data_len(cp) == p.size() - ST_ASIO_HEAD_LEN, "payload length excludes the header only");
	vc_assert(ip->raw_data(p) == p.data() + ST_ASIO_HEAD_LEN && ip->raw_data(cp) == p.data() + ST_ASIO_HEAD_LEN, "payload starts right after the header");
	vc_assert(packer<>::get_max_msg_size() == limit(), "advertised maximum");
	vc_cover("end");
}

// single string forms delegate to the array form
extern "C" void vc_contract_p01_packer_single()
{
	packer<>* pk = new packer<>();
	i_packer<std::string>* ip = pk;
	std::string m, b;
	any_str(b, "size");
	str_snap s(b);
	bool native = vc_split(vc_bool("native"));
	uint64_t j = vc_u64("j");
	uint8_t B = vc_byte(b.data(), j);
	bool re = vc_split(vc_bool("form")) ? ip->pack_msg(m, b, native) : ip->pack_msg(m, b.data(), b.size(), native);
	uint64_t pre = native ? 0 : ST_ASIO_HEAD_LEN, total = pre + s.n;
	if (re)
	{
		vc_cover("packed");
		vc_assert(total <= ST_ASIO_MSG_BUFFER_SIZE && (m.size() == total || (s.n == 0 && m.size() == 0)) && vc_imp(j < s.n, vc_byte(m.data(), pre + j) == B), "body in place");
		if (!native)
			vc_assert(vc_imp(m.size() > 0, be_head(m.data()) == total), "header carries the total length");
	}
	else
	{
		vc_cover("refused");
		vc_assert(total > (native ? ST_ASIO_MSG_BUFFER_SIZE : max_packed()), "refused only when it does not fit");
	}
	vc_assert(s.same(b), "the source is unchanged");
}

