// queued messages: obj_with_begin_time<std::string>: size, content [, begin time]
#ifndef FEAT_MSG_H
#define FEAT_MSG_H
typedef st_asio_wrapper::obj_with_begin_time<std::string> QMSG;
template<> struct vc_feat<QMSG> : vc_feat_base<QMSG>
{
#ifdef ST_ASIO_FULL_STATISTIC
	enum {N = 3};
#else
	enum {N = 2};
#endif
	static void save(QMSG& s, uint64_t* f)
	{
		f[0] = s.size(); f[1] = vc_snap(s.data(), s.size());
#ifdef ST_ASIO_FULL_STATISTIC
		f[2] = s.begin_time.time_since_epoch().count();
#endif
	}
	static void load(QMSG* p, const uint64_t* f)
	{
		new (p) QMSG();
		vc_assume(f[0] < ((uint64_t) 1 << 48));
		p->resize(f[0]);
		vc_unsnap((void*) p->data(), f[0], f[1]);
#ifdef ST_ASIO_FULL_STATISTIC
		p->begin_time = st_asio_wrapper::statistic::stat_time(boost::chrono::system_clock::duration((int64_t) f[2]));
#endif
	}
	static void closed(uint64_t mon, uint64_t idx, QMSG& s) {if (vc_on_push) vc_on_push(mon, idx, s.data(), s.size());}
};
#endif
