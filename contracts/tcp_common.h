// A TCP link under contract: the real tcp::socket_base over the abstract surroundings of net.h, its callbacks recorded
#ifndef TCP_COMMON_H
#define TCP_COMMON_H
#include "net.h"
#include "tcp/socket.h"
using namespace st_asio_wrapper;
typedef tcp::socket_base<boost::asio::ip::tcp::socket, vpacker, vunpacker, vqueue, list, vqueue, list> TB;
typedef TB::in_container_type ICAN; typedef TB::out_container_type OCAN; typedef list<MSG> LMSG;

// what the user sees
static unsigned n_send_error, n_recv_error, n_unpack_error, n_close, n_after_close, n_connect, n_async_shutdown_error, n_hb_error, n_msg_send, n_batch_send, n_all_send;
static boost::system::error_code send_ec, recv_ec;
static uint64_t sent_n; static ICAN* sent; // what a send notification got (copy)
static MSG sent_one, all_one;
static void copy_list(ICAN& d, const ICAN& s) {s.close_all(); d.close_all(); for (unsigned k = 0; k < ICAN::F::N; ++k) vc_acopy(d.a[k], 0, s.a[k], 0, s.n); d.n = s.n;}
class TS;
static void (*at_callback)(TS&, int) = NULL; // assertions at the time of a callback
enum {CB_SEND_ERROR, CB_RECV_ERROR, CB_UNPACK_ERROR, CB_CLOSE, CB_AFTER_CLOSE, CB_CONNECT, CB_MSG, CB_MSG_SEND, CB_ALL_SEND, CB_ON_MSG};
static uint64_t n_offered; static bool (*user_msg)(TS&, MSG&) = NULL; // the user's on_msg_handle
static size_t (*user_batch)(TS&, TB::out_queue_type&) = NULL; static size_t (*user_on_msg)(TS&, LMSG&) = NULL;
static unsigned attached, detached;
static unsigned send_depth; static bool send_modular; static bool (*send_contract)(TS&, bool) = NULL;
static uint64_t shrink_to, shrink_asked; static unsigned n_shrink, n_discard; static ICAN* discarded; // the user's calc_shrink_size, on_msg_discard
class TS : public TB
{
public:
	TS(boost::asio::io_context& c) : TB(c) {}
	virtual const char* type_name() const {return "TCP";}
	virtual int type_id() const {return 0;}
	void cb(int k) {if (at_callback) at_callback(*this, k);}
	virtual void on_send_error(const boost::system::error_code& ec, ICAN& c) {++n_send_error; send_ec = ec; copy_list(*sent, c); cb(CB_SEND_ERROR);}
	virtual void on_recv_error(const boost::system::error_code& ec) {++n_recv_error; recv_ec = ec; cb(CB_RECV_ERROR);}
	virtual void on_unpack_error() {++n_unpack_error; cb(CB_UNPACK_ERROR);}
	virtual void on_async_shutdown_error() {++n_async_shutdown_error;}
	virtual bool on_heartbeat_error() {++n_hb_error; return vc_split(vc_bool("continue-heartbeat"));}
	virtual void on_connect() {++n_connect; cb(CB_CONNECT);}
	virtual void on_close() {++n_close; cb(CB_CLOSE); TB::on_close();}
	virtual void after_close() {++n_after_close; cb(CB_AFTER_CLOSE);}
	virtual void attach_io_context(boost::asio::io_context&, unsigned r) {attached += r;}
	virtual void detach_io_context(boost::asio::io_context&, unsigned r) {detached += r;}
#ifdef ST_ASIO_DISPATCH_BATCH_MSG
	virtual size_t on_msg_handle(out_queue_type& q) {++n_offered; cb(CB_MSG); return user_batch ? user_batch(*this, q) : 0;}
#else
	virtual bool on_msg_handle(out_msg_type& m) {++n_offered; cb(CB_MSG); return user_msg ? user_msg(*this, m) : vc_split(vc_bool("handled"));}
#endif
#ifdef ST_ASIO_SYNC_DISPATCH
	virtual size_t on_msg(list<out_msg_type>& c) {cb(CB_ON_MSG); return user_on_msg(*this, c);}
#endif
#ifdef ST_ASIO_SHRINK_SEND_BUFFER
	virtual size_t calc_shrink_size(size_t z) {vc_assert(send_buffer.locked, "the queue is locked while the size to discard is decided"); ++n_shrink; shrink_asked = z; return shrink_to;}
	virtual void on_msg_discard(ICAN& c) {vc_assert(!send_buffer.locked, "the user is called without the lock"); ++n_discard; discarded = new ICAN(); copy_list(*discarded, c);}
#endif
#ifdef ST_ASIO_WANT_MSG_SEND_NOTIFY
	virtual void on_msg_send(in_msg_type& m) {++n_msg_send; sent_one.len = m.len; sent_one.tok = m.tok; cb(CB_MSG_SEND);}
#elif defined(ST_ASIO_WANT_BATCH_MSG_SEND_NOTIFY)
	virtual void on_msg_send(ICAN& c) {++n_batch_send; copy_list(*sent, c); cb(CB_MSG_SEND); if (vc_split(vc_bool("user-takes-messages"))) c.clear();}
#endif
#ifdef ST_ASIO_WANT_ALL_MSG_SEND_NOTIFY
	virtual void on_all_msg_send(in_msg_type& m) {++n_all_send; all_one.len = m.len; all_one.tok = m.tok; cb(CB_ALL_SEND);}
#endif
	virtual bool do_send_msg(bool in_strand = false)
	{
		if (send_contract && (send_modular || send_depth > 0)) return send_contract(*this, in_strand);
		++send_depth;
		bool r = TB::do_send_msg(in_strand);
		--send_depth;
		return r;
	}
	vpacker& pk() {return *(vpacker*) packer_.get();}
	vunpacker& up() {return *(vunpacker*) unpacker_.get();}
	const void* io_strand() const {return rw_strand.impl;}
	const void* d_strand() const {return dis_strand.impl;}
	boost::asio::ip::tcp::socket& sock() {return next_layer_;}
};
static boost::asio::io_context* ctx; static TS* s;
static void zero_calls() {n_send_error = n_recv_error = n_unpack_error = n_close = n_after_close = n_connect = n_async_shutdown_error = n_hb_error = n_msg_send = n_batch_send = n_all_send = 0; n_offered = 0; attached = detached = 0;}
static uint64_t st_send_msg, st_send_byte, st_recv_msg, st_recv_byte, st_last_send, st_last_recv;
static void snap_stat()
{
	st_send_msg = s->stat.send_msg_sum; st_send_byte = s->stat.send_byte_sum; st_recv_msg = s->stat.recv_msg_sum; st_recv_byte = s->stat.recv_byte_sum;
	st_last_send = s->stat.last_send_time; st_last_recv = s->stat.last_recv_time;
}
static bool same_stat() {return s->stat.send_msg_sum == st_send_msg && s->stat.send_byte_sum == st_send_byte && s->stat.recv_msg_sum == st_recv_msg && s->stat.recv_byte_sum == st_recv_byte;}
static TB::link_status any_status() {uint32_t v = vc_u32("link-status"); vc_assume(v < 5); return (TB::link_status) v;}
// a fresh link, then any history: statistics, buffers, limits
static void tcp_begin(bool any_status_too = true)
{
	net_begin();
	ctx = new boost::asio::io_context();
	s = new TS(*ctx);
	sent = new ICAN();
	s->_id = vc_u64("id");
	s->stat.send_msg_sum = vc_u64("send_msg_sum"); s->stat.send_byte_sum = vc_u64("send_byte_sum"); s->stat.recv_msg_sum = vc_u64("recv_msg_sum"); s->stat.recv_byte_sum = vc_u64("recv_byte_sum");
	s->stat.last_send_time = vc_u64("last_send"); s->stat.last_recv_time = vc_u64("last_recv");
	s->send_buffer.any_q("pending"); s->recv_buffer.any_q("received");
	s->send_buf_size_ = vc_u64("send_buf_size"); s->recv_buf_size_ = vc_u64("recv_buf_size"); vc_assume(s->send_buf_size_ > 0 && s->recv_buf_size_ > 0);
	s->msg_resuming_interval_ = vc_u32("resuming-interval"); s->msg_handling_interval_ = vc_u32("handling-interval");
	if (any_status_too) s->status = any_status();
	snap_stat();
	zero_calls();
}
static bool is_connected() {return TB::CONNECTED == s->status;}
// a pending task is do_send_msg? recognised by what it does: run in the strand, it calls do_send_msg (see send_contract)
#endif
