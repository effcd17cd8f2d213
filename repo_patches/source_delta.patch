From fa28396d20fe67719c799e969e6ca0734d3ee660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:37 +0000
Subject: [PATCH 01/11] fix: refuse messages the length header cannot express
 in packer's msg/list overloads

---
 include/ext/packer.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/ext/packer.h b/include/ext/packer.h
index 969e1cc..6c6da78 100644
--- a/include/ext/packer.h
+++ b/include/ext/packer.h
@@ -64,7 +64,12 @@ private:
 	typedef i_packer<T> super;
 
 public:
-	static size_t get_max_msg_size() {return ST_ASIO_MSG_BUFFER_SIZE - ST_ASIO_HEAD_LEN;}
+	//besides ST_ASIO_MSG_BUFFER_SIZE, the header's range also limits the message size
+	static size_t get_max_msg_size()
+	{
+		size_t max_head = (ST_ASIO_HEAD_TYPE) -1;
+		return (ST_ASIO_MSG_BUFFER_SIZE < max_head ? ST_ASIO_MSG_BUFFER_SIZE : max_head) - ST_ASIO_HEAD_LEN;
+	}
 
 	packer() {ST_ASIO_HEAD_TYPE head_len = packer_helper::pack_header(0); heartbeat.assign((const char*) &head_len, ST_ASIO_HEAD_LEN);}
 
-- 
2.43.0


From 18c188188c41e6dc5adcb901848c33998c1de580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:06 +0000
Subject: [PATCH 02/11] fix: build basic_buffer from a part of another buffer,
 instead of a repeated character

---
 include/ext/ext.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ext/ext.h b/include/ext/ext.h
index 4707bf4..b17a590 100644
--- a/include/ext/ext.h
+++ b/include/ext/ext.h
@@ -88,7 +88,7 @@ public:
 	{
 		do_detach();
 		if (pos < other.size())
-			append(boost::next(other.size(), pos), pos + len > other.size() ? other.size() - pos : len);
+			append(boost::next(other.data(), pos), std::min((size_t) (other.size() - pos), len));
 	}
 
 	inline basic_buffer& operator=(char c) {resize(0); return operator+=(c);}
-- 
2.43.0


From 2859aa6b7953f510b7021514f931e7abc109dcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:06 +0000
Subject: [PATCH 03/11] fix: assign and append basic_buffer to itself

---
 include/ext/ext.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/ext/ext.h b/include/ext/ext.h
index b17a590..c5514c5 100644
--- a/include/ext/ext.h
+++ b/include/ext/ext.h
@@ -94,7 +94,7 @@ public:
 	inline basic_buffer& operator=(char c) {resize(0); return operator+=(c);}
 	inline basic_buffer& operator=(char* buff) {resize(0); return operator+=(buff);}
 	inline basic_buffer& operator=(const char* buff) {resize(0); return operator+=(buff);}
-	inline basic_buffer& operator=(const basic_buffer& other) {resize(0); return operator+=(other);}
+	inline basic_buffer& operator=(const basic_buffer& other) {if (this != &other) {resize(0); append(other);} return *this;}
 	template<typename Buff> inline basic_buffer& operator=(const Buff& other) {resize(0); return operator+=(other);}
 
 	inline basic_buffer& operator+=(char c) {return append(c);}
@@ -131,9 +131,16 @@ public:
 
 			size_t capacity = len + _len;
 			if (capacity > cap)
+			{
+				//the appended data may reside in this buffer, then it will be relocated too
+				bool inside = NULL != buff && !std::less<const char*>()(_buff, buff) && std::less<const char*>()(_buff, boost::next(buff, cap));
+				size_t offset = inside ? _buff - buff : 0;
 				reserve(capacity);
+				if (inside)
+					_buff = boost::next(buff, offset);
+			}
 
-			memcpy(boost::next(buff, len), _buff, _len);
+			memmove(boost::next(buff, len), _buff, _len);
 			len += (unsigned) _len;
 		}
 
-- 
2.43.0


From 1226902848350aac883be926b2a6f3db4d806f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:06 +0000
Subject: [PATCH 04/11] fix: delete the last '\0' in append2(const char*) too,
 as documented

---
 include/ext/ext.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ext/ext.h b/include/ext/ext.h
index c5514c5..da13bcb 100644
--- a/include/ext/ext.h
+++ b/include/ext/ext.h
@@ -167,7 +167,7 @@ public:
 		printf("%zu\n", bb.size()); //the final length of bb is 13, just include the last '\0' character, all middle '\0' characters have been deleted.
 	*/
 	//by the way, deleting the last character which is not '\0' before appending another string is very efficient, please use it freely.
-	basic_buffer& append2(const char* buff) {return append(buff, strlen(buff) + 1);} //include the '\0' character
+	basic_buffer& append2(const char* buff) {return append2(buff, strlen(buff) + 1);} //include the '\0' character
 	basic_buffer& append2(const char* _buff, size_t _len)
 	{
 		if (len > 0 && '\0' == *boost::next(buff, len - 1))
-- 
2.43.0


From 24a0b524961791207b57f86e3b2ba14ad98252b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:23 +0000
Subject: [PATCH 05/11] fix: return a value from
 obj_with_begin_time::operator=(obj_with_begin_time&)

---
 include/base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/base.h b/include/base.h
index c6dbbd0..d595310 100644
--- a/include/base.h
+++ b/include/base.h
@@ -551,7 +551,7 @@ template<typename T> struct obj_with_begin_time : public T
 	obj_with_begin_time(const obj_with_begin_time& other) : T(other), begin_time(other.begin_time) {}
 	obj_with_begin_time(obj_with_begin_time& other) {swap(other);} //after this call, other becomes empty, please note.
 	obj_with_begin_time& operator=(const obj_with_begin_time& other) {T::operator=(other); begin_time = other.begin_time; return *this;}
-	obj_with_begin_time& operator=(obj_with_begin_time& other) {clear(); swap(other);} //after this call, other becomes empty, please note.
+	obj_with_begin_time& operator=(obj_with_begin_time& other) {clear(); swap(other); return *this;} //after this call, other becomes empty, please note.
 
 	void restart() {restart(statistic::now());}
 	void restart(const typename statistic::stat_time& begin_time_) {begin_time = begin_time_;}
-- 
2.43.0


From ce25589d07cfb2ee3d7e0c567ac56031c3923302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:23 +0000
Subject: [PATCH 06/11] fix: keep the minimum when durations without samples or
 zero durations are merged

---
 include/base.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/base.h b/include/base.h
index d595310..e5b2d31 100644
--- a/include/base.h
+++ b/include/base.h
@@ -349,7 +349,7 @@ struct statistic
 
 			if (max_duration < other)
 				max_duration = other;
-			if (0 == min_duration.count() || min_duration > other)
+			if (1 == num || min_duration > other)
 				min_duration = other;
 
 			return *this;
@@ -361,7 +361,7 @@ struct statistic
 
 			if (max_duration < other.max_duration)
 				max_duration = other.max_duration;
-			if (0 == min_duration.count() || min_duration > other.min_duration)
+			if (other.num > 0 && (num == other.num || min_duration > other.min_duration))
 				min_duration = other.min_duration;
 
 			return *this;
-- 
2.43.0


From b449e15c2eaf2a9fab4e56e418d5c0286540b4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:10 +0000
Subject: [PATCH 07/11] fix: zero durations on reset (a default constructed
 boost duration is not initialized in c++98)

---
 include/base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/base.h b/include/base.h
index e5b2d31..cde7fdf 100644
--- a/include/base.h
+++ b/include/base.h
@@ -340,7 +340,7 @@ struct statistic
 
 		duration() {reset();}
 		super get_avg() const {return 0 == num ? super(*this) : *this / num;}
-		void reset() {super::operator=(min_duration = max_duration = super()); num = 0;}
+		void reset() {super::operator=(min_duration = max_duration = super::zero()); num = 0;}
 
 		duration& operator+=(const super& other)
 		{
-- 
2.43.0


From 010458abb440b64f0340fd523d39ea5f6d65b852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:41 +0000
Subject: [PATCH 08/11] fix: run TCP read and write completion handlers in
 rw_strand

Converting the bound handler to boost::function dropped its associated
executor, so recv_handler and send_handler ran outside of rw_strand.
---
 include/tcp/socket.h              | 6 +++---
 include/tcp/websocket/websocket.h | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/tcp/socket.h b/include/tcp/socket.h
index 6452f5f..3e6b8e4 100644
--- a/include/tcp/socket.h
+++ b/include/tcp/socket.h
@@ -26,7 +26,7 @@ public:
 	typedef boost::function<void(const boost::system::error_code& ec, size_t bytes_transferred)> ReadWriteCallBack;
 
 protected:
-	bool async_read(const ReadWriteCallBack& call_back)
+	template<typename CallBack> bool async_read(const CallBack& call_back) //don't convert call_back to boost::function, its associated executor (rw_strand) will be lost
 	{
 		BOOST_AUTO(recv_buff, ST_THIS unpacker()->prepare_next_recv());
 		assert(boost::asio::buffer_size(recv_buff) > 0);
@@ -50,8 +50,8 @@ protected:
 		return boost::asio::detail::default_max_transfer_size;
 #endif
 	}
-	template<typename Buffer>
-	void async_write(const Buffer& msg_can, const ReadWriteCallBack& call_back) {boost::asio::async_write(ST_THIS next_layer(), msg_can, call_back);}
+	template<typename Buffer, typename CallBack>
+	void async_write(const Buffer& msg_can, const CallBack& call_back) {boost::asio::async_write(ST_THIS next_layer(), msg_can, call_back);}
 
 private:
 	size_t completion_checker(const boost::system::error_code& ec, size_t bytes_transferred)
diff --git a/include/tcp/websocket/websocket.h b/include/tcp/websocket/websocket.h
index c6e13fa..ab4d2e6 100644
--- a/include/tcp/websocket/websocket.h
+++ b/include/tcp/websocket/websocket.h
@@ -52,7 +52,7 @@ public:
 public:
 	template<class... Args> explicit stream(Args&&... args) : super(std::forward<Args>(args)...) {first_init();}
 
-	void async_read(const ReadWriteCallBack& call_back) {super::async_read(recv_buff, call_back);}
+	template<typename CallBack> void async_read(const CallBack& call_back) {super::async_read(recv_buff, CallBack(call_back));}
 	template<typename OutMsgType> bool parse_msg(list<OutMsgType>& msg_can)
 	{
 #if BOOST_VERSION < 107000
@@ -65,7 +65,7 @@ public:
 
 		return re;
 	}
-	template<typename Buffer> void async_write(const Buffer& buff, const ReadWriteCallBack& call_back) {super::async_write(buff, call_back);}
+	template<typename Buffer, typename CallBack> void async_write(const Buffer& buff, const CallBack& call_back) {super::async_write(buff, CallBack(call_back));}
 
 protected:
 	//helper function, just call it in constructor
-- 
2.43.0


From 60183b51990cb9a937a302953d49e43d3c37b107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:57 +0000
Subject: [PATCH 09/11] fix: execute a copy of the timer callback, it may be
 replaced while it is being executed

---
 include/timer.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/timer.h b/include/timer.h
index 65957c7..3415059 100644
--- a/include/timer.h
+++ b/include/timer.h
@@ -172,13 +172,15 @@ protected:
 	}
 	bool start_timer(timer_info& ti) {return start_timer(ti, ti.interval_ms);}
 
+	//call_back may be replaced (via change_timer_call_back or set_timer) while it's being executed, so execute a copy of it
+	bool invoke_call_back(timer_info& ti) {BOOST_AUTO(call_back, ti.call_back); return call_back(ti.id);}
 	void timer_handler(const boost::system::error_code& ec, timer_info& ti, unsigned char prev_seq)
 	{
 		//the first 'timer_info::TIMER_STARTED == ti.status' judgement means stop_timer can also invalidate cumulative timer callbacks
 		//the second 'timer_info::TIMER_STARTED == ti.status' judgement is used to exclude a particular situation--stop the same timer in call_back and return true
 #ifdef ST_ASIO_ALIGNED_TIMER
 		BOOST_AUTO(begin_time, boost::chrono::system_clock::now());
-		if (timer_info::TIMER_STARTED == ti.status && !ec && ti.call_back(ti.id) && timer_info::TIMER_STARTED == ti.status)
+		if (timer_info::TIMER_STARTED == ti.status && !ec && invoke_call_back(ti) && timer_info::TIMER_STARTED == ti.status)
 		{
 			unsigned elapsed_ms = (unsigned) boost::chrono::duration_cast<boost::chrono::milliseconds>(boost::chrono::system_clock::now() - begin_time).count();
 			if (elapsed_ms > ti.interval_ms)
@@ -187,7 +189,7 @@ protected:
 			start_timer(ti, ti.interval_ms - elapsed_ms);
 		}
 #else
-		if (timer_info::TIMER_STARTED == ti.status && !ec && ti.call_back(ti.id) && timer_info::TIMER_STARTED == ti.status)
+		if (timer_info::TIMER_STARTED == ti.status && !ec && invoke_call_back(ti) && timer_info::TIMER_STARTED == ti.status)
 			start_timer(ti);
 #endif
 		else if (prev_seq == ti.seq) //exclude a particular situation--start the same timer in call_back and return false
-- 
2.43.0


From b21a831c7c8ee00799f32b6cfd04ae9589629520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:54 +0000
Subject: [PATCH 10/11] fix: aligned timers with interval 0 divided by zero

---
 include/timer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/timer.h b/include/timer.h
index 3415059..98f2257 100644
--- a/include/timer.h
+++ b/include/timer.h
@@ -184,7 +184,7 @@ protected:
 		{
 			unsigned elapsed_ms = (unsigned) boost::chrono::duration_cast<boost::chrono::milliseconds>(boost::chrono::system_clock::now() - begin_time).count();
 			if (elapsed_ms > ti.interval_ms)
-				elapsed_ms %= ti.interval_ms;
+				elapsed_ms = ti.interval_ms > 0 ? elapsed_ms % ti.interval_ms : 0;
 
 			start_timer(ti, ti.interval_ms - elapsed_ms);
 		}
-- 
2.43.0


From 324a4c382b261c03c017c8d9016ef7e0f64057a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:54 +0000
Subject: [PATCH 11/11] fix: ignore an expiration that has been on its way when
 the timer was restarted

---
 include/timer.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/timer.h b/include/timer.h
index 98f2257..bbed4a2 100644
--- a/include/timer.h
+++ b/include/timer.h
@@ -176,6 +176,9 @@ protected:
 	bool invoke_call_back(timer_info& ti) {BOOST_AUTO(call_back, ti.call_back); return call_back(ti.id);}
 	void timer_handler(const boost::system::error_code& ec, timer_info& ti, unsigned char prev_seq)
 	{
+		if (prev_seq != ti.seq) //this timer has been restarted after this expiration (which cannot be canceled any more at that time)
+			return;
+
 		//the first 'timer_info::TIMER_STARTED == ti.status' judgement means stop_timer can also invalidate cumulative timer callbacks
 		//the second 'timer_info::TIMER_STARTED == ti.status' judgement is used to exclude a particular situation--stop the same timer in call_back and return true
 #ifdef ST_ASIO_ALIGNED_TIMER
-- 
2.43.0

