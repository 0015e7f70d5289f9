From 1014f7389d088904de66a65970166210054da6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:15 +0000
Subject: [PATCH 01/52] fix: RingBuf::search reports a match on the first byte
 at offset 0

---
 source/cyCore/core/cyc_ring_buf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyCore/core/cyc_ring_buf.cpp b/source/cyCore/core/cyc_ring_buf.cpp
index 09df78a..5ea1b1e 100644
--- a/source/cyCore/core/cyc_ring_buf.cpp
+++ b/source/cyCore/core/cyc_ring_buf.cpp
@@ -135,7 +135,7 @@ ssize_t RingBuf::search(size_t off, uint8_t data) const
 		const uint8_t* p = (uint8_t*)memchr(m_buf + read_off, (int)data, n);
 		if (p != nullptr) {
 			size_t pos = (size_t)(std::ptrdiff_t)(p - m_buf);
-			return (pos > m_read) ? (ssize_t)(pos - m_read) : (ssize_t)(pos + m_end - m_read);
+			return (pos >= m_read) ? (ssize_t)(pos - m_read) : (ssize_t)(pos + m_end - m_read);
 		}
 
 		read_off += n;
-- 
2.43.0


From 813f3195da78f7ef381c5fcfbad7940a20f7a199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:16 +0000
Subject: [PATCH 02/52] fix: RingBuf::peek and checksum no longer overflow on a
 huge count

---
 source/cyCore/core/cyc_ring_buf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cyCore/core/cyc_ring_buf.cpp b/source/cyCore/core/cyc_ring_buf.cpp
index 5ea1b1e..e25077d 100644
--- a/source/cyCore/core/cyc_ring_buf.cpp
+++ b/source/cyCore/core/cyc_ring_buf.cpp
@@ -153,7 +153,7 @@ size_t RingBuf::peek(size_t off, void* dst, size_t count) const
 {
 	size_t bytes_used = size();
 	if (off > bytes_used) return 0;
-	if (off + count > bytes_used) count = bytes_used - off;
+	if (count > bytes_used - off) count = bytes_used - off;
 	if (count == 0 || dst == 0) return 0;
 
 	char* cdst = (char*)dst;
@@ -368,7 +368,7 @@ uint32_t RingBuf::checksum(size_t off, size_t count) const
 
 	size_t bytes_used = size();
 	if (off > bytes_used) return adler;
-	if (off + count > bytes_used) return adler;
+	if (count > bytes_used - off) return adler;
 	if (count == 0) return adler;
 
 	size_t read_off = (m_read + off) % m_end;
-- 
2.43.0


From f4242e81c6fd75d69d998187dae1838128a32277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:16 +0000
Subject: [PATCH 03/52] fix: RingBuf::resize gives at least the requested
 capacity

---
 source/cyCore/core/cyc_ring_buf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cyCore/core/cyc_ring_buf.cpp b/source/cyCore/core/cyc_ring_buf.cpp
index e25077d..bf883ca 100644
--- a/source/cyCore/core/cyc_ring_buf.cpp
+++ b/source/cyCore/core/cyc_ring_buf.cpp
@@ -34,7 +34,7 @@ void RingBuf::resize(size_t need_size)
 
 	//auto inc size
 	size_t new_size = 2;
-	while (new_size < need_size) new_size *= 2;
+	while (new_size < need_size + 1) new_size *= 2; //one byte is used for detecting the full condition
 
 	//copy old data
 	size_t old_size = size();
@@ -55,7 +55,7 @@ void RingBuf::resize(size_t need_size)
 void RingBuf::memcpy_into(const void *src, size_t count)
 {
 	if (get_free_size() < count) {
-		resize(size() + count + 1);
+		resize(size() + count);
 	}
 
 	char* csrc = (char*)src;
-- 
2.43.0


From 15f8d97f1aab714b89c602d1303ca2f7e97a3045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:46 +0000
Subject: [PATCH 04/52] fix: LockFreeQueue no longer overwrites, loses or
 misreports elements when an index read is stale

---
 source/cyCore/core/cyc_lf_queue.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/cyCore/core/cyc_lf_queue.h b/source/cyCore/core/cyc_lf_queue.h
index be28def..4da3a8c 100644
--- a/source/cyCore/core/cyc_lf_queue.h
+++ b/source/cyCore/core/cyc_lf_queue.h
@@ -66,12 +66,12 @@ bool LockFreeQueue<ELEM_T, Q_SIZE>::push(const ELEM_T &data)
 		if (_countToIndex(currentWriteIndex + 1) ==
 			_countToIndex(currentReadIndex))
 		{
-			if (m_count > (Q_SIZE >> 1))
-				// the queue is full
+			if (m_writeIndex == currentWriteIndex)
+				// nobody pushed since the write index was read, so the queue was full when the read index was read
 				return false;
 			else
 				//maybe this thread was blocked between m_write_index.get() and m_read_index.get(), cause other threads write and read
-				continue;
+				continue; // the exchange below fails because the write index has moved
 		}
 	} while (!atomic_compare_exchange(m_writeIndex, currentWriteIndex, (currentWriteIndex + 1)));
 
@@ -109,8 +109,8 @@ bool LockFreeQueue<ELEM_T, Q_SIZE>::pop(ELEM_T &a_data)
 		currentReadIndex = m_readIndex;
 		currentMaximumReadIndex = m_maximumReadIndex;
 
-		if (_countToIndex(currentReadIndex) ==
-			_countToIndex(currentMaximumReadIndex))
+		// compare the counters, not the array indexes: the read index may be stale by a whole lap
+		if (currentReadIndex == currentMaximumReadIndex)
 		{
 			// the queue is empty or
 			// a producer thread has allocate space in the queue but is 
-- 
2.43.0


From 8ccac16b4b4a0d966d550319c2c013cbd446c103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:22 +0000
Subject: [PATCH 05/52] fix: DH with a zero private key no longer recurses
 without end

---
 source/cyCrypt/crypt/cyr_dhexchange.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/cyCrypt/crypt/cyr_dhexchange.cpp b/source/cyCrypt/crypt/cyr_dhexchange.cpp
index f4491fd..e33939f 100644
--- a/source/cyCrypt/crypt/cyr_dhexchange.cpp
+++ b/source/cyCrypt/crypt/cyr_dhexchange.cpp
@@ -138,6 +138,12 @@ _powmodp_r(dhkey_t* r, const dhkey_t& a, const dhkey_t& b)
 	dhkey_t t;
 	dhkey_t half_b = b;
 
+	if (_u128_is_zero(b)) {
+		r->dq.low = 1;
+		r->dq.high = 0;
+		return;
+	}
+
 	if (b.dq.high == 0 && b.dq.low == 1) {
 		*r = a;
 		return;
-- 
2.43.0


From 62e6ee7af8c089add8194268fc0097500447992d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:41 +0000
Subject: [PATCH 06/52] fix: MinMaxValue of a floating type starts its maximum
 at the lowest value

---
 source/cyUtility/utility/cyu_statistics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyUtility/utility/cyu_statistics.h b/source/cyUtility/utility/cyu_statistics.h
index afe3892..0543d8a 100644
--- a/source/cyUtility/utility/cyu_statistics.h
+++ b/source/cyUtility/utility/cyu_statistics.h
@@ -35,7 +35,7 @@ public:
 	MinMaxValue() 
 	{
 		m_min = std::numeric_limits<T>::max();
-		m_max = std::numeric_limits<T>::min();
+		m_max = std::numeric_limits<T>::lowest();
 	}
 
 	MinMaxValue(const T& init) 
-- 
2.43.0


From b5b35fa794b9a37521c4c4e2786739d130edc9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:13 +0000
Subject: [PATCH 07/52] fix: Looper callbacks may delete and register events
 during the dispatch of a poll result

---
 source/cyEvent/event/cye_looper.cpp | 76 +++++++++++++++++------------
 source/cyEvent/event/cye_looper.h   |  6 +++
 2 files changed, 50 insertions(+), 32 deletions(-)

diff --git a/source/cyEvent/event/cye_looper.cpp b/source/cyEvent/event/cye_looper.cpp
index b31aa53..d420b74 100644
--- a/source/cyEvent/event/cye_looper.cpp
+++ b/source/cyEvent/event/cye_looper.cpp
@@ -20,6 +20,7 @@ const Looper::event_id_t Looper::INVALID_EVENT_ID = (Looper::event_id_t)(~0);
 //-------------------------------------------------------------------------------------
 Looper::Looper()
 	: m_free_head(INVALID_EVENT_ID)
+	, m_dispatching(false)
 	, m_active_channel_counts(0)
 	, m_loop_counts(0)
 	, m_current_thread(sys_api::thread_get_current_id())
@@ -169,8 +170,12 @@ void Looper::delete_event(event_id_t id)
 	}
 	
 	//remove from active list to free list
-	channel.next = m_free_head;
-	m_free_head = id;
+	if (m_dispatching) {
+		m_deleted_list.push_back(id);
+	}
+	else {
+		_put_free_slot(id);
+	}
 }
 
 //-------------------------------------------------------------------------------------
@@ -282,27 +287,7 @@ void Looper::loop(void)
 		if (is_quit_pending()) break;
 
 		//reactor
-		for (size_t i = 0; i < readList.size(); i++)
-		{
-			channel_s* c = &(m_channelBuffer[readList[i]]);
-			if (c->on_read == 0 || (c->event & kRead) == 0) continue;
-
-			c->on_read(c->id, c->fd, kRead, c->param);
-
-			if (is_quit_pending()) break;
-		}
-
-		if (is_quit_pending()) break;
-
-		for (size_t i = 0; i < writeList.size(); i++)
-		{
-			channel_s* c = &(m_channelBuffer[writeList[i]]);
-			if (c->on_write == 0 || (c->event & kWrite) == 0) continue;
-
-			c->on_write(c->id, c->fd, kWrite, c->param);
-
-			if (is_quit_pending()) break;
-		}
+		_dispatch(readList, writeList);
 
 		if (is_quit_pending()) break;
 	}
@@ -329,25 +314,42 @@ void Looper::step(void)
 	if (is_quit_pending()) return;
 
 	//reactor
-	for (size_t i = 0; i < readList.size(); i++)
+	_dispatch(readList, writeList);
+}
+
+//-------------------------------------------------------------------------------------
+void Looper::_dispatch(const channel_list& readList, const channel_list& writeList)
+{
+	//the slot of an event deleted by a callback must not be used again before the end of this
+	//dispatch, otherwise the new event would be called for the readiness of the old one
+	m_dispatching = true;
+
+	for (size_t i = 0; i < readList.size() && !is_quit_pending(); i++)
 	{
 		channel_s* c = &(m_channelBuffer[readList[i]]);
 		if (c->on_read == 0 || (c->event & kRead) == 0) continue;
 
-		c->on_read(c->id, c->fd, kRead, c->param);
-
-		if (is_quit_pending()) return;
+		//call a copy, the channel buffer may be reallocated by the callback
+		event_callback on_read = c->on_read;
+		on_read(c->id, c->fd, kRead, c->param);
 	}
 
-	for (size_t i = 0; i < writeList.size(); i++)
+	for (size_t i = 0; i < writeList.size() && !is_quit_pending(); i++)
 	{
 		channel_s* c = &(m_channelBuffer[writeList[i]]);
 		if (c->on_write == 0 || (c->event & kWrite) == 0) continue;
 
-		c->on_write(c->id, c->fd, kWrite, c->param);
+		event_callback on_write = c->on_write;
+		on_write(c->id, c->fd, kWrite, c->param);
+	}
+
+	m_dispatching = false;
 
-		if (is_quit_pending()) return;
+	sys_api::auto_mutex lock(m_lock);
+	for (size_t i = 0; i < m_deleted_list.size(); i++) {
+		_put_free_slot(m_deleted_list[i]);
 	}
+	m_deleted_list.clear();
 }
 
 //-------------------------------------------------------------------------------------
@@ -401,6 +403,14 @@ Looper::event_id_t Looper::_get_free_slot(void)
 	}
 }
 
+//-------------------------------------------------------------------------------------
+void Looper::_put_free_slot(event_id_t id)
+{
+	channel_s& channel = m_channelBuffer[id];
+	channel.next = m_free_head;
+	m_free_head = id;
+}
+
 #ifdef CY_SYS_WINDOWS
 //-------------------------------------------------------------------------------------
 void Looper::_on_windows_timer(PVOID param, BOOLEAN timer_or_wait_fired)
@@ -424,8 +434,10 @@ void Looper::_on_timer_event_callback(event_id_t id, socket_t fd, event_t event,
 	socket_api::read(fd, &touch, sizeof(touch));
 #endif
 
-	if (timer->on_timer) {
-		timer->on_timer(id, timer->param);
+	//call a copy, the timer may be deleted by the callback
+	timer_callback on_timer = timer->on_timer;
+	if (on_timer) {
+		on_timer(id, timer->param);
 	}
 }
 
diff --git a/source/cyEvent/event/cye_looper.h b/source/cyEvent/event/cye_looper.h
index 16815d6..f79d167 100644
--- a/source/cyEvent/event/cye_looper.h
+++ b/source/cyEvent/event/cye_looper.h
@@ -107,6 +107,8 @@ protected:
 
 	channel_buffer m_channelBuffer;	//all event buf
 	event_id_t m_free_head;			//free list head in event buf
+	channel_list m_deleted_list;	//events deleted while dispatching, not in free list yet
+	bool m_dispatching;				//is dispatching the result of a poll
 	int32_t m_active_channel_counts;
 	uint64_t m_loop_counts;
 
@@ -153,6 +155,10 @@ protected:
 
 private:
 	event_id_t _get_free_slot(void);
+	void _put_free_slot(event_id_t id);
+
+	/// call the callbacks of all ready channels
+	void _dispatch(const channel_list& readList, const channel_list& writeList);
 };
 
 }
-- 
2.43.0


From a496cc6e39defa2b4d34c91477407ef33a98a6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:03 +0000
Subject: [PATCH 08/52] fix: a stop request no longer races with the end of the
 loop

---
 source/cyEvent/event/cye_looper.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/source/cyEvent/event/cye_looper.cpp b/source/cyEvent/event/cye_looper.cpp
index d420b74..d76aaaa 100644
--- a/source/cyEvent/event/cye_looper.cpp
+++ b/source/cyEvent/event/cye_looper.cpp
@@ -264,12 +264,16 @@ void Looper::loop(void)
 {
 	assert(sys_api::thread_get_current_id() == m_current_thread);
 
-	//is quit request pushed before loop begin
-	if (is_quit_pending()) return;
-
 	//register inner pipe first
 	Pipe inner_pipe;
-	m_inner_pipe = &inner_pipe;
+	{
+		sys_api::auto_mutex lock(m_lock);
+
+		//is quit request pushed before loop begin
+		if (is_quit_pending()) return;
+
+		m_inner_pipe = &inner_pipe;
+	}
 	Looper::event_id_t inner_event_id = register_event(m_inner_pipe->get_read_port(), kRead, this, _on_inner_pipe_touched, 0);
 
 	channel_list readList;
@@ -294,6 +298,9 @@ void Looper::loop(void)
 
 	//it's the time to shutdown everything...
 	delete_event(inner_event_id);
+
+	//a stop request may still be touching the pipe
+	sys_api::auto_mutex lock(m_lock);
 	m_inner_pipe = nullptr;
 }
 
@@ -355,6 +362,8 @@ void Looper::_dispatch(const channel_list& readList, const channel_list& writeLi
 //-------------------------------------------------------------------------------------
 void Looper::push_stop_request(void)
 {
+	//the loop can't leave and close the inner pipe until the request is completed
+	sys_api::auto_mutex lock(m_lock);
 	m_quit_cmd = 1;
 	_touch_inner_pipe();
 }
-- 
2.43.0


From 865170ea25330adadfd885982b2968e9a6e85320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:15 +0000
Subject: [PATCH 09/52] fix: Looper_select keeps polling the highest
 descriptors after one was removed

---
 source/cyEvent/event/internal/cye_looper_select.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/cyEvent/event/internal/cye_looper_select.cpp b/source/cyEvent/event/internal/cye_looper_select.cpp
index 9367c00..7ac9e2e 100644
--- a/source/cyEvent/event/internal/cye_looper_select.cpp
+++ b/source/cyEvent/event/internal/cye_looper_select.cpp
@@ -192,7 +192,8 @@ void Looper_select::_update_channel_add_event(channel_s& channel, event_t event)
 		channel.event |= kRead;
 		_insert_to_active_list(channel);
 #ifndef CY_SYS_WINDOWS
-		if (m_max_fd == INVALID_SOCKET || m_max_fd < fd)  m_max_fd = fd;
+		//an invalid value is recomputed before next poll
+		if (m_max_fd != INVALID_SOCKET && m_max_fd < fd)  m_max_fd = fd;
 #endif
 	}
 	
@@ -203,7 +204,8 @@ void Looper_select::_update_channel_add_event(channel_s& channel, event_t event)
 		channel.event |= kWrite;
 		_insert_to_active_list(channel);
 #ifndef CY_SYS_WINDOWS
-		if (m_max_fd == INVALID_SOCKET || m_max_fd < fd)  m_max_fd = fd;
+		//an invalid value is recomputed before next poll
+		if (m_max_fd != INVALID_SOCKET && m_max_fd < fd)  m_max_fd = fd;
 #endif
 	}
 
-- 
2.43.0


From 92bc48cfff08df80ba7b7d66d353b6a38c4c4af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:15 +0000
Subject: [PATCH 10/52] fix: Looper_select dispatches nothing when select
 itself fails

---
 source/cyEvent/event/internal/cye_looper_select.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/source/cyEvent/event/internal/cye_looper_select.cpp b/source/cyEvent/event/internal/cye_looper_select.cpp
index 7ac9e2e..cf3700e 100644
--- a/source/cyEvent/event/internal/cye_looper_select.cpp
+++ b/source/cyEvent/event/internal/cye_looper_select.cpp
@@ -78,10 +78,9 @@ void Looper_select::_poll(
 		sys_api::thread_sleep(1);
 	}
 
-	int err = (ready < -1) ? socket_api::get_lasterror() : 0;
-
-	if (err < 0)
+	if (ready < 0)
 	{
+		int err = socket_api::get_lasterror();
 		if(err==
 #ifdef CY_SYS_WINDOWS
 			WSAENOTSOCK)
-- 
2.43.0


From afcb903acf984d0b49039fe40ec33168f7e79d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:49 +0000
Subject: [PATCH 11/52] fix: Looper_select tolerates other threads enabling and
 disabling events during a poll

---
 .../event/internal/cye_looper_select.cpp      | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/source/cyEvent/event/internal/cye_looper_select.cpp b/source/cyEvent/event/internal/cye_looper_select.cpp
index cf3700e..90275f4 100644
--- a/source/cyEvent/event/internal/cye_looper_select.cpp
+++ b/source/cyEvent/event/internal/cye_looper_select.cpp
@@ -34,6 +34,9 @@ void Looper_select::_poll(
 	channel_list& writeChannelList,
 	bool block)
 {
+	//other threads may enable or disable event
+	sys_api::mutex_lock(m_lock);
+
 #ifndef CY_SYS_WINDOWS
 	if (m_max_fd == INVALID_SOCKET)
 	{
@@ -55,10 +58,15 @@ void Looper_select::_poll(
 	m_work_write_fd_set = m_master_write_fd_set;
 #ifdef CY_SYS_WINDOWS
 	m_work_expt_fd_set = m_master_read_fd_set;
+#else
+	socket_t max_fd = m_max_fd;
 #endif
+	bool empty_set = (m_max_read_counts == 0 && m_max_write_counts == 0);
+
+	sys_api::mutex_unlock(m_lock);
 
 	int ready = 0;
-	if (m_max_read_counts > 0 || m_max_write_counts>0)
+	if (!empty_set)
 	{
 		timeval time_out = { 0, 0 };
 		ready = ::select(
@@ -67,7 +75,7 @@ void Looper_select::_poll(
 			&m_work_read_fd_set, &m_work_write_fd_set, &m_work_expt_fd_set, 
 			block ? 0 : &time_out);
 #else
-			(int)(m_max_fd + 1), 
+			(int)(max_fd + 1), 
 			&m_work_read_fd_set, &m_work_write_fd_set, 0, 
 			block ? 0 : &time_out);
 #endif
@@ -100,25 +108,25 @@ void Looper_select::_poll(
 	}
 	else
 	{
+		sys_api::auto_mutex lock(m_lock);
+
 		for (event_id_t i = m_active_head; i != INVALID_EVENT_ID;)
 		{
 			channel_s& channel = m_channelBuffer[i];
 
-			if (   FD_ISSET(channel.fd, &m_work_read_fd_set) 
+			if ((channel.event & kRead) && (FD_ISSET(channel.fd, &m_work_read_fd_set) 
 #ifdef CY_SYS_WINDOWS
 				|| FD_ISSET(channel.fd, &m_work_expt_fd_set)
 #endif
-				)
+				))
 			{
-				assert(channel.event & kRead);
 				assert(channel.on_read);
 
 				readChannelList.push_back(i);
 			}
 
-			if (FD_ISSET(channel.fd, &m_work_write_fd_set))
+			if ((channel.event & kWrite) && FD_ISSET(channel.fd, &m_work_write_fd_set))
 			{
-				assert(channel.event & kWrite);
 				assert(channel.on_write);
 
 				writeChannelList.push_back(i);
-- 
2.43.0


From fb5f7240aa5aaa946f67ecdcb04548bdc55f63f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:49 +0000
Subject: [PATCH 12/52] fix: a message sent while the worker drains its queue
 no longer waits forever

---
 source/cyEvent/event/cye_work_thread.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/cyEvent/event/cye_work_thread.cpp b/source/cyEvent/event/cye_work_thread.cpp
index 18c4040..a09785e 100644
--- a/source/cyEvent/event/cye_work_thread.cpp
+++ b/source/cyEvent/event/cye_work_thread.cpp
@@ -84,6 +84,9 @@ void WorkThread::_on_message(void)
 		int8_t dummy;
 		if (m_pipe.read((char*)&dummy, sizeof(dummy)) <= 0) break;
 
+		//set empty flag before the queue is drained, so a message pushed later wakes up the looper again
+		m_is_queue_empty = true;
+
 		for (;;) {
 			Packet* packet = nullptr;
 			if (!m_message_queue.pop(packet)) break;
@@ -96,9 +99,6 @@ void WorkThread::_on_message(void)
 			Packet::free_packet(packet);
 		}
 	}
-
-	//set empty flag
-	m_is_queue_empty = true;
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From 0274641d703bfa13757fa67f969a78649be57bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:17 +0000
Subject: [PATCH 13/52] fix: a read that would block no longer closes a
 connection

---
 source/cyNetwork/network/cyn_tcp_connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index a310074..1986345 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -225,7 +225,7 @@ void TcpConnection::_on_socket_read(void)
 		//the connection was closed by peer, close now!
 		_on_socket_close();
 	}
-	else
+	else if (!socket_api::is_lasterror_WOULDBLOCK())
 	{
 		//error!
 		_on_socket_error();
-- 
2.43.0


From 2ba0f5e151942d0d4bc212704dfbbc0ce28a0456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:28 +0000
Subject: [PATCH 14/52] fix: sending to a connection closed by the peer no
 longer kills the process

---
 .../cyNetwork/network/cyn_tcp_connection.cpp  | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index 1986345..6812389 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -6,9 +6,26 @@ Copyright(C) thecodeway.com
 #include <cy_network.h>
 #include "cyn_tcp_connection.h"
 
+#ifndef CY_SYS_WINDOWS
+#include <signal.h>
+#endif
+
 namespace cyclone
 {
 
+#ifndef CY_SYS_WINDOWS
+//-------------------------------------------------------------------------------------
+// writing to a connection closed by the peer is an error(EPIPE), it should not kill the process
+static bool _ignore_sigpipe(void)
+{
+	struct sigaction action;
+	if (::sigaction(SIGPIPE, nullptr, &action) == 0 && action.sa_handler == SIG_DFL) {
+		::signal(SIGPIPE, SIG_IGN);
+	}
+	return true;
+}
+#endif
+
 //-------------------------------------------------------------------------------------
 TcpConnection::TcpConnection(int32_t id, socket_t sfd, Looper* looper, Owner* owner)
 	: m_id(id)
@@ -29,6 +46,11 @@ TcpConnection::TcpConnection(int32_t id, socket_t sfd, Looper* looper, Owner* ow
 	, m_read_statistics(nullptr)
 	, m_write_statistics(nullptr)
 {
+#ifndef CY_SYS_WINDOWS
+	static const bool sigpipe_ignored = _ignore_sigpipe();
+	(void)sigpipe_ignored;
+#endif
+
 	//set socket to non-block and close-onexec
 	socket_api::set_nonblock(sfd, true);
 	socket_api::set_close_onexec(sfd, true);
-- 
2.43.0


From 872d4a5831a5a97b4d6a4657ba20f5a2f6aabd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:42 +0000
Subject: [PATCH 15/52] fix: messages sent from several threads no longer
 interleave, get lost or race with the close

---
 .../cyNetwork/network/cyn_tcp_connection.cpp  | 77 ++++++++++---------
 source/cyNetwork/network/cyn_tcp_connection.h |  4 +-
 2 files changed, 42 insertions(+), 39 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index 6812389..de5ef3c 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -32,6 +32,7 @@ TcpConnection::TcpConnection(int32_t id, socket_t sfd, Looper* looper, Owner* ow
 	, m_socket(sfd)
 	, m_state(kConnected)
 	, m_looper(looper)
+	, m_looper_thread(looper->get_thread_id())
 	, m_event_id(Looper::INVALID_EVENT_ID)
 	, m_owner(owner)
 	, m_param(nullptr)
@@ -96,7 +97,10 @@ TcpConnection::~TcpConnection()
 	assert(get_state()==kDisconnected);
 	assert(m_socket == INVALID_SOCKET);
 	assert(m_event_id == Looper::INVALID_EVENT_ID);
-	assert(m_write_buf_lock == nullptr);
+
+	//destroy write buf lock
+	sys_api::mutex_destroy(m_write_buf_lock);
+	m_write_buf_lock = nullptr;
 }
 
 //-------------------------------------------------------------------------------------
@@ -110,12 +114,16 @@ void TcpConnection::send(const char* buf, size_t len)
 {
 	if (buf == nullptr || len == 0) return;
 
-	if (sys_api::thread_get_current_id() == m_looper->get_thread_id())
+	if (sys_api::thread_get_current_id() == m_looper_thread)
 	{
 		_send(buf, len);
 	}
 	else
 	{
+		//write to output buf
+		sys_api::auto_mutex lock(m_write_buf_lock);
+
+		//the state only leaves kConnected with the lock held
 		if (get_state() != kConnected)
 		{
 			//log error, give up send message
@@ -123,9 +131,6 @@ void TcpConnection::send(const char* buf, size_t len)
 			return;
 		}
 
-		//write to output buf
-		sys_api::auto_mutex lock(m_write_buf_lock);
-
 		//write to write buffer
 		m_write_buf.memcpy_into(buf, len);
 
@@ -135,17 +140,10 @@ void TcpConnection::send(const char* buf, size_t len)
 	}
 }
 
-//-------------------------------------------------------------------------------------
-bool TcpConnection::_is_writeBuf_empty(void) const
-{
-	sys_api::auto_mutex lock(m_write_buf_lock);
-	return  m_write_buf.empty();
-}
-
 //-------------------------------------------------------------------------------------
 void TcpConnection::_send(const char* buf, size_t len)
 {
-	assert(sys_api::thread_get_current_id() == m_looper->get_thread_id());
+	assert(sys_api::thread_get_current_id() == m_looper_thread);
 
 	bool faultError = false;
 	size_t remaining = len;
@@ -158,8 +156,12 @@ void TcpConnection::_send(const char* buf, size_t len)
 		return;
 	}
 
+	{
+	//a message from other thread must not slip in between
+	sys_api::auto_mutex lock(m_write_buf_lock);
+
 	//nothing in write buf, send it directly
-	if (!(m_looper->is_write(m_event_id)) && _is_writeBuf_empty())
+	if (!(m_looper->is_write(m_event_id)) && m_write_buf.empty())
 	{
 		nwrote = socket_api::write(m_socket, buf, len);
 		if (nwrote >= 0)
@@ -190,22 +192,22 @@ void TcpConnection::_send(const char* buf, size_t len)
 		}
 	}
 
-	//shutdown if socket work with fault
-	if (faultError) {
-		m_looper->disable_all(m_event_id);
-		shutdown();
+	if (!faultError) {
+		if (remaining > 0) {
+			//write to write buffer
+			m_write_buf.memcpy_into(buf + nwrote, remaining);
+		}
 
+		//enable write event, wait socket ready
+		m_looper->enable_write(m_event_id);
 		return;
 	}
-
-	if (remaining > 0) {
-		sys_api::auto_mutex lock(m_write_buf_lock);
-		//write to write buffer
-		m_write_buf.memcpy_into(buf + nwrote, remaining);
+	m_state = kDisconnecting;	//no more message from other threads
 	}
 
-	//enable write event, wait socket ready
-	m_looper->enable_write(m_event_id);
+	//shutdown if socket work with fault
+	m_looper->disable_all(m_event_id);
+	shutdown();
 }
 
 //-------------------------------------------------------------------------------------
@@ -214,12 +216,16 @@ void TcpConnection::shutdown(void)
 	assert(sys_api::thread_get_current_id() == m_looper->get_thread_id());
 	assert(m_state == kConnected || m_state==kDisconnecting);
 
-	//set the state to disconnecting...
-	m_state = kDisconnecting;
+	{
+		sys_api::auto_mutex lock(m_write_buf_lock);
+
+		//set the state to disconnecting...
+		m_state = kDisconnecting;
+
+		//something still working? wait 
+		if (m_looper->is_write(m_event_id) && !m_write_buf.empty()) return;
+	}
 
-	//something still working? wait 
-	if (m_looper->is_write(m_event_id) && !_is_writeBuf_empty()) return;
-	
 	//ok, we can close the socket now
 	socket_api::shutdown(m_socket);
 	_on_socket_close();
@@ -304,8 +310,11 @@ void TcpConnection::_on_socket_close(void)
 
 	TcpConnectionPtr thisPtr = shared_from_this();
 
-	//disable all event
-	m_state = kDisconnected;
+	//disable all event, from now on no other thread touches the write buf or the event
+	{
+		sys_api::auto_mutex lock(m_write_buf_lock);
+		m_state = kDisconnected;
+	}
 
 	//delete looper event
 	m_looper->delete_event(m_event_id);
@@ -323,10 +332,6 @@ void TcpConnection::_on_socket_close(void)
 	//close socket
 	socket_api::close_socket(m_socket);
 	m_socket = INVALID_SOCKET;
-
-	//destroy write buf lock
-	sys_api::mutex_destroy(m_write_buf_lock);
-	m_write_buf_lock = nullptr;
 }
 
 //-------------------------------------------------------------------------------------
diff --git a/source/cyNetwork/network/cyn_tcp_connection.h b/source/cyNetwork/network/cyn_tcp_connection.h
index 79bb791..8bceeb5 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.h
+++ b/source/cyNetwork/network/cyn_tcp_connection.h
@@ -82,6 +82,7 @@ private:
 	Address m_local_addr;
 	Address m_peer_addr;
 	Looper* m_looper;
+	const thread_id_t m_looper_thread;	//the looper may be gone before the connection object
 	Looper::event_id_t m_event_id;
 	Owner* m_owner;
 	void* m_param;
@@ -115,9 +116,6 @@ private:
 	/// send message (not thread safe, must int work thread)
 	void _send(const char* buf, size_t len);
 
-	//// is write buf empty(thread safe)
-	bool _is_writeBuf_empty(void) const;
-
 public:
 	// record the max size of read buf and write buf
 	size_t get_readebuf_max_size(void) const { return m_readbuf_minmax_size.max(); }
-- 
2.43.0


From 1f5b45ee51e543c0ff662198a0757ac3a4a8eb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:53 +0000
Subject: [PATCH 16/52] fix: only bytes really written count for the write
 statistics of a connection

---
 source/cyNetwork/network/cyn_tcp_connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index de5ef3c..b93451b 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -277,7 +277,7 @@ void TcpConnection::_on_socket_write(void)
 				//log error
 				CY_LOG(L_ERROR, "write socket error, err=%d", socket_api::get_lasterror());
 			}
-			if (m_write_statistics) {
+			else if (m_write_statistics) {
 				m_write_statistics->push(len);
 			}
 		}
-- 
2.43.0


From 5b9c8821ed9e47ece5f2d3e87a054fc37e11c66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:09 +0000
Subject: [PATCH 17/52] fix: TcpServer::stop refused in a work thread has no
 effect on later calls

---
 source/cyNetwork/network/cyn_tcp_server.cpp         | 13 ++++++-------
 .../network/internal/cyn_tcp_server_work_thread.cpp | 10 ++++++++++
 .../network/internal/cyn_tcp_server_work_thread.h   |  2 ++
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_server.cpp b/source/cyNetwork/network/cyn_tcp_server.cpp
index b297889..9a3e01a 100644
--- a/source/cyNetwork/network/cyn_tcp_server.cpp
+++ b/source/cyNetwork/network/cyn_tcp_server.cpp
@@ -105,17 +105,16 @@ void TcpServer::stop(void)
 {
 	//not running?
 	if (m_running == 0) return;
-	//is shutdown in processing?
-	if (m_shutdown_ing.exchange(1) > 0)return;
 
 	//this function can't run in work thread
-	for (auto work : m_work_thread_pool){
-		if (work->is_in_workthread()){
-			CY_LOG(L_ERROR, "you can't stop server in work thread.");
-			return;
-		}
+	if (TcpServerWorkThread::is_in_workthread_of(this)) {
+		CY_LOG(L_ERROR, "you can't stop server in work thread.");
+		return;
 	}
 
+	//is shutdown in processing?
+	if (m_shutdown_ing.exchange(1) > 0)return;
+
 	//shutdown the the master thread
 	TcpServerMasterThread::ShutdownCmd shutdownCmd;
 	m_master_thread->send_thread_message(TcpServerMasterThread::ShutdownCmd::ID, sizeof(shutdownCmd), (const char*)&shutdownCmd);
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
index 6165ca7..54d4f87 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
@@ -8,6 +8,9 @@ Copyright(C) thecodeway.com
 namespace cyclone
 {
 
+//the server the current thread works for
+static thread_local const TcpServer* s_current_server = nullptr;
+
 //-------------------------------------------------------------------------------------
 TcpServerWorkThread::TcpServerWorkThread(TcpServer* server, int32_t index)
 	: m_server(server)
@@ -57,6 +60,12 @@ bool TcpServerWorkThread::is_in_workthread(void) const
 	return sys_api::thread_get_current_id() == m_work_thread->get_looper()->get_thread_id();
 }
 
+//-------------------------------------------------------------------------------------
+bool TcpServerWorkThread::is_in_workthread_of(const TcpServer* server)
+{
+	return s_current_server == server;
+}
+
 //-------------------------------------------------------------------------------------
 TcpConnectionPtr TcpServerWorkThread::get_connection(int32_t connection_id)
 {
@@ -71,6 +80,7 @@ TcpConnectionPtr TcpServerWorkThread::get_connection(int32_t connection_id)
 bool TcpServerWorkThread::_on_workthread_start(void)
 {
 	CY_LOG(L_INFO, "Tcp work thread %d start...", m_index);
+	s_current_server = m_server;
 
 	if (m_server->m_listener.on_work_thread_start) {
 		m_server->m_listener.on_work_thread_start(m_server, get_index(), m_work_thread->get_looper());
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
index 39b0937..dfd439c 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
@@ -40,6 +40,8 @@ public: //call by TcpServer Only
 	int32_t get_index(void) const { return m_index; }
 	//// is current thread in work thread (thread safe)
 	bool is_in_workthread(void) const;
+	//// is current thread one of the work threads of the server (thread safe)
+	static bool is_in_workthread_of(const TcpServer* server);
 	//// join work thread(thread safe)
 	void join(void);
 	//// get connection(NOT thread safe, MUST call in work thread)
-- 
2.43.0


From bb1dfd96e08b8795ab97c231b9a0efed2c821ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:40 +0000
Subject: [PATCH 18/52] fix: a connection accepted while the server stops is
 closed too

---
 source/cyNetwork/network/cyn_tcp_server.cpp                 | 6 +++++-
 source/cyNetwork/network/cyn_tcp_server.h                   | 1 +
 .../network/internal/cyn_tcp_server_master_thread.cpp       | 3 +++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/source/cyNetwork/network/cyn_tcp_server.cpp b/source/cyNetwork/network/cyn_tcp_server.cpp
index 9a3e01a..2e80ffe 100644
--- a/source/cyNetwork/network/cyn_tcp_server.cpp
+++ b/source/cyNetwork/network/cyn_tcp_server.cpp
@@ -118,8 +118,12 @@ void TcpServer::stop(void)
 	//shutdown the the master thread
 	TcpServerMasterThread::ShutdownCmd shutdownCmd;
 	m_master_thread->send_thread_message(TcpServerMasterThread::ShutdownCmd::ID, sizeof(shutdownCmd), (const char*)&shutdownCmd);
+}
 
-	//shutdown all connection
+//-------------------------------------------------------------------------------------
+void TcpServer::_on_master_shutdown(void)
+{
+	//no more connection will be accepted, shutdown all connection
 	for (auto work : m_work_thread_pool){
 		work->send_thread_message(TcpServerWorkThread::ShutdownCmd::ID, 0, 0);
 	}
diff --git a/source/cyNetwork/network/cyn_tcp_server.h b/source/cyNetwork/network/cyn_tcp_server.h
index 0dc4c1c..106647a 100644
--- a/source/cyNetwork/network/cyn_tcp_server.h
+++ b/source/cyNetwork/network/cyn_tcp_server.h
@@ -102,6 +102,7 @@ private:
 private:
 	//called by master thread
 	void _on_accept_socket(socket_t fd);
+	void _on_master_shutdown(void);
 
 	friend class TcpServerMasterThread;
 private:
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
index 84ab628..cf66249 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
@@ -171,6 +171,9 @@ void TcpServerMasterThread::_on_thread_message(Packet* message)
 		}
 		m_acceptor_sockets.clear();
 
+		//shutdown work threads, after the last accepted socket was sent to them
+		m_server->_on_master_shutdown();
+
 		//stop looper
 		looper->push_stop_request();
 	}
-- 
2.43.0


From 8c4d9310ebf003b99737d8c24856128640b66f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:24 +0000
Subject: [PATCH 19/52] fix: a close command sent just before the server stops
 no longer keeps it running

---
 source/cyNetwork/network/cyn_tcp_server.cpp                   | 1 -
 .../cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp | 4 +++-
 .../cyNetwork/network/internal/cyn_tcp_server_work_thread.h   | 3 ++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_server.cpp b/source/cyNetwork/network/cyn_tcp_server.cpp
index 2e80ffe..d89012a 100644
--- a/source/cyNetwork/network/cyn_tcp_server.cpp
+++ b/source/cyNetwork/network/cyn_tcp_server.cpp
@@ -170,7 +170,6 @@ void TcpServer::shutdown_connection(TcpConnectionPtr conn)
 
 	TcpServerWorkThread::CloseConnectionCmd closeConnectionCmd;
 	closeConnectionCmd.conn_id = conn->get_id();
-	closeConnectionCmd.shutdown_ing = m_shutdown_ing;
 	work->send_thread_message(TcpServerWorkThread::CloseConnectionCmd::ID, sizeof(closeConnectionCmd), (const char*)&closeConnectionCmd);
 }
 
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
index 54d4f87..1308419 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
@@ -15,6 +15,7 @@ static thread_local const TcpServer* s_current_server = nullptr;
 TcpServerWorkThread::TcpServerWorkThread(TcpServer* server, int32_t index)
 	: m_server(server)
 	, m_index(index)
+	, m_shutdown_ing(false)
 {
 	//run work thread
 	m_work_thread = new WorkThread();
@@ -151,7 +152,7 @@ void TcpServerWorkThread::_on_workthread_message(Packet* message)
 		}
 
 		//if all connection is shutdown, and server is in shutdown process, quit the loop
-		if (m_connections.empty() && closeConnectionCmd.shutdown_ing > 0) {
+		if (m_connections.empty() && m_shutdown_ing) {
 			//push loop quit command
 			m_work_thread->get_looper()->push_stop_request();
 			return;
@@ -160,6 +161,7 @@ void TcpServerWorkThread::_on_workthread_message(Packet* message)
 	else if (msg_id == ShutdownCmd::ID)
 	{
 		CY_LOG(L_DEBUG, "receive shutdown cmd");
+		m_shutdown_ing = true;
 		//all connection is disconnect, just quit the loop
 		if (m_connections.empty()) {
 			//push loop request command
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
index dfd439c..8ea722c 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
@@ -22,7 +22,6 @@ public:
 	{
 		enum { ID = kCloseConnectionCmdID };
 		int32_t conn_id;
-		int32_t shutdown_ing;
 	};
 
 	struct ShutdownCmd
@@ -57,6 +56,8 @@ private:
 	typedef std::unordered_map< int32_t, TcpConnectionPtr > ConnectionMap;
 	ConnectionMap	m_connections;
 
+	bool			m_shutdown_ing;	//the shutdown command was received
+
 private:
 	//// called by work thread
 	bool _on_workthread_start(void);
-- 
2.43.0


From 33dbe18e8f4d740b821890113735b2cc677aca51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:35 +0000
Subject: [PATCH 20/52] fix: stop_listen and get_bind_address work while and
 after the server stops

---
 .../internal/cyn_tcp_server_master_thread.cpp     | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
index cf66249..e63c3b5 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
@@ -17,7 +17,10 @@ TcpServerMasterThread::TcpServerMasterThread(TcpServer* server)
 //-------------------------------------------------------------------------------------
 TcpServerMasterThread::~TcpServerMasterThread()
 {
-	assert(m_acceptor_sockets.empty());
+	for (auto& listen_socket : m_acceptor_sockets) {
+		assert(std::get<0>(listen_socket) == INVALID_SOCKET);
+		(void)listen_socket;
+	}
 }
 
 //-------------------------------------------------------------------------------------
@@ -109,8 +112,12 @@ Address TcpServerMasterThread::get_bind_address(size_t index)
 	Address address;
 	if (index >= m_acceptor_sockets.size()) return address;
 
+	//the port may be closed already
+	socket_t sfd = std::get<0>(m_acceptor_sockets[index]);
+	if (sfd == INVALID_SOCKET) return address;
+
 	sockaddr_in addr;
-	socket_api::getsockname(std::get<0>(m_acceptor_sockets[index]), addr);
+	if (!socket_api::getsockname(sfd, addr)) return address;
 
 	return Address(addr);
 }
@@ -156,7 +163,7 @@ void TcpServerMasterThread::_on_thread_message(Packet* message)
 		Looper* looper = m_master_thread.get_looper();
 
 		//close all listen socket(s)
-		for (auto listen_socket : m_acceptor_sockets) {
+		for (auto& listen_socket : m_acceptor_sockets) {
 			auto& sfd = std::get<0>(listen_socket);
 			auto& event_id = std::get<1>(listen_socket);
 
@@ -169,8 +176,6 @@ void TcpServerMasterThread::_on_thread_message(Packet* message)
 				sfd = INVALID_SOCKET;
 			}
 		}
-		m_acceptor_sockets.clear();
-
 		//shutdown work threads, after the last accepted socket was sent to them
 		m_server->_on_master_shutdown();
 
-- 
2.43.0


From 61028bc79a5cffbcce145fc9fac923809cc77116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:53 +0000
Subject: [PATCH 21/52] fix: a server that was bound but never started can be
 destroyed

---
 .../network/internal/cyn_tcp_server_master_thread.cpp     | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
index e63c3b5..a147aeb 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
@@ -17,9 +17,13 @@ TcpServerMasterThread::TcpServerMasterThread(TcpServer* server)
 //-------------------------------------------------------------------------------------
 TcpServerMasterThread::~TcpServerMasterThread()
 {
+	//the server may be never started, close all bound socket(s)
 	for (auto& listen_socket : m_acceptor_sockets) {
-		assert(std::get<0>(listen_socket) == INVALID_SOCKET);
-		(void)listen_socket;
+		auto& sfd = std::get<0>(listen_socket);
+		if (sfd != INVALID_SOCKET) {
+			socket_api::close_socket(sfd);
+			sfd = INVALID_SOCKET;
+		}
 	}
 }
 
-- 
2.43.0


From fca59c55aeb79cab65a70bc1d0741804f8240712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:37 +0000
Subject: [PATCH 22/52] fix: a command to the master thread of a starting or
 stopping server no longer aborts

---
 .../network/internal/cyn_tcp_server_master_thread.cpp         | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
index a147aeb..9b4f3cb 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
@@ -30,22 +30,18 @@ TcpServerMasterThread::~TcpServerMasterThread()
 //-------------------------------------------------------------------------------------
 void TcpServerMasterThread::send_thread_message(uint16_t id, uint16_t size, const char* message)
 {
-	assert(m_master_thread.is_running());
-
 	m_master_thread.send_message(id, size, message);
 }
 
 //-------------------------------------------------------------------------------------
 void TcpServerMasterThread::send_thread_message(const Packet* message)
 {
-	assert(m_master_thread.is_running());
 	m_master_thread.send_message(message);
 }
 
 //-------------------------------------------------------------------------------------
 void TcpServerMasterThread::send_thread_message(const Packet** message, int32_t counts)
 {
-	assert(m_master_thread.is_running());
 	m_master_thread.send_message(message, counts);
 }
 
-- 
2.43.0


From f05765542d75b38fe1a6775bbba397566edd875b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:32 +0000
Subject: [PATCH 23/52] fix: a client whose connect fails at once releases its
 socket and event

---
 source/cyNetwork/network/cyn_tcp_client.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index 3eccaf8..07e6a2b 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -79,6 +79,11 @@ bool TcpClient::connect(const Address& addr)
 	if (!socket_api::connect(m_socket, addr.get_sockaddr_in()))
 	{
 		CY_LOG(L_ERROR, "connect to server error, errno=%d", socket_api::get_lasterror());
+
+		//the attempt is over
+		RELEASE_EVENT(m_looper, m_socket_event_id);
+		socket_api::close_socket(m_socket);
+		m_socket = INVALID_SOCKET;
 		return false;
 	}
 
-- 
2.43.0


From 94a137e886e9669307f9253b467388c1c06b5a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:18 +0000
Subject: [PATCH 24/52] fix: disconnect and connect cancel the pending retry of
 a client, also inside its failure callback

---
 source/cyNetwork/network/cyn_tcp_client.cpp | 51 +++++++++++++--------
 source/cyNetwork/network/cyn_tcp_client.h   |  4 +-
 2 files changed, 34 insertions(+), 21 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index 07e6a2b..48e3cd6 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -20,6 +20,7 @@ TcpClient::TcpClient(Looper* looper, void* param, int id)
 	, m_socket(INVALID_SOCKET)
 	, m_socket_event_id(Looper::INVALID_EVENT_ID)
 	, m_retry_timer_id(Looper::INVALID_EVENT_ID)
+	, m_connect_sequence(0)
 	, m_looper(looper)
 	, m_param(param)
 	, m_connection(nullptr)
@@ -58,6 +59,10 @@ bool TcpClient::connect(const Address& addr)
 
 	sys_api::auto_mutex lock(m_connection_lock);
 
+	//this attempt replaces the retry which still waits
+	RELEASE_EVENT(m_looper, m_retry_timer_id);
+	++m_connect_sequence;
+
 	//create socket
 	m_socket = socket_api::create_socket();
 	//set socket to non-block and close-onexec
@@ -106,13 +111,11 @@ void TcpClient::_on_connect_status_changed(bool timeout)
 	assert(m_connection == nullptr);
 
 	if (timeout || socket_api::get_socket_error(m_socket) != 0) {
-		//logic callback
-		uint32_t retry_sleep_ms = 0;
-		if (m_listener.on_connected) {
-			retry_sleep_ms = m_listener.on_connected(shared_from_this(), nullptr, false);
-		}
 		CY_LOG(L_DEBUG, "connect to %s:%d failed! ", m_serverAddr.get_ip(), m_serverAddr.get_port());
-		_abort_connect(retry_sleep_ms);
+
+		//the attempt is over
+		_abort_connect();
+		_on_connect_failed();
 	}
 	else {
 		//connect success!
@@ -151,19 +154,30 @@ void TcpClient::_on_connect_status_changed(bool timeout)
 }
 
 //-------------------------------------------------------------------------------------
-void TcpClient::_abort_connect(uint32_t retry_sleep_ms)
+void TcpClient::_abort_connect(void)
 {
 	assert(sys_api::thread_get_current_id() == m_looper->get_thread_id());
 	assert(get_connection_state() == TcpConnection::kConnecting);
 
 	RELEASE_EVENT(m_looper, m_socket_event_id);
-	RELEASE_EVENT(m_looper, m_retry_timer_id);
 
 	//close current socket
+	sys_api::auto_mutex lock(m_connection_lock);
 	socket_api::close_socket(m_socket);
 	m_socket = INVALID_SOCKET;
+}
 
-	if (retry_sleep_ms>0) {
+//-------------------------------------------------------------------------------------
+void TcpClient::_on_connect_failed(void)
+{
+	if (!m_listener.on_connected) return;
+
+	//logic callback, it may call connect() or disconnect(), or release the client
+	TcpClientPtr thisPtr = shared_from_this();
+	uint32_t sequence = m_connect_sequence;
+	uint32_t retry_sleep_ms = m_listener.on_connected(thisPtr, nullptr, false);
+
+	if (retry_sleep_ms > 0 && sequence == m_connect_sequence) {
 		//retry connection? create retry the timer
 		m_retry_timer_id = m_looper->register_timer_event(retry_sleep_ms, this,
 			std::bind(&TcpClient::_on_retry_connect_timer, this, std::placeholders::_1));
@@ -176,13 +190,18 @@ void TcpClient::disconnect(void)
 {
 	assert(sys_api::thread_get_current_id() == m_looper->get_thread_id());
 	m_sendCache.reset();
+
+	//cancel the retry which still waits
+	RELEASE_EVENT(m_looper, m_retry_timer_id);
+	++m_connect_sequence;
+
 	switch (get_connection_state())
 	{
 	case TcpConnection::kDisconnected:
 		break;
 
 	case TcpConnection::kConnecting:
-		_abort_connect(0u);
+		_abort_connect();
 		break;
 
 	default:
@@ -203,16 +222,8 @@ void TcpClient::_on_retry_connect_timer(Looper::event_id_t id)
 
 	//connect again
 	if (!connect(m_serverAddr)) {
-		//failed at once!, logic callback
-		if (m_listener.on_connected) {
-			uint32_t retry_sleep_ms = m_listener.on_connected(shared_from_this(), nullptr, false);
-
-			//retry connection?
-			if (retry_sleep_ms>0) {
-				m_retry_timer_id = m_looper->register_timer_event(retry_sleep_ms, this,
-					std::bind(&TcpClient::_on_retry_connect_timer, this, std::placeholders::_1));
-			}
-		}
+		//failed at once!
+		_on_connect_failed();
 	}
 }
 
diff --git a/source/cyNetwork/network/cyn_tcp_client.h b/source/cyNetwork/network/cyn_tcp_client.h
index f84ed62..b131621 100644
--- a/source/cyNetwork/network/cyn_tcp_client.h
+++ b/source/cyNetwork/network/cyn_tcp_client.h
@@ -48,6 +48,7 @@ private:
 	socket_t m_socket;
 	Looper::event_id_t m_socket_event_id;
 	Looper::event_id_t m_retry_timer_id;
+	uint32_t m_connect_sequence;	//changed by every connect() and disconnect()
 
 	Address	 m_serverAddr;
 	Looper*	m_looper;
@@ -63,7 +64,8 @@ private:
 
 private:
 	void _on_connect_status_changed(bool timeout);
-	void _abort_connect(uint32_t retry_sleep_ms);
+	void _on_connect_failed(void);
+	void _abort_connect(void);
 
 public:
 	TcpClient(Looper* looper, void* param, int id=0);
-- 
2.43.0


From bc0ec12e8aa8152dc44519f012a41643a823456c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:07 +0000
Subject: [PATCH 25/52] fix: a client destroyed while connecting closes its
 socket

---
 source/cyNetwork/network/cyn_tcp_client.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index 48e3cd6..bac2382 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -40,15 +40,20 @@ TcpClient::~TcpClient()
 {
 	assert(sys_api::thread_get_current_id() == m_looper->get_thread_id());
 
-	sys_api::mutex_destroy(m_connection_lock);
-	m_connection_lock = nullptr;
-
 	RELEASE_EVENT(m_looper, m_socket_event_id);
 	RELEASE_EVENT(m_looper, m_retry_timer_id);
 
 	if (m_connection) {
 		assert(m_connection->get_state() == TcpConnection::kDisconnected);
 	}
+	else if (m_socket != INVALID_SOCKET) {
+		//still connecting
+		socket_api::close_socket(m_socket);
+		m_socket = INVALID_SOCKET;
+	}
+
+	sys_api::mutex_destroy(m_connection_lock);
+	m_connection_lock = nullptr;
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From 0ea304c0de7792f271ab5aea864ae9ffec7a7f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:18 +0000
Subject: [PATCH 26/52] fix: data cached while connecting goes out before any
 other data, and a connection broken by then counts as a failed attempt

---
 source/cyNetwork/network/cyn_tcp_client.cpp | 30 ++++++++++++++++-----
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index bac2382..99f17dd 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -129,7 +129,28 @@ void TcpClient::_on_connect_status_changed(bool timeout)
 		RELEASE_EVENT(m_looper, m_socket_event_id);
 
 		//established the connection
-		m_connection = std::make_shared<TcpConnection>(m_id, m_socket, m_looper, this);
+		TcpConnectionPtr conn = std::make_shared<TcpConnection>(m_id, m_socket, m_looper, this);
+
+		//send cached message, before other threads can see the connection
+		if (!m_sendCache.empty()) {
+			conn->send((const char*)m_sendCache.normalize(), m_sendCache.size());
+
+			if (conn->get_state() != TcpConnection::kConnected) {
+				//broken already, it closed the socket and the message is still cached
+				{
+					sys_api::auto_mutex lock(m_connection_lock);
+					m_socket = INVALID_SOCKET;
+				}
+				_on_connect_failed();
+				return;
+			}
+			m_sendCache.reset();
+		}
+
+		{
+			sys_api::auto_mutex lock(m_connection_lock);
+			m_connection = conn;
+		}
 		CY_LOG(L_DEBUG, "connect to %s:%d success", m_serverAddr.get_ip(), m_serverAddr.get_port());
 
 		//bind callback functions
@@ -146,14 +167,9 @@ void TcpClient::_on_connect_status_changed(bool timeout)
 			});
 		}
 
-		//send cached message
-		if (!m_sendCache.empty()) {
-			m_connection->send((const char*)m_sendCache.normalize(), m_sendCache.size());
-			m_sendCache.reset();
-		}
 		//logic callback
 		if (m_listener.on_connected) {
-			m_listener.on_connected(shared_from_this(), m_connection, true);
+			m_listener.on_connected(shared_from_this(), conn, true);
 		}
 	}
 }
-- 
2.43.0


From f4e23165b74703188387134afabd7b295fbcb8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:13 +0000
Subject: [PATCH 27/52] fix: a failure to open the log file no longer truncates
 it

---
 source/cyCore/core/cyc_logger.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/source/cyCore/core/cyc_logger.cpp b/source/cyCore/core/cyc_logger.cpp
index 270a42d..8a33e87 100644
--- a/source/cyCore/core/cyc_logger.cpp
+++ b/source/cyCore/core/cyc_logger.cpp
@@ -155,10 +155,6 @@ void disk_log(LOG_LEVEL level, const char* message, ...)
 	}
 
 	FILE* fp = fopen(thefile.file_path_name.c_str(), "a");
-	if (fp == 0) {
-		//create the log file first
-		fp = fopen(thefile.file_path_name.c_str(), "w");
-	}
 	if (fp == 0) return;
 
 	char timebuf[32] = { 0 };
-- 
2.43.0


From 140b1b9f3dbc4b72302bf7c75109e6286bbf6386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:57 +0000
Subject: [PATCH 28/52] fix: the number of samples of a locked PeriodValue is
 read under its lock

---
 source/cyUtility/utility/cyu_statistics.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/cyUtility/utility/cyu_statistics.h b/source/cyUtility/utility/cyu_statistics.h
index 0543d8a..eec21fa 100644
--- a/source/cyUtility/utility/cyu_statistics.h
+++ b/source/cyUtility/utility/cyu_statistics.h
@@ -92,6 +92,8 @@ public:
 
 	size_t total_counts(void) const
 	{
+		AutoLock lock(m_lock);
+
 		return m_valueQueue.size();
 	}
 
-- 
2.43.0


From 1ae1af84361e454fed3912d6ac51a5848ffab9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:08 +0000
Subject: [PATCH 29/52] fix: all work threads of a server exist before the
 first one runs its callbacks

---
 source/cyNetwork/network/cyn_tcp_server.cpp        |  5 ++++-
 .../internal/cyn_tcp_server_work_thread.cpp        | 14 +++++++++-----
 .../network/internal/cyn_tcp_server_work_thread.h  |  2 ++
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_server.cpp b/source/cyNetwork/network/cyn_tcp_server.cpp
index d89012a..dfa277b 100644
--- a/source/cyNetwork/network/cyn_tcp_server.cpp
+++ b/source/cyNetwork/network/cyn_tcp_server.cpp
@@ -69,9 +69,12 @@ bool TcpServer::start(int32_t work_thread_counts)
 	//start work thread pool
 	m_workthread_counts = work_thread_counts;
 	for (int32_t i = 0; i < m_workthread_counts; i++) {
-		//run the thread
 		m_work_thread_pool.push_back(new TcpServerWorkThread(this, i));
 	}
+	//run the threads, their callbacks may send messages to each other at once
+	for (auto work : m_work_thread_pool) {
+		work->start();
+	}
 
 	//start master thread
 	if (!m_master_thread->start()) {
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
index 1308419..c6524b7 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
@@ -17,14 +17,9 @@ TcpServerWorkThread::TcpServerWorkThread(TcpServer* server, int32_t index)
 	, m_index(index)
 	, m_shutdown_ing(false)
 {
-	//run work thread
 	m_work_thread = new WorkThread();
 	m_work_thread->set_on_start(std::bind(&TcpServerWorkThread::_on_workthread_start, this));
 	m_work_thread->set_on_message(std::bind(&TcpServerWorkThread::_on_workthread_message, this, std::placeholders::_1));
-
-	char temp[MAX_PATH] = { 0 };
-	std::snprintf(temp, MAX_PATH, "tcp_work_%d", m_index);
-	m_work_thread->start(temp);
 }
 
 //-------------------------------------------------------------------------------------
@@ -33,6 +28,15 @@ TcpServerWorkThread::~TcpServerWorkThread()
 	delete m_work_thread;
 }
 
+//-------------------------------------------------------------------------------------
+void TcpServerWorkThread::start(void)
+{
+	//run work thread
+	char temp[MAX_PATH] = { 0 };
+	std::snprintf(temp, MAX_PATH, "tcp_work_%d", m_index);
+	m_work_thread->start(temp);
+}
+
 //-------------------------------------------------------------------------------------
 void TcpServerWorkThread::send_thread_message(uint16_t id, uint16_t size, const char* message)
 {
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
index 8ea722c..637f5a6 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
@@ -30,6 +30,8 @@ public:
 	};
 
 public: //call by TcpServer Only
+	//// run the work thread, messages may be sent to it before
+	void start(void);
 	//// send message to this work thread (thread safe)
 	void send_thread_message(uint16_t id, uint16_t size, const char* message);
 	void send_thread_message(const Packet* message);
-- 
2.43.0


From fbd81abd9b8b9d071a3f2a3fef2be02aaeb0f799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:20 +0000
Subject: [PATCH 30/52] fix: no work thread of a server is released before the
 others have quit

---
 source/cyNetwork/network/cyn_tcp_server.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/cyNetwork/network/cyn_tcp_server.cpp b/source/cyNetwork/network/cyn_tcp_server.cpp
index dfa277b..2a8e93c 100644
--- a/source/cyNetwork/network/cyn_tcp_server.cpp
+++ b/source/cyNetwork/network/cyn_tcp_server.cpp
@@ -155,9 +155,11 @@ void TcpServer::join(void)
 		m_master_thread->join();
 	}
 
-	//wait all thread quit
+	//wait all thread quit, until then they may send messages to each other
 	for (auto work : m_work_thread_pool) {
 		work->join();
+	}
+	for (auto work : m_work_thread_pool) {
 		delete work;
 	}
 	m_work_thread_pool.clear();
-- 
2.43.0


From 31ce111188979162f16fb045cf957424d606da2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:31 +0000
Subject: [PATCH 31/52] fix: the echo server answers everything it has read

---
 samples/echo/echo_server.cpp | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/samples/echo/echo_server.cpp b/samples/echo/echo_server.cpp
index d0952fa..59aac69 100644
--- a/samples/echo/echo_server.cpp
+++ b/samples/echo/echo_server.cpp
@@ -36,27 +36,30 @@ void onPeerMessage(TcpServer* server, int32_t thread_index, TcpConnectionPtr con
 {
 	RingBuf& buf = conn->get_input_buf();
 
-	char temp[MAX_ECHO_LENGTH + 1] = { 0 };
-	buf.memcpy_out(temp, MAX_ECHO_LENGTH);
+	//more than one piece may have arrived
+	while (!buf.empty()) {
+		char temp[MAX_ECHO_LENGTH + 1] = { 0 };
+		buf.memcpy_out(temp, MAX_ECHO_LENGTH);
 
-	CY_LOG(L_INFO, "[T=%d]receive:%s", thread_index, temp);
+		CY_LOG(L_INFO, "[T=%d]receive:%s", thread_index, temp);
 
-	if (strcmp(temp, "exit") == 0) {
-		server->shutdown_connection(conn);
-		return;
-	}
+		if (strcmp(temp, "exit") == 0) {
+			server->shutdown_connection(conn);
+			return;
+		}
 
-	if (strcmp(temp, "shutdown") == 0) {
-		sys_api::thread_create_detached([server](void*) {
-			server->stop();
-		}, 0, nullptr);
-		return;
-	}
+		if (strcmp(temp, "shutdown") == 0) {
+			sys_api::thread_create_detached([server](void*) {
+				server->stop();
+			}, 0, nullptr);
+			return;
+		}
 
-	size_t len = strlen(temp);
-	for (size_t i = 0; i < len; i++) temp[i] = (char)toupper(temp[i]);
+		size_t len = strlen(temp);
+		for (size_t i = 0; i < len; i++) temp[i] = (char)toupper(temp[i]);
 
-	conn->send(temp, strlen(temp));
+		conn->send(temp, strlen(temp));
+	}
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From f3355892057612f461c9c860a0e72920a7083c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:43 +0000
Subject: [PATCH 32/52] fix: the chat server sends outside its lock

---
 samples/chat/chat_server.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/samples/chat/chat_server.cpp b/samples/chat/chat_server.cpp
index 071bf61..e65df18 100644
--- a/samples/chat/chat_server.cpp
+++ b/samples/chat/chat_server.cpp
@@ -6,6 +6,7 @@
 #include "chat_message.h"
 
 #include <map>
+#include <vector>
 
 using namespace cyclone;
 using namespace std::placeholders;
@@ -65,13 +66,19 @@ private:
 			Packet packet;
 			if (!packet.build_from_ringbuf(PACKET_HEAD_SIZE, buf)) return;
 
+			//send may close a connection and call onClientClose, the lock must not be held here
+			std::vector<TcpConnectionPtr> connections;
 			{
 				sys_api::auto_mutex lock(m_clients_lock);
 
-				for (auto client : m_clients) {
-					client.second.connection->send(packet.get_memory_buf(), packet.get_memory_size());
+				for (auto& client : m_clients) {
+					connections.push_back(client.second.connection);
 				}
 			}
+
+			for (auto& connection : connections) {
+				connection->send(packet.get_memory_buf(), packet.get_memory_size());
+			}
 		}
 	}
 
-- 
2.43.0


From f1c288185a42a8b103bc0092140456330d4f0a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:55 +0000
Subject: [PATCH 33/52] fix: the socks5 server waits for fragmented messages
 and releases tunnels outside their callbacks

---
 samples/socks5/s5_main.cpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/samples/socks5/s5_main.cpp b/samples/socks5/s5_main.cpp
index 325e8cf..71971c1 100644
--- a/samples/socks5/s5_main.cpp
+++ b/samples/socks5/s5_main.cpp
@@ -3,6 +3,8 @@
 #include <cy_network.h>
 #include <utility/cyu_simple_opt.h>
 
+#include <list>
+
 #ifndef CY_SYS_WINDOWS
 #include <netinet/in.h>
 #include <netinet/tcp.h>
@@ -47,7 +49,10 @@ public:
 		m_remoteConnection->m_listener.on_message = std::bind(&S5Tunnel::onServerMessage, this, _2);
 		m_remoteConnection->m_listener.on_close = std::bind(&S5Tunnel::onServerClose, this);
 
-		m_remoteConnection->connect(address);
+		if (!m_remoteConnection->connect(address)) {
+			//failed at once
+			onServerConnected(nullptr, false);
+		}
 	}
 
 	void forword_up(RingBuf& inputBuf) {
@@ -59,6 +64,10 @@ public:
 		if (m_remoteConnection)
 			m_remoteConnection->disconnect();
 	}
+
+	bool is_disconnected(void) const {
+		return m_remoteConnection == nullptr || m_remoteConnection->get_connection_state() == TcpConnection::kDisconnected;
+	}
 private:
 	uint32_t onServerConnected(TcpConnectionPtr conn, bool success) 
 	{
@@ -131,26 +140,34 @@ public:
 		m_localServer = localServer;
 	}
 	void add_new_tunnel(TcpConnectionPtr conn) {
-		m_tunnelMap.insert({ conn->get_id(), S5Tunnel(m_localServer, m_looper, conn)});
+		//release the closed tunnels, none of their callbacks is running now
+		m_closedTunnels.remove_if([](const S5TunnelPtr& tunnel) { return tunnel->is_disconnected(); });
+
+		m_tunnelMap.insert({ conn->get_id(), std::make_shared<S5Tunnel>(m_localServer, m_looper, conn) });
 	}
 	S5Tunnel* get_tunnel(int32_t conn_id) {
 		auto it = m_tunnelMap.find(conn_id);
 		if (it == m_tunnelMap.end()) return nullptr;
 
-		return &(it->second);
+		return it->second.get();
 	}
 	void close_tunnel(int32_t conn_id) {
 		auto it = m_tunnelMap.find(conn_id);
 		if (it == m_tunnelMap.end()) return;
 
-		it->second.disconnect();
+		//it may be called from a callback of the tunnel, and the remote connection may still have data to send
+		S5TunnelPtr tunnel = it->second;
 		m_tunnelMap.erase(it);
+		m_closedTunnels.push_back(tunnel);
+		tunnel->disconnect();
 	}
 
 private:
-	typedef std::map<int32_t, S5Tunnel> TcpTunnelMap;
+	typedef std::shared_ptr<S5Tunnel> S5TunnelPtr;
+	typedef std::map<int32_t, S5TunnelPtr> TcpTunnelMap;
 
 	TcpTunnelMap m_tunnelMap;
+	std::list<S5TunnelPtr> m_closedTunnels;
 	Looper* m_looper;
 	TcpServer* m_localServer;
 };
@@ -221,6 +238,7 @@ private:
 		{
 			//handshake
 			int32_t s5_ret = s5_get_handshake(inputBuf);
+			if (s5_ret == S5ERR_NEED_MORE_DATA) return;
 			if (s5_ret != S5ERR_SUCCESS) {
 				CY_LOG(L_WARN, "tunnel[%d]: handshake error, code=%d", conn->get_id(), s5_ret);
 				server->shutdown_connection(conn);
@@ -242,6 +260,7 @@ private:
 			Address address;
 			std::string domain;
 			int32_t s5_ret = s5_get_connect_request(inputBuf, address, domain);
+			if (s5_ret == S5ERR_NEED_MORE_DATA) return;
 			if (s5_ret != S5ERR_SUCCESS) {
 				CY_LOG(L_WARN, "get connect request error, code=%d", s5_ret);
 				server->shutdown_connection(conn);
-- 
2.43.0


From e963e53c1c1e303d27f1193f7bef788625d8b35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:51 +0000
Subject: [PATCH 34/52] fix: relay sessions outlive their closing connection,
 failed connects and invalid packets are survived

---
 samples/relay/relay_local.cpp  | 15 +++++-
 samples/relay/relay_server.cpp | 87 ++++++++++++++++++----------------
 2 files changed, 58 insertions(+), 44 deletions(-)

diff --git a/samples/relay/relay_local.cpp b/samples/relay/relay_local.cpp
index d99c5f6..ba28ed0 100644
--- a/samples/relay/relay_local.cpp
+++ b/samples/relay/relay_local.cpp
@@ -378,8 +378,9 @@ private:
 						m_down_statistics.push((int32_t)forwardMsg.size);
 					}
 
-					RelaySession& session = it->second;
-					session.m_downConnection->send(packet.get_packet_content() + sizeof(forwardMsg), (size_t)forwardMsg.size);
+					//send may close the connection and the session
+					TcpConnectionPtr downConn = it->second.m_downConnection;
+					downConn->send(packet.get_packet_content() + sizeof(forwardMsg), (size_t)forwardMsg.size);
 					CY_LOG(L_TRACE, "[%d]receive message from UP(%zd/%zd), send to DOWN after decrypt", forwardMsg.id,
 						(size_t)forwardMsg.size, (size_t)(packet.get_packet_size() - sizeof(RelayForwardMsg)));
 				}
@@ -406,8 +407,18 @@ private:
 				}
 				break;
 
+				default:
+					CY_LOG(L_ERROR, "receive invalid packet(%d)", packetID);
+					pipe->m_upState = kDisConnected;
+					client->disconnect();
+					return;
 				}
 			}
+			else {
+				//the connection is about to be closed
+				conn->get_input_buf().reset();
+				return;
+			}
 		}
 	}
 
diff --git a/samples/relay/relay_server.cpp b/samples/relay/relay_server.cpp
index d966b73..8a76a4d 100644
--- a/samples/relay/relay_server.cpp
+++ b/samples/relay/relay_server.cpp
@@ -265,14 +265,14 @@ private:
 				//connect to up server
 				CY_LOG(L_TRACE, "Connect to up server %s:%d", m_upAddress.get_ip(), m_upAddress.get_port());
 				session->m_upClient = std::make_shared<TcpClient>(pipe->m_looper, pipe, newSessionMsg.id);
-				session->m_upClient->m_listener.on_connected = std::bind(&RelayServer::onServerConnected, this, _1, _2, _3);
+				session->m_upClient->m_listener.on_connected = std::bind(&RelayServer::onServerConnected, this, newSessionMsg.id, _1, _2, _3);
 				session->m_upClient->m_listener.on_message = std::bind(&RelayServer::onServerMessage, this, _1, _2);
 				session->m_upClient->m_listener.on_close = std::bind(&RelayServer::onServerClose, this, _1, _2);
 
+				CY_LOG(L_INFO, "[%d]Receive new session message, connect to %s:%d", newSessionMsg.id, m_upAddress.get_ip(), m_upAddress.get_port());
 				if (!(session->m_upClient->connect(m_upAddress))) {
 					_kickDownSession(pipe, newSessionMsg.id, session);
 				}
-				CY_LOG(L_INFO, "[%d]Receive new session message, connect to %s:%d", newSessionMsg.id, m_upAddress.get_ip(), m_upAddress.get_port());
 			}
 			break;
 
@@ -288,11 +288,7 @@ private:
 				auto it = pipe->m_relaySessionMap.find(closeSessionMsg.id);
 				if (it == pipe->m_relaySessionMap.end()) break;
 
-				RelaySessionPtr session = it->second;
-				session->m_upState = RelaySession::kDisconnecting;
-				session->m_upClient->disconnect();
-				session->m_upState = RelaySession::kDisconnected;
-				pipe->m_relaySessionMap.erase(it);
+				_closeUpSession(pipe, it->second);
 
 				CY_LOG(L_INFO, "[%d]Receive close session message, close it", closeSessionMsg.id);
 			}
@@ -316,11 +312,7 @@ private:
 				}
 
 				RelaySessionPtr session = it->second;
-				if (session->m_upState == RelaySession::kDisconnected) {
-					//send close session msg to down client
-					_kickDownSession(pipe, id, session);
-					break;
-				}
+				if (session->m_upState == RelaySession::kDisconnecting) break;
 
 				//decrypt and send
 				uint8_t* buf = (uint8_t*)packet.get_packet_content() + sizeof(RelayForwardMsg);
@@ -344,9 +336,15 @@ private:
 			default:
 				CY_LOG(L_ERROR, "receive invalid packet(%d)", packetID);
 				server->shutdown_connection(conn);
-				break;
+				pipe->m_downState = kWaitConnecting;
+				return;
 			}
 		}
+		else {
+			//the connection is about to be closed
+			conn->get_input_buf().reset();
+			return;
+		}
 		}
 	}
 	//-------------------------------------------------------------------------------------
@@ -357,13 +355,10 @@ private:
 		pipe->m_downState = kDisconnected;
 
 		//close all tunnel
-		for (auto it = pipe->m_relaySessionMap.begin(); it != pipe->m_relaySessionMap.end(); it++) {
-			RelaySessionPtr session = it->second;
-
-			session->m_upClient->disconnect();
-			session->m_upState = RelaySession::kDisconnected;
+		RelaySessionMap sessions = pipe->m_relaySessionMap;
+		for (auto& it : sessions) {
+			_closeUpSession(pipe, it.second);
 		}
-		pipe->m_relaySessionMap.clear();
 
 		pipe->m_downConnection.reset();
 
@@ -393,13 +388,12 @@ private:
 	}
 private:
 	//-------------------------------------------------------------------------------------
-	uint32_t onServerConnected(TcpClientPtr client, TcpConnectionPtr conn, bool success)
+	uint32_t onServerConnected(int32_t id, TcpClientPtr client, TcpConnectionPtr conn, bool success)
 	{
 		RelayPipe* pipe = (RelayPipe*)(client->get_param());
 		if (pipe->m_downState != kHandshaked) return 0;
 
 		if (success) {
-			int32_t id = conn->get_id();
 			auto it = pipe->m_relaySessionMap.find(id);
 			assert(it != pipe->m_relaySessionMap.end());
 			if (it == pipe->m_relaySessionMap.end()) {
@@ -410,8 +404,7 @@ private:
 
 			CY_LOG(L_TRACE, "[%d]Connect to UP success(%s:%d)", id, conn->get_peer_addr().get_ip(), conn->get_peer_addr().get_port());
 		}else {
-			//send close session msg to down
-			int32_t id = conn->get_id();
+			//send close session msg to down, and delete session and client
 			auto it = pipe->m_relaySessionMap.find(id);
 			if (it == pipe->m_relaySessionMap.end()) {
 				return 0;
@@ -419,18 +412,7 @@ private:
 			RelaySessionPtr session = it->second;
 			assert(session->m_upState == RelaySession::kConnecting);
 
-			RelayCloseSessionMsg msg;
-			msg.id = session->m_id;
-
-			Packet packet;
-			packet.build_from_memory(RELAY_PACKET_HEADSIZE, RelayCloseSessionMsg::ID, (uint16_t)(sizeof(RelayCloseSessionMsg)), (const char*)&msg);
-
-			//send to down client
-			pipe->m_downConnection->send((const char*)packet.get_memory_buf(), packet.get_memory_size());
-			session->m_upState = RelaySession::kDisconnected;
-
-			//send to work thread to delete session and client
-			m_downServer->send_work_message(pipe->m_workthread_index, &packet);
+			_kickDownSession(pipe, id, session);
 			CY_LOG(L_TRACE, "[%d]Connect to UP failed!", id);
 		}
 		return 0;
@@ -440,7 +422,7 @@ private:
 	void onServerMessage(TcpClientPtr client, TcpConnectionPtr conn)
 	{
 		RelayPipe* pipe = (RelayPipe*)(client->get_param());
-		if (pipe->m_downState != kHandshaked) return;
+		RingBuf& ringBuf = conn->get_input_buf();
 
 		int32_t id = conn->get_id();
 		auto it = pipe->m_relaySessionMap.find(id);
@@ -448,9 +430,14 @@ private:
 		if (it == pipe->m_relaySessionMap.end()) return;
 
 		RelaySessionPtr session = it->second;
-		RingBuf& ringBuf = conn->get_input_buf();
+		if (session->m_upState != RelaySession::kConnected) {
+			//nobody waits for it any more
+			ringBuf.reset();
+			return;
+		}
 
-		while (!ringBuf.empty()) {
+		//the down connection may be closed while sending
+		while (!ringBuf.empty() && pipe->m_downState == kHandshaked) {
 			size_t msgSize = (ringBuf.size() < 0xFF00u) ? ringBuf.size() : 0xFF00u;
 
 			RelayForwardMsg msg;
@@ -497,6 +484,10 @@ private:
 		if (session->m_upState == RelaySession::kConnected) {
 			_kickDownSession(pipe, session->m_id, session);
 		}
+		else {
+			session->m_upState = RelaySession::kDisconnected;
+			pipe->m_relaySessionMap.erase(id);
+		}
 
 		CY_LOG(L_TRACE, "[%d]UP shutdown the client, send kick msg to DOWN", id);
 	}
@@ -507,8 +498,24 @@ private:
 		return ((size & 0xF) == 0) ? size : ((size & (size_t)(~0xF)) + 0x10);
 	}
 	
+	//-------------------------------------------------------------------------------------
+	//the session goes when the connection to the up server is closed
+	void _closeUpSession(RelayPipe* pipe, RelaySessionPtr session) {
+		session->m_upState = RelaySession::kDisconnecting;
+		session->m_upClient->disconnect();
+
+		if (session->m_upClient->get_connection_state() == TcpConnection::kDisconnected) {
+			session->m_upState = RelaySession::kDisconnected;
+			pipe->m_relaySessionMap.erase(session->m_id);
+		}
+	}
+
 	//-------------------------------------------------------------------------------------
 	void _kickDownSession(RelayPipe* pipe, int32_t session_id, RelaySessionPtr session) {
+		if (session)
+			session->m_upState = RelaySession::kDisconnected;
+		pipe->m_relaySessionMap.erase(session_id);
+
 		if (pipe->m_downState != kHandshaked) return;
 
 		RelayCloseSessionMsg msg;
@@ -519,10 +526,6 @@ private:
 
 		//send to down client
 		pipe->m_downConnection->send((const char*)packet.get_memory_buf(), packet.get_memory_size());
-		if(session)
-			session->m_upState = RelaySession::kDisconnected;
-
-		pipe->m_relaySessionMap.erase(session_id);
 	}
 
 public:
-- 
2.43.0


From 0c6d98aa2e7abdf64b2f3f97db6a5465c52ed984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:05 +0000
Subject: [PATCH 35/52] fix: bind_socket leaks the socket if it can't be set to
 non-block mode

---
 .../cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
index 9b4f3cb..76de3fa 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
@@ -63,6 +63,7 @@ bool TcpServerMasterThread::bind_socket(const Address& bind_addr, bool enable_re
 	if (!socket_api::set_nonblock(sfd, true)) {
 		//the process should be stop		
 		CY_LOG(L_ERROR, "set socket to non block mode error");
+		socket_api::close_socket(sfd);
 		return false;
 	}
 
-- 
2.43.0


From cf00bcf9f507e6626dab5660bdf07e625ba079d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:24 +0000
Subject: [PATCH 36/52] fix: check_connect leaks the socket if it can't be set
 to non-block mode

---
 source/cyCore/core/cyc_socket_api.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/cyCore/core/cyc_socket_api.cpp b/source/cyCore/core/cyc_socket_api.cpp
index 26976dd..d275f05 100644
--- a/source/cyCore/core/cyc_socket_api.cpp
+++ b/source/cyCore/core/cyc_socket_api.cpp
@@ -472,7 +472,10 @@ bool check_connect(const struct sockaddr_in& addr, int timeout_ms)
 	if (s == INVALID_SOCKET) return false;
 
 	// set to non block mode
-	if (!set_nonblock(s, true)) return false;
+	if (!set_nonblock(s, true)) {
+		close_socket(s);
+		return false;
+	}
 
 	// begin connect...
 	if (!connect(s, addr)) {
-- 
2.43.0


From 004fd660123ced8fd2c1ebf24c343d9cc8d11ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:39 +0000
Subject: [PATCH 37/52] fix: ft_client divides by zero on small files and
 overflows on large ones

---
 samples/filetransfer/ft_client.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/samples/filetransfer/ft_client.cpp b/samples/filetransfer/ft_client.cpp
index 1d9d539..3405c4f 100644
--- a/samples/filetransfer/ft_client.cpp
+++ b/samples/filetransfer/ft_client.cpp
@@ -254,7 +254,10 @@ public:
 				ctx->status = TS_Error;
 			}
 			else {
-				size_t speed = (size_t)(ctx->fragmentSize*1000*1000) / (size_t)(ctx->endTime - ctx->beginTime);
+				int64_t costTime = ctx->endTime - ctx->beginTime;
+				if (costTime < 1) costTime = 1;
+
+				size_t speed = (size_t)ctx->fragmentSize * 1000 * 1000 / (size_t)costTime;
 				CY_LOG(L_INFO, "Download thread[%d] success, offset=%zd, fragment_size=%s, crc=0x%08x, speed=%s/s, readBufMaxSize=%s", 
 					ctx->index, ctx->fileOffset, string_util::size_to_string((float)ctx->fragmentSize).c_str(), ctx->fragmentCRC, string_util::size_to_string(speed).c_str(),
 					string_util::size_to_string(conn->get_readebuf_max_size()).c_str()
@@ -335,6 +338,7 @@ public:
 		if (m_fileSize < MIN_FRAMEMENT_SIZE*(size_t)m_threadTounts) {
 			//small file
 			fragmentCounts = (int32_t)(m_fileSize / MIN_FRAMEMENT_SIZE);
+			if (fragmentCounts < 1) fragmentCounts = 1;
 		}
 		else {
 			fragmentCounts = m_threadTounts;
@@ -379,7 +383,7 @@ public:
 			CY_LOG(L_INFO, "Download speed: %s/s, Size:%s Percent:[%.2f%%]", 
 				string_util::size_to_string(downloadSpeed.first / ((size_t)m_downloadSpeed.get_time_period()/ (size_t)1000)).c_str(),
 				string_util::size_to_string(totalDownloadSize).c_str(),
-				(float)(totalDownloadSize*100 / m_fileSize));
+				(float)(m_fileSize > 0 ? totalDownloadSize*100 / m_fileSize : 100));
 
 			sys_api::thread_sleep(1000);
 		}
-- 
2.43.0


From 3b338879c665067b4c20a29c40a9903195c1b5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:51 +0000
Subject: [PATCH 38/52] fix: ft_server, a refused connection must not touch the
 transfer in progress

---
 samples/filetransfer/ft_server.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/samples/filetransfer/ft_server.cpp b/samples/filetransfer/ft_server.cpp
index 4915319..8eba351 100644
--- a/samples/filetransfer/ft_server.cpp
+++ b/samples/filetransfer/ft_server.cpp
@@ -243,7 +243,8 @@ private:
 	{
 		assert(index >= 0 && index < (int32_t)m_threadContext.size());
 
-		if (m_threadContext[(size_t)index]->status != TS_Connected) {
+		ThreadContext& ctx = *(m_threadContext[(size_t)index]);
+		if (ctx.conn != conn || ctx.status != TS_Connected) {
 			conn->shutdown();
 			return;
 		}
@@ -272,6 +273,9 @@ private:
 		assert(index >= 0 && index < (int32_t)m_threadContext.size());
 		ThreadContext& ctx = *(m_threadContext[(size_t)index]);
 
+		//a refused connection, this thread is working for another one
+		if (ctx.conn != conn) return;
+
 		if (ctx.status == TS_Sending) {
 			ctx.fileHandle.close();
 		}
-- 
2.43.0


From b056c10b865dcb53d2bf531ad9e6ed40a7d53a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:04 +0000
Subject: [PATCH 39/52] fix: ft_server, a negative fragment size passes the
 range check

---
 samples/filetransfer/ft_server.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/filetransfer/ft_server.cpp b/samples/filetransfer/ft_server.cpp
index 8eba351..637b48b 100644
--- a/samples/filetransfer/ft_server.cpp
+++ b/samples/filetransfer/ft_server.cpp
@@ -208,7 +208,7 @@ private:
 		FT_RequireFileFragment* require = (FT_RequireFileFragment*)ringBuf.normalize();
 		ThreadContext& ctx = *(m_threadContext[(size_t)index]);
 
-		if (require->fileOffset + (size_t)(require->fragmentSize) > m_fileSize) {
+		if (require->fragmentSize < 0 || require->fileOffset > m_fileSize || (size_t)(require->fragmentSize) > m_fileSize - require->fileOffset) {
 			CY_LOG(L_INFO, "Receive invalid fragment download request, offset=%zd, size=%d", require->fileOffset, require->size);
 			conn->shutdown();
 			return;
-- 
2.43.0


From ecb1863388d417920423fdd00852c119ccae7c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:17 +0000
Subject: [PATCH 40/52] fix: relay_pipe, ends which close before the pipe is
 complete, refused connections and pending data

---
 samples/relay/relay_pipe.cpp | 175 ++++++++++++++++++++++-------------
 1 file changed, 113 insertions(+), 62 deletions(-)

diff --git a/samples/relay/relay_pipe.cpp b/samples/relay/relay_pipe.cpp
index 1e52941..4672511 100644
--- a/samples/relay/relay_pipe.cpp
+++ b/samples/relay/relay_pipe.cpp
@@ -29,31 +29,38 @@ public:
         assert(port1->get_state()==TcpConnection::kConnected);
         assert(port2->get_state()==TcpConnection::kConnected);
         
-        //check cache
-        forward1To2();
-        forward2To1();
     }
     
 public:
+    //-------------------------------------------------------------------------------------
+    void forwardCache(void)
+    {
+        forward1To2();
+        forward2To1();
+    }
+
     //-------------------------------------------------------------------------------------
     void forward1To2(void)
     {
-        RingBuf& ringBuf = m_port1->get_input_buf();
-        if(ringBuf.empty()) return;
-        
-        CY_LOG(L_TRACE, "Forward1To2: %zd", ringBuf.size());
-        m_port2->send((const char*)ringBuf.normalize(), ringBuf.size());
-        ringBuf.reset();
+        _forward(m_port1, m_port2, "Forward1To2");
     }
     
     //-------------------------------------------------------------------------------------
     void forward2To1(void)
     {
-        RingBuf& ringBuf = m_port2->get_input_buf();
+        _forward(m_port2, m_port1, "Forward2To1");
+    }
+private:
+    //-------------------------------------------------------------------------------------
+    //the pipe may be released while it sends(the destination turns out to be broken)
+    static void _forward(TcpConnectionPtr from, TcpConnectionPtr to, const char* name)
+    {
+        RingBuf& ringBuf = from->get_input_buf();
         if(ringBuf.empty()) return;
         
-        CY_LOG(L_TRACE, "Forward2To1: %zd", ringBuf.size());
-        m_port1->send((const char*)ringBuf.normalize(), ringBuf.size());
+        CY_LOG(L_TRACE, "%s: %zd", name, ringBuf.size());
+        (void)name;
+        to->send((const char*)ringBuf.normalize(), ringBuf.size());
         ringBuf.reset();
     }
 private:
@@ -71,20 +78,28 @@ public:
 		TcpServer server;
 		server.m_listener.on_connected = std::bind(&RelayPipe_DoubleIn::onConnected, this, _1, _3);
 		server.m_listener.on_message = std::bind(&RelayPipe_DoubleIn::onMessage, this, _3);
-		server.m_listener.on_close = std::bind(&RelayPipe_DoubleIn::onClose, this, _1);
+		server.m_listener.on_close = std::bind(&RelayPipe_DoubleIn::onClose, this, _3);
 
 		server.bind(Address(m_port1=listen_port1, false), true);
 		server.bind(Address(m_port2=listen_port2, false), true);
 
 		if (!server.start(1)) return;
 
+		//run until one of the two connections is closed
+		sys_api::signal_wait(m_quit_signal);
+		server.stop();
 		server.join();
+		m_conn1 = nullptr;
+		m_conn2 = nullptr;
 	}
 
 private:
 	//-------------------------------------------------------------------------------------
 	void onConnected(TcpServer* server, TcpConnectionPtr conn)
 	{
+		//the server is stopping, it will close this one too
+		if (m_closed) return;
+
 		if (m_port1 == conn->get_local_addr().get_port()) {
 			if (m_conn1) {
 				server->shutdown_connection(conn);
@@ -110,7 +125,9 @@ private:
         }
 
 		if (m_conn1 && m_conn2) {
-            m_pipe = std::make_shared<RelayPipe>(m_conn1, m_conn2);
+            RelayPipePtr pipe = std::make_shared<RelayPipe>(m_conn1, m_conn2);
+            m_pipe = pipe;
+            pipe->forwardCache();
 		}
 	}
 
@@ -122,21 +139,20 @@ private:
 		if (conn == m_conn1) {
             m_pipe->forward1To2();
 		}
-		else {
+		else if (conn == m_conn2) {
             m_pipe->forward2To1();
         }
 	}
 
 	//-------------------------------------------------------------------------------------
-	void onClose(TcpServer* server)
+	void onClose(TcpConnectionPtr conn)
 	{
-        m_conn1 = nullptr;
-        m_conn2 = nullptr;
+		//a refused connection is not an end of the pipe
+		if (m_closed || (conn != m_conn1 && conn != m_conn2)) return;
+
+        m_closed = true;
         m_pipe = nullptr;
-        
-		sys_api::thread_create_detached([server](void*) {
-			server->stop();
-		}, nullptr, nullptr);
+        sys_api::signal_notify(m_quit_signal);
 	}
 
 private:
@@ -145,6 +161,18 @@ private:
 	TcpConnectionPtr m_conn1;
 	TcpConnectionPtr m_conn2;
 	RelayPipePtr m_pipe;
+	bool m_closed;
+	sys_api::signal_t m_quit_signal;
+
+public:
+	RelayPipe_DoubleIn() : m_port1(0), m_port2(0), m_closed(false), m_quit_signal(sys_api::signal_create())
+	{
+
+	}
+	~RelayPipe_DoubleIn()
+	{
+		sys_api::signal_destroy(m_quit_signal);
+	}
 };
 
 ////////////////////////////////////////////////////////////////////////////////////////////
@@ -179,11 +207,15 @@ private:
         CY_LOG(L_INFO, "Connect to port1 %s:%d", m_address1.get_ip(), m_address1.get_port());
         CY_LOG(L_INFO, "Connect to port2 %s:%d", m_address2.get_ip(), m_address2.get_port());
         
+		m_client1 = client1;
+		m_client2 = client2;
 		client1->connect(m_address1);
 		client2->connect(m_address2);
 
 		m_looper->loop();
 
+		m_client1 = nullptr;
+		m_client2 = nullptr;
         assert(client1.use_count()==1);
         assert(client2.use_count()==1);
         
@@ -204,11 +236,13 @@ private:
 		CY_LOG(L_INFO, "Port%d connect success(%s:%d -> %s:%d)!", index,
                conn->get_local_addr().get_ip(), conn->get_local_addr().get_port(),
                conn->get_peer_addr().get_ip(), conn->get_peer_addr().get_port());
-        if (index == 1) { m_client1 = client; m_connection1=conn; }
-        else { m_client2 = client; m_connection2 = conn; }
+        if (index == 1) { m_connection1 = conn; }
+        else { m_connection2 = conn; }
         
-        if(m_client1 && m_client2) {
-            m_pipe = std::make_shared<RelayPipe>(m_connection1, m_connection2);
+        if(m_connection1 && m_connection2) {
+            RelayPipePtr pipe = std::make_shared<RelayPipe>(m_connection1, m_connection2);
+            m_pipe = pipe;
+            pipe->forwardCache();
         }
 		return 0;
 	}
@@ -229,19 +263,17 @@ private:
 	//-------------------------------------------------------------------------------------
 	void onClose(TcpClientPtr client)
 	{
-        if(!m_pipe) return;
-        
         m_pipe = nullptr;
-        m_connection1 = nullptr;
-        m_connection2 = nullptr;
-        if(client==m_client1 && m_client2) m_client2->disconnect();
-        if(client==m_client2 && m_client1) m_client1->disconnect();
-        m_client1 = nullptr;
-        m_client2 = nullptr;
+        if(client==m_client1) m_connection1 = nullptr;
+        else m_connection2 = nullptr;
         
-        sys_api::thread_create_detached([this](void*) {
-            m_looper->push_stop_request();
-        }, nullptr, nullptr);
+        //close the other side too(or stop to connect to it), it may still have data to send
+        bool quit = !m_connection1 && !m_connection2;
+        if(client==m_client1) m_client2->disconnect();
+        else m_client1->disconnect();
+        
+        //both sides are closed
+        if(quit) m_looper->push_stop_request();
 	}
 private:
 	Address m_address1;
@@ -275,23 +307,26 @@ public:
         m_addrToConnect = addrToConnect;
         
         TcpServer server;
-        server.m_listener.on_work_thread_start = std::bind(&RelayPipe_InOut::onWorkthreadStart, this, _1, _3);
+        server.m_listener.on_work_thread_start = std::bind(&RelayPipe_InOut::onWorkthreadStart, this, _3);
         server.m_listener.on_connected = std::bind(&RelayPipe_InOut::onConnectedIn, this, _1, _3);
         server.m_listener.on_message = std::bind(&RelayPipe_InOut::onMessageIn, this, _3);
-        server.m_listener.on_close = std::bind(&RelayPipe_InOut::onCloseIn, this);
+        server.m_listener.on_close = std::bind(&RelayPipe_InOut::onCloseIn, this, _3);
         
         server.bind(Address(m_bindPort=bindPort, false), true);
         
         if (!server.start(1)) return;
         
+        //run until one of the two connections is closed
+        sys_api::signal_wait(m_quit_signal);
+        server.stop();
         server.join();
+        m_connIn = nullptr;
     }
     
 private:
     //-------------------------------------------------------------------------------------
-    void onWorkthreadStart(TcpServer* server, Looper* looper)
+    void onWorkthreadStart(Looper* looper)
     {
-        m_server = server;
         m_looper = looper;
         
         CY_LOG(L_INFO, "Begin connect to %s:%d", m_addrToConnect.get_ip(), m_addrToConnect.get_port());
@@ -306,7 +341,7 @@ private:
     //-------------------------------------------------------------------------------------
     void onConnectedIn(TcpServer* server, TcpConnectionPtr conn)
     {
-        if(m_connIn) {
+        if(m_closed || m_connIn) {
             server->shutdown_connection(conn);
             return;
         }
@@ -315,25 +350,28 @@ private:
                conn->get_peer_addr().get_ip(), conn->get_peer_addr().get_port(),
                conn->get_local_addr().get_ip(), conn->get_local_addr().get_port());
         m_connIn = conn;
-        if(m_connOut) {
-            m_pipe = std::make_shared<RelayPipe>(m_connIn, m_connOut);
-        }
+        _createPipe();
     }
     
     //-------------------------------------------------------------------------------------
     void onMessageIn(TcpConnectionPtr conn)
     {
-        if(m_pipe)
+        if(m_pipe && conn == m_connIn)
             m_pipe->forward1To2();
     }
     //-------------------------------------------------------------------------------------
-    void onCloseIn(void)
+    void onCloseIn(TcpConnectionPtr conn)
     {
+        //a refused connection is not an end of the pipe
+        if(m_closed || conn != m_connIn) return;
+        
+        m_closed = true;
         m_pipe = nullptr;
-        m_connIn = nullptr;
-        m_connOut = nullptr;
-        if(m_client) m_client->disconnect();
-        m_client = nullptr;
+        
+        //quit when the other side is closed too, it may still have data to send
+        bool connected = (m_connOut != nullptr);
+        m_client->disconnect();
+        if(!connected) _quit();
     }
     
 private:
@@ -346,9 +384,7 @@ private:
                conn->get_local_addr().get_ip(), conn->get_local_addr().get_port(),
                conn->get_peer_addr().get_ip(), conn->get_peer_addr().get_port());
         m_connOut = conn;
-        if(m_connIn) {
-            m_pipe = std::make_shared<RelayPipe>(m_connIn, m_connOut);
-        }
+        _createPipe();
         return 0;
     }
     
@@ -361,34 +397,49 @@ private:
     //-------------------------------------------------------------------------------------
     void onCloseOut(void)
     {
+        m_closed = true;
         m_pipe = nullptr;
-        m_connIn = nullptr;
         m_connOut = nullptr;
-        m_client = nullptr;
+        _quit();
+    }
+    
+private:
+    //-------------------------------------------------------------------------------------
+    void _createPipe(void)
+    {
+        if(!m_connIn || !m_connOut) return;
         
-        sys_api::thread_create_detached([this](void*){
-            m_server->stop();
-        }, nullptr, nullptr);
+        RelayPipePtr pipe = std::make_shared<RelayPipe>(m_connIn, m_connOut);
+        m_pipe = pipe;
+        pipe->forwardCache();
+    }
+    //-------------------------------------------------------------------------------------
+    void _quit(void)
+    {
+        m_client = nullptr;
+        sys_api::signal_notify(m_quit_signal);
     }
     
 private:
     uint16_t m_bindPort;
     Address m_addrToConnect;
-    TcpServer* m_server;
     Looper* m_looper;
     TcpClientPtr m_client;
     TcpConnectionPtr m_connIn;
     TcpConnectionPtr m_connOut;
     RelayPipePtr m_pipe;
+    bool m_closed;
+    sys_api::signal_t m_quit_signal;
     
 public:
-    RelayPipe_InOut() : m_server(nullptr), m_looper(nullptr), m_client(nullptr), m_pipe(nullptr)
+    RelayPipe_InOut() : m_bindPort(0), m_looper(nullptr), m_client(nullptr), m_pipe(nullptr)
+        , m_closed(false), m_quit_signal(sys_api::signal_create())
     {
         
     }
     ~RelayPipe_InOut()
     {
-        
+        sys_api::signal_destroy(m_quit_signal);
     }
 };
 
-- 
2.43.0


From 4c03b847407b29959eb5c453c02bf83273a7116a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:23 +0000
Subject: [PATCH 41/52] fix: SimpleOpt, case-insensitive comparison lowers the
 wrong letter

---
 source/cyUtility/utility/cyu_simple_opt.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyUtility/utility/cyu_simple_opt.h b/source/cyUtility/utility/cyu_simple_opt.h
index 2678a02..4d47c2f 100644
--- a/source/cyUtility/utility/cyu_simple_opt.h
+++ b/source/cyUtility/utility/cyu_simple_opt.h
@@ -983,7 +983,7 @@ CSimpleOptTempl<SOCHAR>::IsEqual(
     // if this matches then we are doing case-insensitive matching
     if (m_nFlags & a_nArgType) {
 		if (a_cLeft >= 'A' && a_cLeft <= 'Z') a_cLeft = (SOCHAR)tolower(a_cLeft);
-		if (a_cRight >= 'A' && a_cRight <= 'Z') a_cRight = (SOCHAR)tolower(a_cLeft);
+		if (a_cRight >= 'A' && a_cRight <= 'Z') a_cRight = (SOCHAR)tolower(a_cRight);
     }
     return a_cLeft == a_cRight;
 }
-- 
2.43.0


From 19cf3f99232cac447015401e55643f8be2d6f31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:36 +0000
Subject: [PATCH 42/52] fix: SimpleOpt, overlapping argument lists are moved,
 not copied

---
 source/cyUtility/utility/cyu_simple_opt.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/cyUtility/utility/cyu_simple_opt.h b/source/cyUtility/utility/cyu_simple_opt.h
index 4d47c2f..41612cb 100644
--- a/source/cyUtility/utility/cyu_simple_opt.h
+++ b/source/cyUtility/utility/cyu_simple_opt.h
@@ -188,7 +188,7 @@ ShowFiles(args.FileCount(), args.Files());
 # define SO_STATICBUF   SO_MAX_ARGS
 #else
 # include <stdlib.h>    // malloc, free
-# include <string.h>    // memcpy
+# include <string.h>    // memmove
 # define SO_STATICBUF   50
 #endif
 
@@ -517,7 +517,8 @@ private:
         // keep our promise of no CLIB usage
         while (nCount-- > 0) *ppDst++ = *ppSrc++;
 #else
-        memcpy(ppDst, ppSrc, (size_t)nCount * sizeof(SOCHAR*));
+        // the ranges may overlap
+        memmove(ppDst, ppSrc, (size_t)nCount * sizeof(SOCHAR*));
 #endif
     }
 
-- 
2.43.0


From ded29fb7404ece0ae2d98196915d8f0361406881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:57 +0000
Subject: [PATCH 43/52] fix: SimpleOpt, Init keeps no pointer to a freed buffer

---
 source/cyUtility/utility/cyu_simple_opt.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/cyUtility/utility/cyu_simple_opt.h b/source/cyUtility/utility/cyu_simple_opt.h
index 41612cb..33f01ab 100644
--- a/source/cyUtility/utility/cyu_simple_opt.h
+++ b/source/cyUtility/utility/cyu_simple_opt.h
@@ -576,6 +576,7 @@ CSimpleOptTempl<SOCHAR>::Init(
 #else
     if (m_rgShuffleBuf) {
         free(m_rgShuffleBuf);
+        m_rgShuffleBuf = NULL;
     }
     if (m_argc > SO_STATICBUF) {
         m_rgShuffleBuf = (SOCHAR**) malloc(sizeof(SOCHAR*) * static_cast<unsigned int>(m_argc));
-- 
2.43.0


From df7a1a7cd36e53688f23205920b9e05a3f81ccb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:11 +0000
Subject: [PATCH 44/52] fix: SimpleOpt, a bare "-" is not read beyond its end

---
 source/cyUtility/utility/cyu_simple_opt.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyUtility/utility/cyu_simple_opt.h b/source/cyUtility/utility/cyu_simple_opt.h
index 33f01ab..5eb906e 100644
--- a/source/cyUtility/utility/cyu_simple_opt.h
+++ b/source/cyUtility/utility/cyu_simple_opt.h
@@ -931,7 +931,7 @@ CSimpleOptTempl<SOCHAR>::CalcMatch(
     if (a_pszSource[0] != '-') {
         nArgType = SO_O_ICASE_WORD;
     }
-    else if (a_pszSource[1] != '-' && !a_pszSource[2]) {
+    else if (a_pszSource[1] && a_pszSource[1] != '-' && !a_pszSource[2]) {
         nArgType = SO_O_ICASE_SHORT;
     }
 
-- 
2.43.0


From c7a886de537c5cf7e42615f094775b0fca15ded4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:29 +0000
Subject: [PATCH 45/52] fix: SimpleOpt, Stop drops the pending clump

---
 source/cyUtility/utility/cyu_simple_opt.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/cyUtility/utility/cyu_simple_opt.h b/source/cyUtility/utility/cyu_simple_opt.h
index 5eb906e..a31ac0d 100644
--- a/source/cyUtility/utility/cyu_simple_opt.h
+++ b/source/cyUtility/utility/cyu_simple_opt.h
@@ -773,6 +773,7 @@ template<class SOCHAR>
 void
 CSimpleOptTempl<SOCHAR>::Stop()
 {
+    m_pszClump = NULL;
     if (m_nNextOption < m_nLastArg) {
         ShuffleArg(m_nNextOption, m_nLastArg - m_nNextOption);
     }
-- 
2.43.0


From 8807ead667a40516165c503ab8d504f74dd67eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:47 +0000
Subject: [PATCH 46/52] fix: RingBuf::read_socket without vectored reads tells
 end of file and errors

---
 source/cyCore/core/cyc_ring_buf.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/source/cyCore/core/cyc_ring_buf.cpp b/source/cyCore/core/cyc_ring_buf.cpp
index bf883ca..e985758 100644
--- a/source/cyCore/core/cyc_ring_buf.cpp
+++ b/source/cyCore/core/cyc_ring_buf.cpp
@@ -204,8 +204,7 @@ ssize_t RingBuf::read_socket(socket_t fd, bool extra_buf)
 	while (nwritten != (ssize_t)count)	{
 		ssize_t n = (ssize_t)std::min((ssize_t)(m_end - m_write), (ssize_t)(count - nwritten));
 		ssize_t len = socket_api::read(fd, m_buf + m_write, (ssize_t)n);
-		if (len == 0) return 0; //EOF
-		if (len < 0) return socket_api::is_lasterror_WOULDBLOCK() ? nwritten : len;
+		if (len <= 0) return (nwritten > 0) ? nwritten : len; //EOF or error, after data the next call tells
 
 		m_write += len;
 		nwritten += len;
@@ -220,8 +219,7 @@ ssize_t RingBuf::read_socket(socket_t fd, bool extra_buf)
 	//need read more data
 	if (extra_buf) {
 		ssize_t len = socket_api::read(fd, stack_buf, STACK_BUF_SIZE);
-		if (len == 0) return nwritten; //EOF
-		if (len < 0) return socket_api::is_lasterror_WOULDBLOCK() ? nwritten : len;
+		if (len <= 0) return (nwritten > 0) ? nwritten : len; //EOF or error, after data the next call tells
 		memcpy_into(stack_buf, len);
 		return nwritten + len;
 	}
-- 
2.43.0


From b52fad8ea2c4db1c10abdb821b190564b4f56493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:30 +0000
Subject: [PATCH 47/52] fix: WorkThread, messages nobody took are freed with it

---
 source/cyEvent/event/cye_work_thread.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/source/cyEvent/event/cye_work_thread.cpp b/source/cyEvent/event/cye_work_thread.cpp
index a09785e..b3164f9 100644
--- a/source/cyEvent/event/cye_work_thread.cpp
+++ b/source/cyEvent/event/cye_work_thread.cpp
@@ -23,6 +23,10 @@ WorkThread::WorkThread()
 WorkThread::~WorkThread()
 {
 	//TODO: stop the thread
+
+	//messages nobody took
+	Packet* packet = nullptr;
+	while (m_message_queue.pop(packet)) Packet::free_packet(packet);
 }
 
 //-------------------------------------------------------------------------------------
@@ -107,7 +111,7 @@ void WorkThread::send_message(uint16_t id, uint16_t size_part1, const char* msg_
 	Packet* packet = Packet::alloc_packet();
 	packet->build_from_memory(MESSAGE_HEAD_SIZE, id, size_part1, msg_part1, size_part2, msg_part2);
 
-	m_message_queue.push(packet);
+	if (!m_message_queue.push(packet)) Packet::free_packet(packet);
 
 	_wakeup();
 }
@@ -116,7 +120,7 @@ void WorkThread::send_message(uint16_t id, uint16_t size_part1, const char* msg_
 void WorkThread::send_message(const Packet* message)
 {
 	Packet* packet = Packet::alloc_packet(message);
-	m_message_queue.push(packet);
+	if (!m_message_queue.push(packet)) Packet::free_packet(packet);
 	
 	_wakeup();
 }
@@ -126,7 +130,7 @@ void WorkThread::send_message(const Packet** message, int32_t counts)
 {
 	for (int32_t i = 0; i < counts; i++){
 		Packet* packet = Packet::alloc_packet(message[i]);
-		m_message_queue.push(packet);
+		if (!m_message_queue.push(packet)) Packet::free_packet(packet);
 	}
 
 	_wakeup();
-- 
2.43.0


From e8101352913b9b08bd8b7cc082ca78af408cd406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:59 +0000
Subject: [PATCH 48/52] fix: TcpClient::connect, no socket to be had ends the
 attempt

---
 source/cyNetwork/network/cyn_tcp_client.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index 99f17dd..7f971f7 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -68,8 +68,12 @@ bool TcpClient::connect(const Address& addr)
 	RELEASE_EVENT(m_looper, m_retry_timer_id);
 	++m_connect_sequence;
 
+	m_serverAddr = addr;
+
 	//create socket
 	m_socket = socket_api::create_socket();
+	if (m_socket == INVALID_SOCKET) return false;
+
 	//set socket to non-block and close-onexec
 	socket_api::set_nonblock(m_socket, true);
 	socket_api::set_close_onexec(m_socket, true);
@@ -77,8 +81,6 @@ bool TcpClient::connect(const Address& addr)
 	socket_api::set_keep_alive(m_socket, true);
 	socket_api::set_linger(m_socket, false, 0);
 
-	m_serverAddr = addr;
-
 	//set event callback
 	m_socket_event_id = m_looper->register_event(m_socket, Looper::kRead | Looper::kWrite, this,
 		std::bind(&TcpClient::_on_socket_read_write, this),
-- 
2.43.0


From 5cdc81b3488021fe8d02d9e0389c9ad80cf2b6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:14 +0000
Subject: [PATCH 49/52] fix: echo client, everything received is shown

---
 samples/echo/echo_client.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/samples/echo/echo_client.cpp b/samples/echo/echo_client.cpp
index 6e5141a..01fcb59 100644
--- a/samples/echo/echo_client.cpp
+++ b/samples/echo/echo_client.cpp
@@ -80,10 +80,12 @@ private:
 	{
 		RingBuf& buf = conn->get_input_buf();
 
-		char temp[MAX_ECHO_LENGTH +1] = { 0 };
-		buf.memcpy_out(temp, MAX_ECHO_LENGTH);
+		while (!buf.empty()) {
+			char temp[MAX_ECHO_LENGTH +1] = { 0 };
+			buf.memcpy_out(temp, MAX_ECHO_LENGTH);
 
-		CY_LOG(L_INFO, "%s", temp);
+			CY_LOG(L_INFO, "%s", temp);
+		}
 	}
 
 	//-------------------------------------------------------------------------------------
-- 
2.43.0


From a4d1588dad4435752770ed52976ae2950498c49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:26 +0000
Subject: [PATCH 50/52] fix: chat client, every message is shown whole, none
 overruns the buffer

---
 samples/chat/chat_client.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/samples/chat/chat_client.cpp b/samples/chat/chat_client.cpp
index ce2969d..cc6adcf 100644
--- a/samples/chat/chat_client.cpp
+++ b/samples/chat/chat_client.cpp
@@ -82,12 +82,12 @@ public:
 		RingBuf& buf = conn->get_input_buf();
 
 		Packet packet;
-		packet.build_from_ringbuf(PACKET_HEAD_SIZE, buf);
+		while (packet.build_from_ringbuf(PACKET_HEAD_SIZE, buf)) {
+			std::string temp;
+			if (packet.get_packet_size() > 0) temp.assign(packet.get_packet_content(), packet.get_packet_size());
 
-		char temp[1024] = { 0 };
-		memcpy(temp, packet.get_packet_content(), packet.get_packet_size());
-
-		CY_LOG(L_INFO, "%s", temp);
+			CY_LOG(L_INFO, "%s", temp.c_str());
+		}
 	}
 
 	//-------------------------------------------------------------------------------------
-- 
2.43.0


From 20e5713595c36c83c470c3897e944ba8295b1d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:41 +0000
Subject: [PATCH 51/52] fix: echo and chat clients end normally at the end of
 input

---
 samples/chat/chat_client.cpp | 3 ++-
 samples/echo/echo_client.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/samples/chat/chat_client.cpp b/samples/chat/chat_client.cpp
index cc6adcf..017fb81 100644
--- a/samples/chat/chat_client.cpp
+++ b/samples/chat/chat_client.cpp
@@ -168,6 +168,7 @@ int main(int argc, char* argv[])
 		chatClient.get_client()->send(packet.get_memory_buf(), packet.get_memory_size());
 	}
 
-	return 0;
+	//the client thread still runs
+	exit(0);
 }
 
diff --git a/samples/echo/echo_client.cpp b/samples/echo/echo_client.cpp
index 01fcb59..5a03b23 100644
--- a/samples/echo/echo_client.cpp
+++ b/samples/echo/echo_client.cpp
@@ -162,6 +162,7 @@ int main(int argc, char* argv[])
 		echoClient.get_client()->send(line, strlen(line));
 	}
 
-	return 0;
+	//the client thread still runs
+	exit(0);
 }
 
-- 
2.43.0


From e37186c247496a5e9109eba71906770dbf996558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:27 +0000
Subject: [PATCH 52/52] fix: set_nodelay returned false after success

---
 source/cyCore/core/cyc_socket_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyCore/core/cyc_socket_api.cpp b/source/cyCore/core/cyc_socket_api.cpp
index d275f05..fbc7263 100644
--- a/source/cyCore/core/cyc_socket_api.cpp
+++ b/source/cyCore/core/cyc_socket_api.cpp
@@ -300,7 +300,7 @@ bool set_keep_alive(socket_t s, bool on)
 bool set_nodelay(socket_t s, bool on)
 {
 	int optval = on ? 1 : 0;
-	return setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &optval, static_cast<socklen_t>(sizeof optval));
+	return socket_api::setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &optval, static_cast<socklen_t>(sizeof optval));
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0

