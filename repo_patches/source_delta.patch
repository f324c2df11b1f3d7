From 7cabef6e4680ed4b66f93ee11e979779acefff98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:50 +0000
Subject: [PATCH 01/43] fix: carry nanoseconds into seconds in
 Semaphore::wait(ms)

A timed wait begun in the last ms of a wall-clock second passed an invalid
timespec to sem_timedwait and failed at once with EINVAL.
---
 src/semaphore.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/semaphore.cpp b/src/semaphore.cpp
index 11851d1..bfedc13 100644
--- a/src/semaphore.cpp
+++ b/src/semaphore.cpp
@@ -112,6 +112,10 @@ bool Semaphore::wait(const int64_t& ms) {
 
         ts.tv_sec += (ms / 1000);
         ts.tv_nsec += ((ms % 1000) * 1000000);
+        if (ts.tv_nsec >= 1000000000) {
+            ts.tv_sec += 1;
+            ts.tv_nsec -= 1000000000;
+        }
 
         return (sem_timedwait(sh_->named_, &ts) == 0);
     }
-- 
2.43.0


From 3deedfe8e398edfc068005c91071ff4e9bc849a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:50 +0000
Subject: [PATCH 02/43] fix: resume semaphore waits that a signal interrupts

sem_wait/sem_timedwait return EINTR when a signal handler runs; the wait was
then reported as failed (or, for wait(), as succeeded) without a token.
---
 src/semaphore.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/semaphore.cpp b/src/semaphore.cpp
index bfedc13..eee6dcb 100644
--- a/src/semaphore.cpp
+++ b/src/semaphore.cpp
@@ -8,6 +8,7 @@
 #include "semaphore.h"
 #include "log.h"
 #include <assert.h>
+#include <errno.h>
 #include <limits>
 
 namespace veigar {
@@ -87,7 +88,8 @@ void Semaphore::wait() {
 #ifdef VEIGAR_OS_WINDOWS
         WaitForSingleObject(sh_->h_, INFINITE);
 #else
-        sem_wait(sh_->named_);
+        while (sem_wait(sh_->named_) != 0 && errno == EINTR) {
+        }
 #endif
     }
 }
@@ -117,10 +119,18 @@ bool Semaphore::wait(const int64_t& ms) {
             ts.tv_nsec -= 1000000000;
         }
 
-        return (sem_timedwait(sh_->named_, &ts) == 0);
+        int ret = 0;
+        do {
+            ret = sem_timedwait(sh_->named_, &ts);
+        } while (ret != 0 && errno == EINTR);
+        return (ret == 0);
     }
 
-    return (sem_wait(sh_->named_) == 0);
+    int ret = 0;
+    do {
+        ret = sem_wait(sh_->named_);
+    } while (ret != 0 && errno == EINTR);
+    return (ret == 0);
 #endif
 }
 
-- 
2.43.0


From 893e01096abbdd501764fb27c6c826ba4e6240d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:50 +0000
Subject: [PATCH 03/43] fix: Semaphore::IsExist must not create the semaphore

The probe used O_CREAT|O_EXCL without mode and value arguments, so probing a
missing name created it with an indeterminate value, which the real owner then
opened as its lock.
---
 src/semaphore.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/semaphore.cpp b/src/semaphore.cpp
index eee6dcb..ae314b2 100644
--- a/src/semaphore.cpp
+++ b/src/semaphore.cpp
@@ -21,12 +21,12 @@ bool Semaphore::IsExist(const std::string& name) {
     }
     return (h != NULL);
 #else
-    sem_t* sem = ::sem_open(name.c_str(), O_CREAT | O_EXCL);
+    sem_t* sem = ::sem_open(name.c_str(), 0);
     if (sem == SEM_FAILED) {
-        return true;
+        return false;
     }
     ::sem_close(sem);
-    return false;
+    return true;
 #endif
 }
 
-- 
2.43.0


From fc92289d42f0e4f34cc1a58e01b441332768f9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:50 +0000
Subject: [PATCH 04/43] fix: use memmove for overlapping moves in the message
 queue

---
 src/message_queue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message_queue.cpp b/src/message_queue.cpp
index 580b343..79309e6 100644
--- a/src/message_queue.cpp
+++ b/src/message_queue.cpp
@@ -224,7 +224,7 @@ bool MessageQueue::pushBack(const void* data, int64_t dataSize) {
 
             // move old data to offset zero
             uint8_t* pOldData = pFirstMsgData + *pFrontFree;
-            memcpy(pFirstMsgData, pOldData, (size_t)msgDataTotalSize);
+            memmove(pFirstMsgData, pOldData, (size_t)msgDataTotalSize);
 
             // set front free to 0
             *pFrontFree = 0;
@@ -292,7 +292,7 @@ bool MessageQueue::popFront(void* buf, int64_t bufSize, int64_t& written) {
         *pFrontFree += *pFirstMsgDataSize;
 
         // pop a element from data size list
-        memcpy(pFirstMsgDataSize, pFirstMsgDataSize + 1, (size_t)(sizeof(int64_t) * (*pCurMsgNumber)));
+        memmove(pFirstMsgDataSize, pFirstMsgDataSize + 1, (size_t)(sizeof(int64_t) * (*pCurMsgNumber)));
 
         ret = true;
     } while (false);
-- 
2.43.0


From 13ae6d638861957018df7071cef6f442d88fc1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:50 +0000
Subject: [PATCH 05/43] fix: compute message queue sizes in 64 bits and refuse
 a zero message size

capacity * expected size overflowed int for queues of 2 GiB and more; an
expected size of 0 created a queue that could not hold any message.
---
 src/message_queue.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/message_queue.cpp b/src/message_queue.cpp
index 79309e6..746dcf8 100644
--- a/src/message_queue.cpp
+++ b/src/message_queue.cpp
@@ -23,11 +23,11 @@ bool MessageQueue::create(const std::string& path) {
         assert(!shm_ && !rwLock_ && !readSmp_);
         close();
 
-        if (msgMaxNumber_ <= 0) {
+        if (msgMaxNumber_ <= 0 || msgExpectedMaxSize_ <= 0) {
             break;
         }
 
-        int64_t shmSize = sizeof(int64_t) * (msgMaxNumber_ + 3) + msgMaxNumber_ * msgExpectedMaxSize_;
+        int64_t shmSize = sizeof(int64_t) * ((int64_t)msgMaxNumber_ + 3) + (int64_t)msgMaxNumber_ * msgExpectedMaxSize_;
 
         std::string shmName = path + "_shm";
         shm_ = std::make_shared<SharedMemory>(shmName, shmSize);
@@ -85,7 +85,7 @@ bool MessageQueue::open(const std::string& path) {
         close();
 
         std::string shmName = path + "_shm";
-        int64_t shmSize = sizeof(int64_t) * (msgMaxNumber_ + 3) + msgMaxNumber_ * msgExpectedMaxSize_;
+        int64_t shmSize = sizeof(int64_t) * ((int64_t)msgMaxNumber_ + 3) + (int64_t)msgMaxNumber_ * msgExpectedMaxSize_;
 
         shm_ = std::make_shared<SharedMemory>(shmName, shmSize);
         if (!shm_->open()) {
@@ -164,7 +164,7 @@ bool MessageQueue::pushBack(const void* data, int64_t dataSize) {
     }
 
     assert(msgMaxNumber_ > 0);
-    if (msgMaxNumber_ * msgExpectedMaxSize_ < dataSize) {
+    if ((int64_t)msgMaxNumber_ * msgExpectedMaxSize_ < dataSize) {
         veigar::log("Veigar: Error: The data size has exceeded the total size of the message queue. Please adjust the parameters of the message queue.\n");
         return false;
     }
@@ -327,7 +327,7 @@ bool MessageQueue::waitForRead(int64_t ms) {
 
 bool MessageQueue::checkSpaceSufficient(int64_t dataSize, bool& waitable) const {
     assert(msgMaxNumber_ > 0);
-    if (msgMaxNumber_ * msgExpectedMaxSize_ < dataSize) {
+    if ((int64_t)msgMaxNumber_ * msgExpectedMaxSize_ < dataSize) {
         waitable = false;
         veigar::log("Veigar: Error: The data size has exceeded the total size of the message queue. Please adjust the parameters of the message queue.\n");
         return false;
-- 
2.43.0


From 6f8767f0a7449e77700eabfe32b1dee324ecda05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:28 +0000
Subject: [PATCH 06/43] fix: an unlimited Event::wait must really wait

milliseconds(INT64_MAX) overflows when wait_for adds it to the clock, so the
wait returned at once.
---
 src/event.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/event.cpp b/src/event.cpp
index d9c9601..3bc6454 100644
--- a/src/event.cpp
+++ b/src/event.cpp
@@ -58,8 +58,12 @@ bool Event::isCancelled() {
 
 bool Event::wait(int64_t millseconds) {
     std::unique_lock<std::mutex> ul(m_);
-    int64_t m = (millseconds >= 0 ? millseconds : std::chrono::duration_values<int64_t>::max());
-    settedCondVar_.wait_for(ul, std::chrono::milliseconds(m), [this] { return (isSet_ || isCancelled_); });
+    if (millseconds >= 0) {
+        settedCondVar_.wait_for(ul, std::chrono::milliseconds(millseconds), [this] { return (isSet_ || isCancelled_); });
+    }
+    else {
+        settedCondVar_.wait(ul, [this] { return (isSet_ || isCancelled_); });
+    }
     return (isSet_ || isCancelled_);
 }
 }  // namespace veigar
-- 
2.43.0


From 1be27bac86644a9d3e2e8f3bbe8a790b443b3068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:28 +0000
Subject: [PATCH 07/43] fix: instance ids must differ between processes

They came from an unseeded rand(), so every process generated the same ids and
a late response to an earlier process could complete a call of its successor.
---
 src/uuid.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/uuid.cpp b/src/uuid.cpp
index a7c84cc..07d1455 100644
--- a/src/uuid.cpp
+++ b/src/uuid.cpp
@@ -16,14 +16,16 @@
 #include <cstdio>
 #include <cstdlib>
 #include <ctime>
+#include <random>
 #endif
 #include "string_helper.h"
 
 namespace veigar {
 #ifndef VEIGAR_OS_WINDOWS
 uint32_t UUID::Rand32() {
-    return ((rand() & 0x3) << 30) | ((rand() & 0x7fff) << 15) |
-           (rand() & 0x7fff);
+    // rand() is not seeded here, it would give every process the same sequence.
+    std::random_device rd;
+    return (uint32_t)rd();
 }
 
 std::string UUID::GenUuid4() {
@@ -61,7 +63,11 @@ std::string UUID::Create() {
         guid.Data4[6],
         guid.Data4[7]);
 #else
-    return GenUuid4();
+    try {
+        return GenUuid4();
+    } catch (std::exception&) {
+        return std::string();
+    }
 #endif
 }
 }  // namespace veigar
\ No newline at end of file
-- 
2.43.0


From 7beac048433cb297fc7cd3ed3860f7fb5b8ded8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:28 +0000
Subject: [PATCH 08/43] fix: call ids of differently named functions must not
 collide

With the index appended to the name, call 12 of 'f' and call 2 of 'f1' had the
same id.
---
 src/veigar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/veigar.cpp b/src/veigar.cpp
index 6f05ebe..746945b 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -237,7 +237,7 @@ uint32_t Veigar::timeoutOfRWLock() const {
 std::string Veigar::getNextCallId(const std::string& funcName) const {
     assert(impl_);
     uint32_t idx = impl_->callIndex_.fetch_add(1);
-    std::string callId = impl_->uuid_ + funcName + std::to_string((unsigned long)idx);
+    std::string callId = impl_->uuid_ + "-" + std::to_string((unsigned long)idx) + "-" + funcName;
     return callId;
 }
 
-- 
2.43.0


From abc147dff76ee52c6f254216baf485cd0f06c55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:28 +0000
Subject: [PATCH 09/43] fix: compute the call timeout in 64 bits

timeoutMS * 1000 wrapped for timeouts above 4294967 ms, which then expired
after an arbitrary shorter time.
---
 src/veigar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/veigar.cpp b/src/veigar.cpp
index 746945b..4993266 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -270,7 +270,7 @@ bool Veigar::sendCall(const std::string& channelName,
         memcpy(cm.data, buffer->data(), cm.dataSize);
     }
 
-    cm.timeout = timeoutMS * 1000;
+    cm.timeout = (int64_t)timeoutMS * 1000;
     cm.startCallTimePoint = TimeUtil::GetCurrentTimestamp();
 
     impl_->sender_->addCall(cm);
-- 
2.43.0


From c2f97389b66899771fe81868573cbecee6db621d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:47 +0000
Subject: [PATCH 10/43] fix: keep the read signal when a dispatcher misses the
 rw-lock

A dispatcher that took the signal but timed out on the lock dropped the signal,
and the message stayed in the queue until another one arrived.
---
 src/call_dispatcher.cpp | 1 +
 src/resp_dispatcher.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index e1f5006..afd2f48 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -183,6 +183,7 @@ void CallDispatcher::dispatchThreadProc() {
 
         if (!impl_->callMsgQueue_->processRWLock(veigar_->timeoutOfRWLock())) {
             veigar::log("Veigar: Warning: Get rw-lock timeout when pop front from call message queue.\n");
+            impl_->callMsgQueue_->notifyRead();  // the message is still in the queue, keep its read signal
             continue;
         }
 
diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index 74510a8..a6f8ca6 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -99,6 +99,7 @@ void RespDispatcher::dispatchRespThreadProc() {
 
         if (!respMsgQueue_->processRWLock(veigar_->timeoutOfRWLock())) {
             veigar::log("Veigar: Warning: Get rw-lock timeout when pop front from response message queue.\n");
+            respMsgQueue_->notifyRead();  // the message is still in the queue, keep its read signal
             continue;
         }
 
-- 
2.43.0


From 5d0b221d0db955a8183b34250c06187ae0718c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:47 +0000
Subject: [PATCH 11/43] fix: do not let a malformed message swallow the
 following ones

The unpacker kept its state after an incomplete or invalid message, so the next
messages a dispatcher thread received were parsed as its continuation.
---
 src/call_dispatcher.cpp | 4 ++++
 src/resp_dispatcher.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index afd2f48..b33d0be 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -270,6 +270,10 @@ void CallDispatcher::dispatchThreadProc() {
             }
 
         } while (true);
+
+        // An incomplete or invalid message must not be continued by the next one.
+        callPac.reset();
+        callPac.remove_nonparsed_buffer();
     }
 }
 
diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index a6f8ca6..4c18eb9 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -227,6 +227,10 @@ void RespDispatcher::dispatchRespThreadProc() {
                 releaseCall(callId);
             }
         } while (true);  // msgpack unpack while
+
+        // An incomplete or invalid message must not be continued by the next one.
+        respPac.reset();
+        respPac.remove_nonparsed_buffer();
     }
 }
 
-- 
2.43.0


From 305f547636731699025fcf705d698c1e2d4c1830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:47 +0000
Subject: [PATCH 12/43] fix: do not assert on the message flag, it is remote
 input

---
 src/call_dispatcher.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index b33d0be..26d14dd 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -126,7 +126,6 @@ Response CallDispatcher::dispatchCall(veigar_msgpack::object const& msg, std::st
 
     // proper validation of protocol (and responding to it)
     auto&& type = std::get<0>(the_call);
-    assert(type == 0);
 
     auto&& callId = std::get<1>(the_call);
 
-- 
2.43.0


From 99cb1e13fed31003d322b53a88ce998da481534e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:47 +0000
Subject: [PATCH 13/43] fix: forget the joined dispatcher threads in uninit

The list of threads grew with every init/uninit cycle of an instance.
---
 src/call_dispatcher.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index 26d14dd..2a678b5 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -87,6 +87,8 @@ void CallDispatcher::uninit() {
         impl_->callMsgQueue_.reset();
     }
 
+    impl_->workers_.clear();
+
     funcs_.clear();
 
     init_ = false;
-- 
2.43.0


From 4d32c3e75c6ca4995c6fab3e7e2791f4f3135dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 14/43] fix: bound what a hostile message can make a receiver
 allocate or recurse

Array headers could claim billions of elements, partial objects of malformed
messages piled up in the unpacker's zone, and a response nested millions deep
exhausted the stack when it was cloned.
---
 src/call_dispatcher.cpp | 6 +++++-
 src/resp_dispatcher.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index 2a678b5..23b3471 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -165,7 +165,10 @@ Response CallDispatcher::dispatchCall(veigar_msgpack::object const& msg, std::st
 }
 
 void CallDispatcher::dispatchThreadProc() {
-    veigar_msgpack::unpacker callPac;
+    // No message has more elements than the queue has bytes, and deeper nesting could exhaust the stack.
+    const size_t queueSize = (size_t)veigar_->msgQueueCapacity() * veigar_->expectedMsgMaxSize();
+    veigar_msgpack::unpacker callPac(nullptr, nullptr, MSGPACK_UNPACKER_INIT_BUFFER_SIZE,
+                                veigar_msgpack::unpack_limit(queueSize, queueSize, queueSize, queueSize, queueSize, 1024));
     try {
         callPac.reserve_buffer(veigar_->expectedMsgMaxSize());
     } catch (std::bad_alloc& e) {
@@ -274,6 +277,7 @@ void CallDispatcher::dispatchThreadProc() {
 
         // An incomplete or invalid message must not be continued by the next one.
         callPac.reset();
+        callPac.reset_zone();
         callPac.remove_nonparsed_buffer();
     }
 }
diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index 4c18eb9..a95a6c1 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -77,7 +77,10 @@ std::shared_ptr<veigar::MessageQueue> RespDispatcher::messageQueue() {
 }
 
 void RespDispatcher::dispatchRespThreadProc() {
-    veigar_msgpack::unpacker respPac;
+    // No message has more elements than the queue has bytes, and deeper nesting could exhaust the stack.
+    const size_t queueSize = (size_t)veigar_->msgQueueCapacity() * veigar_->expectedMsgMaxSize();
+    veigar_msgpack::unpacker respPac(nullptr, nullptr, MSGPACK_UNPACKER_INIT_BUFFER_SIZE,
+                                veigar_msgpack::unpack_limit(queueSize, queueSize, queueSize, queueSize, queueSize, 1024));
 
     try {
         respPac.reserve_buffer(veigar_->expectedMsgMaxSize());
@@ -230,6 +233,7 @@ void RespDispatcher::dispatchRespThreadProc() {
 
         // An incomplete or invalid message must not be continued by the next one.
         respPac.reset();
+        respPac.reset_zone();
         respPac.remove_nonparsed_buffer();
     }
 }
-- 
2.43.0


From 9af41468bdea0f9ce8acc69c6ea1e607d1382703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:41 +0000
Subject: [PATCH 15/43] fix: report a wrong number of arguments instead of
 running the function

The check was an assert: in release builds the function ran with default
constructed or dropped arguments, in debug builds any peer could abort the
process.
---
 include/veigar/call_dispatcher.h   |  3 +++
 include/veigar/call_dispatcher.inl |  8 ++++----
 src/call_dispatcher.cpp            | 20 ++++++++++++++++----
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/include/veigar/call_dispatcher.h b/include/veigar/call_dispatcher.h
index a46c2a6..27d2194 100644
--- a/include/veigar/call_dispatcher.h
+++ b/include/veigar/call_dispatcher.h
@@ -89,6 +89,9 @@ class VEIGAR_API CallDispatcher {
 
     bool isFuncNameExist(std::string const& func);
 
+    // Throws if 'args' is not an array of 'expected' arguments.
+    static void checkArgsCount(veigar_msgpack::object const& args, int expected);
+
     // Dispatches a call (which will have a response).
     detail::Response dispatchCall(veigar_msgpack::object const& msg, std::string& callerChannelName);
 
diff --git a/include/veigar/call_dispatcher.inl b/include/veigar/call_dispatcher.inl
index 204cb53..14d8b55 100644
--- a/include/veigar/call_dispatcher.inl
+++ b/include/veigar/call_dispatcher.inl
@@ -29,7 +29,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::void_re
     funcs_.insert(
         std::make_pair(name, [func, name](veigar_msgpack::object const& args) {
             constexpr int args_count = std::tuple_size<args_type>::value;
-            assert(args_count == args.via.array.size);
+            checkArgsCount(args, args_count);
             func();
             return detail::make_unique<veigar_msgpack::object_handle>();
         }));
@@ -49,7 +49,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::void_re
         std::make_pair(name,
                        [func, name](veigar_msgpack::object const& args) {
                            constexpr int args_count = std::tuple_size<args_type>::value;
-                           assert(args_count == args.via.array.size);
+                           checkArgsCount(args, args_count);
 
                            args_type args_real;
                            // note: dispatcher will catch this type_error exception.
@@ -74,7 +74,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::nonvoid
         std::make_pair(name,
                        [func, name](veigar_msgpack::object const& args) {
                            constexpr int args_count = std::tuple_size<args_type>::value;
-                           assert(args_count == args.via.array.size);
+                           checkArgsCount(args, args_count);
 
                            auto z = detail::make_unique<veigar_msgpack::zone>();
                            auto result = veigar_msgpack::object(func(), *z);
@@ -96,7 +96,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::nonvoid
     funcs_.insert(std::make_pair(name,
                                  [func, name](veigar_msgpack::object const& args) {
                                      constexpr int args_count = std::tuple_size<args_type>::value;
-                                     assert(args_count == args.via.array.size);
+                                     checkArgsCount(args, args_count);
 
                                      args_type args_real;
                                      // note: dispatcher will catch this type_error exception.
diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index 23b3471..29a5f27 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -13,6 +13,7 @@
 #include "time_util.h"
 #include <atomic>
 #include <queue>
+#include <stdexcept>
 #include "message_queue.h"
 #include "run_time_recorder.h"
 
@@ -107,7 +108,7 @@ void CallDispatcher::unbind(std::string const& name) {
 
 Response CallDispatcher::dispatch(veigar_msgpack::object const& msg, std::string& callerChannelName) {
     // Quickly check
-    if (msg.via.array.size != 5) {
+    if (msg.type != veigar_msgpack::type::ARRAY || msg.via.array.size != 5) {
         return Response::MakeEmptyResponse();
     }
 
@@ -138,12 +139,13 @@ Response CallDispatcher::dispatchCall(veigar_msgpack::object const& msg, std::st
     callerChannelName = std::get<2>(the_call);
     auto&& funcName = std::get<3>(the_call);
     auto&& args = std::get<4>(the_call);
+    const uint32_t argsCount = (args.type == veigar_msgpack::type::ARRAY ? args.via.array.size : 0);
 
     std::unordered_map<std::string, AdaptorType>::const_iterator itFunc = funcs_.find(funcName);
     if (itFunc == funcs_.cend()) {
         return Response::MakeResponseWithError(
             callId,
-            StringHelper::StringPrintf("Could not find function '%s' with argument count %d.", funcName.c_str(), args.via.array.size));
+            StringHelper::StringPrintf("Could not find function '%s' with argument count %d.", funcName.c_str(), argsCount));
     }
 
     try {
@@ -154,13 +156,13 @@ Response CallDispatcher::dispatchCall(veigar_msgpack::object const& msg, std::st
             callId,
             StringHelper::StringPrintf("Function '%s' (called with %d arg(s)) threw an exception. "
                                        "The exception contained this information: %s.",
-                                       funcName.c_str(), args.via.array.size, e.what()));
+                                       funcName.c_str(), argsCount, e.what()));
     } catch (...) {
         return Response::MakeResponseWithError(
             callId,
             StringHelper::StringPrintf("Function '%s' (called with %d arg(s)) threw an exception. "
                                        "The exception is not derived from std::exception. No further information available.",
-                                       funcName.c_str(), args.via.array.size));
+                                       funcName.c_str(), argsCount));
     }
 }
 
@@ -282,6 +284,16 @@ void CallDispatcher::dispatchThreadProc() {
     }
 }
 
+void CallDispatcher::checkArgsCount(veigar_msgpack::object const& args, int expected) {
+    if (args.type != veigar_msgpack::type::ARRAY) {
+        throw std::invalid_argument("The arguments are not an array");
+    }
+
+    if (args.via.array.size != (uint32_t)expected) {
+        throw std::invalid_argument(StringHelper::StringPrintf("Expected %d argument(s), got %u", expected, args.via.array.size));
+    }
+}
+
 bool CallDispatcher::isFuncNameExist(std::string const& func) {
     auto pos = funcs_.find(func);
     if (pos != end(funcs_)) {
-- 
2.43.0


From b0442b8def44c1037b2cc9eed1d805ca7a83026d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:18 +0000
Subject: [PATCH 16/43] fix: guard the table of bound functions

bind and unbind after init (as the examples do) raced with the dispatcher
threads looking functions up, and an unbind could destroy a running function.
---
 include/veigar/call_dispatcher.h   |  8 +++++++-
 include/veigar/call_dispatcher.inl | 25 +++++++++---------------
 src/call_dispatcher.cpp            | 31 ++++++++++++++++++++++++++----
 3 files changed, 43 insertions(+), 21 deletions(-)

diff --git a/include/veigar/call_dispatcher.h b/include/veigar/call_dispatcher.h
index 27d2194..6c6dc63 100644
--- a/include/veigar/call_dispatcher.h
+++ b/include/veigar/call_dispatcher.h
@@ -12,6 +12,7 @@
 
 #include <functional>
 #include <memory>
+#include <mutex>
 #include <unordered_map>
 #include "veigar/config.h"
 #include "veigar/msgpack.hpp"
@@ -77,6 +78,7 @@ class VEIGAR_API CallDispatcher {
     // returns a list of all names which functors are binded to
     std::vector<std::string> names() const {
         std::vector<std::string> names;
+        std::lock_guard<std::mutex> lg(funcsMutex_);
         for (auto it = funcs_.begin(); it != funcs_.end(); ++it)
             names.push_back(it->first);
         return names;
@@ -89,6 +91,9 @@ class VEIGAR_API CallDispatcher {
 
     bool isFuncNameExist(std::string const& func);
 
+    // Returns false if the name is already bound.
+    bool addFunc(std::string const& name, AdaptorType func);
+
     // Throws if 'args' is not an array of 'expected' arguments.
     static void checkArgsCount(veigar_msgpack::object const& args, int expected);
 
@@ -101,7 +106,8 @@ class VEIGAR_API CallDispatcher {
     Veigar* veigar_ = nullptr;
     bool init_ = false;
 
-    std::unordered_map<std::string, AdaptorType> funcs_;
+    mutable std::mutex funcsMutex_;
+    std::unordered_map<std::string, std::shared_ptr<AdaptorType>> funcs_;
 
     class Impl;
     Impl* impl_ = nullptr;
diff --git a/include/veigar/call_dispatcher.inl b/include/veigar/call_dispatcher.inl
index 14d8b55..90f95d4 100644
--- a/include/veigar/call_dispatcher.inl
+++ b/include/veigar/call_dispatcher.inl
@@ -26,14 +26,13 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::void_re
         return false;
     }
 
-    funcs_.insert(
-        std::make_pair(name, [func, name](veigar_msgpack::object const& args) {
+    return addFunc(
+        name, [func, name](veigar_msgpack::object const& args) {
             constexpr int args_count = std::tuple_size<args_type>::value;
             checkArgsCount(args, args_count);
             func();
             return detail::make_unique<veigar_msgpack::object_handle>();
-        }));
-    return true;
+        });
 }
 
 template <typename F>
@@ -45,8 +44,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::void_re
         return false;
     }
 
-    funcs_.insert(
-        std::make_pair(name,
+    return addFunc(name,
                        [func, name](veigar_msgpack::object const& args) {
                            constexpr int args_count = std::tuple_size<args_type>::value;
                            checkArgsCount(args, args_count);
@@ -57,8 +55,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::void_re
                            detail::call(func, args_real);
 
                            return detail::make_unique<veigar_msgpack::object_handle>();
-                       }));
-    return true;
+                       });
 }
 
 template <typename F>
@@ -70,8 +67,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::nonvoid
         return false;
     }
 
-    funcs_.insert(
-        std::make_pair(name,
+    return addFunc(name,
                        [func, name](veigar_msgpack::object const& args) {
                            constexpr int args_count = std::tuple_size<args_type>::value;
                            checkArgsCount(args, args_count);
@@ -80,8 +76,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::nonvoid
                            auto result = veigar_msgpack::object(func(), *z);
 
                            return detail::make_unique<veigar_msgpack::object_handle>(result, std::move(z));
-                       }));
-    return true;
+                       });
 }
 
 template <typename F>
@@ -93,7 +88,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::nonvoid
         return false;
     }
 
-    funcs_.insert(std::make_pair(name,
+    return addFunc(name,
                                  [func, name](veigar_msgpack::object const& args) {
                                      constexpr int args_count = std::tuple_size<args_type>::value;
                                      checkArgsCount(args, args_count);
@@ -106,9 +101,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::nonvoid
                                      auto result = veigar_msgpack::object(detail::call(func, args_real), *z);
 
                                      return detail::make_unique<veigar_msgpack::object_handle>(result, std::move(z));
-                                 }));
-
-    return true;
+                                 });
 }
 }  // namespace detail
 }  // namespace veigar
diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index 29a5f27..b9f85d3 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -90,7 +90,11 @@ void CallDispatcher::uninit() {
 
     impl_->workers_.clear();
 
-    funcs_.clear();
+    std::unordered_map<std::string, std::shared_ptr<AdaptorType>> funcs;
+    {
+        std::lock_guard<std::mutex> lg(funcsMutex_);
+        funcs.swap(funcs_);
+    }
 
     init_ = false;
 }
@@ -100,12 +104,21 @@ std::shared_ptr<veigar::MessageQueue> CallDispatcher::messageQueue() {
 }
 
 void CallDispatcher::unbind(std::string const& name) {
+    std::shared_ptr<AdaptorType> func;  // destroyed after unlocking
+    std::lock_guard<std::mutex> lg(funcsMutex_);
     auto it = funcs_.find(name);
     if (it != funcs_.end()) {
+        func = std::move(it->second);
         funcs_.erase(it);
     }
 }
 
+bool CallDispatcher::addFunc(std::string const& name, AdaptorType func) {
+    auto pFunc = std::make_shared<AdaptorType>(std::move(func));
+    std::lock_guard<std::mutex> lg(funcsMutex_);
+    return funcs_.insert(std::make_pair(name, pFunc)).second;
+}
+
 Response CallDispatcher::dispatch(veigar_msgpack::object const& msg, std::string& callerChannelName) {
     // Quickly check
     if (msg.type != veigar_msgpack::type::ARRAY || msg.via.array.size != 5) {
@@ -141,15 +154,24 @@ Response CallDispatcher::dispatchCall(veigar_msgpack::object const& msg, std::st
     auto&& args = std::get<4>(the_call);
     const uint32_t argsCount = (args.type == veigar_msgpack::type::ARRAY ? args.via.array.size : 0);
 
-    std::unordered_map<std::string, AdaptorType>::const_iterator itFunc = funcs_.find(funcName);
-    if (itFunc == funcs_.cend()) {
+    // The function may be unbound while it is running.
+    std::shared_ptr<AdaptorType> func;
+    {
+        std::lock_guard<std::mutex> lg(funcsMutex_);
+        auto itFunc = funcs_.find(funcName);
+        if (itFunc != funcs_.end()) {
+            func = itFunc->second;
+        }
+    }
+
+    if (!func) {
         return Response::MakeResponseWithError(
             callId,
             StringHelper::StringPrintf("Could not find function '%s' with argument count %d.", funcName.c_str(), argsCount));
     }
 
     try {
-        auto result = (itFunc->second)(args);
+        auto result = (*func)(args);
         return Response::MakeResponseWithResult(callId, std::move(result));
     } catch (std::exception& e) {
         return Response::MakeResponseWithError(
@@ -295,6 +317,7 @@ void CallDispatcher::checkArgsCount(veigar_msgpack::object const& args, int expe
 }
 
 bool CallDispatcher::isFuncNameExist(std::string const& func) {
+    std::lock_guard<std::mutex> lg(funcsMutex_);
     auto pos = funcs_.find(func);
     if (pos != end(funcs_)) {
         return true;
-- 
2.43.0


From 4519b05b6ca2042cecbb31338394857b7c68a3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:18 +0000
Subject: [PATCH 17/43] fix: a refused init must not dereference null

init with an empty channel name rolled back members it had not created yet.
---
 src/veigar.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/veigar.cpp b/src/veigar.cpp
index 4993266..f648a27 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -79,11 +79,11 @@ class Veigar::Impl {
                 veigar_->callDisp_->uninit();
             }
 
-            if (respDispatcher_->isInit()) {
+            if (respDispatcher_ && respDispatcher_->isInit()) {
                 respDispatcher_->uninit();
             }
 
-            if (sender_->isInit()) {
+            if (sender_ && sender_->isInit()) {
                 sender_->uninit();
             }
 
-- 
2.43.0


From c8a5acdcadfcfbf4a65f7b919e400ab3f17c6b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:18 +0000
Subject: [PATCH 18/43] fix: a failed init must not drop the bindings

Its rollback uninitialised the call dispatcher, which also cleared the bound
functions.
---
 include/veigar/call_dispatcher.h |  3 +++
 src/call_dispatcher.cpp          | 12 ++++++------
 src/veigar.cpp                   |  1 +
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/veigar/call_dispatcher.h b/include/veigar/call_dispatcher.h
index 6c6dc63..d8b77ed 100644
--- a/include/veigar/call_dispatcher.h
+++ b/include/veigar/call_dispatcher.h
@@ -75,6 +75,9 @@ class VEIGAR_API CallDispatcher {
     // Unbind a functor with a given name from callable functors.
     void unbind(std::string const& name);
 
+    // Unbind all functors.
+    void unbindAll();
+
     // returns a list of all names which functors are binded to
     std::vector<std::string> names() const {
         std::vector<std::string> names;
diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index b9f85d3..f467575 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -90,15 +90,15 @@ void CallDispatcher::uninit() {
 
     impl_->workers_.clear();
 
-    std::unordered_map<std::string, std::shared_ptr<AdaptorType>> funcs;
-    {
-        std::lock_guard<std::mutex> lg(funcsMutex_);
-        funcs.swap(funcs_);
-    }
-
     init_ = false;
 }
 
+void CallDispatcher::unbindAll() {
+    std::unordered_map<std::string, std::shared_ptr<AdaptorType>> funcs;
+    std::lock_guard<std::mutex> lg(funcsMutex_);
+    funcs.swap(funcs_);
+}
+
 std::shared_ptr<veigar::MessageQueue> CallDispatcher::messageQueue() {
     return impl_->callMsgQueue_;
 }
diff --git a/src/veigar.cpp b/src/veigar.cpp
index f648a27..464701c 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -117,6 +117,7 @@ class Veigar::Impl {
         if (veigar_->callDisp_->isInit()) {
             veigar_->callDisp_->uninit();
         }
+        veigar_->callDisp_->unbindAll();
 
         assert(respDispatcher_);
         if (respDispatcher_) {
-- 
2.43.0


From b3f7c825475796278af086ba36567c407a28161d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:41 +0000
Subject: [PATCH 19/43] fix: init must fail, not throw, when a thread cannot be
 started

The exception escaped from init and left the threads that did start running on
an instance that reports itself as not initialised.
---
 src/call_dispatcher.cpp | 13 +++++++++----
 src/resp_dispatcher.cpp | 13 +++++++++----
 src/sender.cpp          | 21 +++++++++++++--------
 3 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index f467575..766b25f 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -53,12 +53,17 @@ bool CallDispatcher::init() {
 
     impl_->stop_.store(false);
 
-    for (size_t i = 0; i < VEIGAR_DISPATCHER_THREAD_NUMBER; ++i) {
-        impl_->workers_.emplace_back(std::thread(&CallDispatcher::dispatchThreadProc, this));
-    }
-
     init_ = true;
 
+    try {
+        for (size_t i = 0; i < VEIGAR_DISPATCHER_THREAD_NUMBER; ++i) {
+            impl_->workers_.emplace_back(std::thread(&CallDispatcher::dispatchThreadProc, this));
+        }
+    } catch (std::exception& e) {
+        veigar::log("Veigar: Error: Start call dispatcher threads failed: %s.\n", e.what());
+        uninit();
+    }
+
     return init_;
 }
 
diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index a95a6c1..4f6d6f1 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -30,12 +30,17 @@ bool RespDispatcher::init() {
         return false;
     }
 
-    for (size_t i = 0; i < VEIGAR_DISPATCHER_THREAD_NUMBER; ++i) {
-        workers_.emplace_back(std::thread(&RespDispatcher::dispatchRespThreadProc, this));
-    }
-
     init_ = true;
 
+    try {
+        for (size_t i = 0; i < VEIGAR_DISPATCHER_THREAD_NUMBER; ++i) {
+            workers_.emplace_back(std::thread(&RespDispatcher::dispatchRespThreadProc, this));
+        }
+    } catch (std::exception& e) {
+        veigar::log("Veigar: Error: Start response dispatcher threads failed: %s.\n", e.what());
+        uninit();
+    }
+
     return init_;
 }
 
diff --git a/src/sender.cpp b/src/sender.cpp
index fd98ac7..120dcb5 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -29,17 +29,22 @@ bool Sender::init(std::shared_ptr<RespDispatcher> respDisp,
     selfCallMQ_ = selfCallMQ;
     selfRespMQ_ = selfRespMQ;
 
-    for (size_t i = 0; i < VEIGAR_SEND_CALL_THREAD_NUMBER; ++i) {
-        callWorkers_.emplace_back(std::thread(&Sender::sendCallThreadProc, this));
-    }
+    isInit_ = true;
 
-    for (size_t i = 0; i < VEIGAR_SEND_RESPONSE_THREAD_NUMBER; ++i) {
-        respWorkers_.emplace_back(std::thread(&Sender::sendRespThreadProc, this));
-    }
+    try {
+        for (size_t i = 0; i < VEIGAR_SEND_CALL_THREAD_NUMBER; ++i) {
+            callWorkers_.emplace_back(std::thread(&Sender::sendCallThreadProc, this));
+        }
 
-    isInit_ = true;
+        for (size_t i = 0; i < VEIGAR_SEND_RESPONSE_THREAD_NUMBER; ++i) {
+            respWorkers_.emplace_back(std::thread(&Sender::sendRespThreadProc, this));
+        }
+    } catch (std::exception& e) {
+        veigar::log("Veigar: Error: Start sender threads failed: %s.\n", e.what());
+        uninit();
+    }
 
-    return true;
+    return isInit_;
 }
 
 void Sender::uninit() {
-- 
2.43.0


From 0761487959a857b92d06fa60f23cd3b10c5d826e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:41 +0000
Subject: [PATCH 20/43] fix: free the responses that are still unsent in uninit

The loop tested the (already emptied) call list.
---
 src/sender.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sender.cpp b/src/sender.cpp
index 120dcb5..918482d 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -96,7 +96,7 @@ void Sender::uninit() {
 
     // release all responses memory
     respListMutex_.lock();
-    while (!callList_.empty()) {
+    while (!respList_.empty()) {
         RespMeta rm = respList_.front();
         if (rm.data) {
             free(rm.data);
-- 
2.43.0


From c188a12a7fd9f9b77baf413a823dfb234aa46f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:36 +0000
Subject: [PATCH 21/43] fix: complete every asynchronous call exactly once

A second response to a promise call set the promise twice and terminated the
process, a response could race with a send failure, and calls pending in uninit
got a broken promise or never had their callback invoked. Whoever takes a call
out of the table of ongoing calls now completes it; a call is entered before it
is handed to the sender, so that an early releaseCall finds it.
---
 src/resp_dispatcher.cpp | 90 ++++++++++++++++++++++++++---------------
 src/resp_dispatcher.h   | 16 +++++++-
 src/sender.cpp          | 31 +++++++-------
 src/sender.h            |  6 ++-
 src/veigar.cpp          | 20 +++++++--
 5 files changed, 108 insertions(+), 55 deletions(-)

diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index 4f6d6f1..436eee4 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -70,9 +70,7 @@ void RespDispatcher::uninit() {
         respMsgQueue_.reset();
     }
 
-    ongoingCallsMutex_.lock();
-    ongoingCalls_.clear();
-    ongoingCallsMutex_.unlock();
+    failOngoingCalls("The instance has been uninitialized.");
 
     init_ = false;
 }
@@ -188,16 +186,10 @@ void RespDispatcher::dispatchRespThreadProc() {
                     continue;
                 }
 
-                ongoingCallsMutex_.lock();
-                if (ongoingCalls_.find(callId) != ongoingCalls_.end()) {
-                    retMeta = ongoingCalls_[callId];
-                }
-                else {
-                    veigar::log("Veigar: Warning: Unable to find call: %s, Going-Call number: %d.\n", callId.c_str(), ongoingCalls_.size());
-                    ongoingCallsMutex_.unlock();
+                if (!takeOngoingCall(callId, retMeta)) {
+                    veigar::log("Veigar: Warning: Unable to find call: %s.\n", callId.c_str());
                     continue;
                 }
-                ongoingCallsMutex_.unlock();
 
                 if (retMeta.metaType != 0 && retMeta.metaType != 1) {
                     veigar::log("Veigar: Warning: Invalid result meta type: %d.\n", retMeta.metaType);
@@ -220,20 +212,7 @@ void RespDispatcher::dispatchRespThreadProc() {
                 callRet.errorMessage = "An exception occurred during parsing response message.";
             }
 
-            if (retMeta.metaType == 0) {
-                assert(retMeta.p);
-                if (retMeta.p) {
-                    retMeta.p->set_value(std::move(callRet));
-                }
-            }
-            else if (retMeta.metaType == 1) {
-                assert(retMeta.cb);
-                if (retMeta.cb) {
-                    retMeta.cb(callRet);
-                }
-
-                releaseCall(callId);
-            }
+            deliverResult(retMeta, std::move(callRet));
         } while (true);  // msgpack unpack while
 
         // An incomplete or invalid message must not be continued by the next one.
@@ -243,17 +222,64 @@ void RespDispatcher::dispatchRespThreadProc() {
     }
 }
 
-void RespDispatcher::addOngoingCall(const std::string& callId, const ResultMeta& retMeta) {
-    ongoingCallsMutex_.lock();
+bool RespDispatcher::addOngoingCall(const std::string& callId, const ResultMeta& retMeta) {
+    std::lock_guard<std::mutex> lg(ongoingCallsMutex_);
+    if (!acceptCalls_) {
+        return false;
+    }
     ongoingCalls_[callId] = retMeta;
-    ongoingCallsMutex_.unlock();
+    return true;
+}
+
+bool RespDispatcher::releaseCall(const std::string& callId) {
+    ResultMeta retMeta;  // destroyed after unlocking
+    return takeOngoingCall(callId, retMeta);
 }
 
-void RespDispatcher::releaseCall(const std::string& callId) {
+bool RespDispatcher::takeOngoingCall(const std::string& callId, ResultMeta& retMeta) {
     std::lock_guard<std::mutex> lg(ongoingCallsMutex_);
     auto it = ongoingCalls_.find(callId);
-    if (it != ongoingCalls_.cend()) {
-        ongoingCalls_.erase(it);
+    if (it == ongoingCalls_.end()) {
+        return false;
+    }
+    retMeta = std::move(it->second);
+    ongoingCalls_.erase(it);
+    return true;
+}
+
+void RespDispatcher::completeCall(const std::string& callId, CallResult&& callRet) {
+    ResultMeta retMeta;
+    if (takeOngoingCall(callId, retMeta)) {
+        deliverResult(retMeta, std::move(callRet));
+    }
+}
+
+void RespDispatcher::failOngoingCalls(const std::string& errMsg) {
+    std::unordered_map<std::string, ResultMeta> calls;
+    {
+        std::lock_guard<std::mutex> lg(ongoingCallsMutex_);
+        acceptCalls_ = false;
+        calls.swap(ongoingCalls_);
+    }
+
+    for (auto& it : calls) {
+        CallResult failedRet;
+        failedRet.errCode = ErrorCode::FAILED;
+        failedRet.errorMessage = errMsg;
+        deliverResult(it.second, std::move(failedRet));
+    }
+}
+
+void RespDispatcher::deliverResult(const ResultMeta& retMeta, CallResult&& callRet) {
+    if (retMeta.metaType == 0) {
+        if (retMeta.p) {
+            retMeta.p->set_value(std::move(callRet));
+        }
+    }
+    else if (retMeta.metaType == 1) {
+        if (retMeta.cb) {
+            retMeta.cb(callRet);
+        }
     }
 }
-}  // namespace veigar
\ No newline at end of file
+}  // namespace veigar
diff --git a/src/resp_dispatcher.h b/src/resp_dispatcher.h
index 5760a68..83194dc 100644
--- a/src/resp_dispatcher.h
+++ b/src/resp_dispatcher.h
@@ -37,10 +37,21 @@ class RespDispatcher {
 
     std::shared_ptr<MessageQueue> messageQueue();
 
-    void addOngoingCall(const std::string& callId, const ResultMeta& retMeta);
-    void releaseCall(const std::string& callId);
+    // Returns false after failOngoingCalls.
+    bool addOngoingCall(const std::string& callId, const ResultMeta& retMeta);
+
+    // Returns false if the call is not ongoing (already completed or released).
+    bool releaseCall(const std::string& callId);
+
+    // Delivers the result if the call is still ongoing, each call is completed at most once.
+    void completeCall(const std::string& callId, CallResult&& callRet);
+
+    // Completes all ongoing calls with the error and accepts no further ones.
+    void failOngoingCalls(const std::string& errMsg);
 
    private:
+    bool takeOngoingCall(const std::string& callId, ResultMeta& retMeta);
+    static void deliverResult(const ResultMeta& retMeta, CallResult&& callRet);
     void dispatchRespThreadProc();
 
    private:
@@ -48,6 +59,7 @@ class RespDispatcher {
     bool init_ = false;
 
     std::mutex ongoingCallsMutex_;
+    bool acceptCalls_ = true;
     std::unordered_map<std::string, ResultMeta> ongoingCalls_;  // call id -> ResultMeta
 
     std::vector<std::thread> workers_;
diff --git a/src/sender.cpp b/src/sender.cpp
index 918482d..801ab4a 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -85,6 +85,7 @@ void Sender::uninit() {
 
     // release all calls memory
     callListMutex_.lock();
+    acceptCalls_ = false;
     while (!callList_.empty()) {
         CallMeta cm = callList_.front();
         if (cm.data) {
@@ -96,6 +97,7 @@ void Sender::uninit() {
 
     // release all responses memory
     respListMutex_.lock();
+    acceptResps_ = false;
     while (!respList_.empty()) {
         RespMeta rm = respList_.front();
         if (rm.data) {
@@ -116,16 +118,27 @@ bool Sender::isInit() const {
     return isInit_;
 }
 
-void Sender::addCall(const Sender::CallMeta& cm) {
+bool Sender::addCall(const Sender::CallMeta& cm) {
     callListMutex_.lock();
+    if (!acceptCalls_) {
+        callListMutex_.unlock();
+        free(cm.data);
+        return false;
+    }
     callList_.emplace(cm);
     callListMutex_.unlock();
 
     callListSetEvent_.set();
+    return true;
 }
 
 void Sender::addResp(const Sender::RespMeta& rm) {
     respListMutex_.lock();
+    if (!acceptResps_) {
+        respListMutex_.unlock();
+        free(rm.data);
+        return;
+    }
     respList_.emplace(rm);
     respListMutex_.unlock();
 
@@ -195,8 +208,6 @@ void Sender::sendCallThreadProc() {
             callList_.pop();
             callListMutex_.unlock();
 
-            respDisp_->addOngoingCall(cm.callId, cm.resultMeta);
-
             ErrorCode ec = ErrorCode::FAILED;
             std::shared_ptr<MessageQueue> mq = nullptr;
             try {
@@ -250,22 +261,10 @@ void Sender::sendCallThreadProc() {
             }
 
             if (ec != ErrorCode::SUCCESS) {
-                respDisp_->releaseCall(cm.callId);
-
                 CallResult failedRet;
                 failedRet.errCode = ec;
                 failedRet.errorMessage = errMsg;
-
-                if (cm.resultMeta.metaType == 0) {
-                    if (cm.resultMeta.p) {
-                        cm.resultMeta.p->set_value(std::move(failedRet));
-                    }
-                }
-                else if (cm.resultMeta.metaType == 1) {
-                    if (cm.resultMeta.cb) {
-                        cm.resultMeta.cb(failedRet);
-                    }
-                }
+                respDisp_->completeCall(cm.callId, std::move(failedRet));
             }
 
             if (cm.data) {
diff --git a/src/sender.h b/src/sender.h
index 65e9cd9..3b099e8 100644
--- a/src/sender.h
+++ b/src/sender.h
@@ -25,7 +25,6 @@ class Sender {
     struct CallMeta {
         std::string channel;
         std::string callId;
-        ResultMeta resultMeta;
         uint8_t* data = nullptr;
         size_t dataSize = 0;
         int64_t startCallTimePoint;  // microseconds
@@ -49,7 +48,8 @@ class Sender {
 
     bool isInit() const;
 
-    void addCall(const Sender::CallMeta& cm);
+    // Returns false after uninit.
+    bool addCall(const Sender::CallMeta& cm);
     void addResp(const Sender::RespMeta& rm);
 
    private:
@@ -75,11 +75,13 @@ class Sender {
     std::shared_ptr<MessageQueue> selfRespMQ_ = nullptr;
 
     std::mutex callListMutex_;
+    bool acceptCalls_ = true;
     std::queue<CallMeta> callList_;
     Event callListSetEvent_;
     std::vector<std::thread> callWorkers_;
 
     std::mutex respListMutex_;
+    bool acceptResps_ = true;
     std::queue<RespMeta> respList_;
     Event respListSetEvent_;
     std::vector<std::thread> respWorkers_;
diff --git a/src/veigar.cpp b/src/veigar.cpp
index 464701c..c0add50 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -113,6 +113,11 @@ class Veigar::Impl {
             sender_.reset();
         }
 
+        // Nothing is sent any more: do not let a running function wait for its own calls.
+        if (respDispatcher_) {
+            respDispatcher_->failOngoingCalls("The instance has been uninitialized.");
+        }
+
         assert(veigar_ && veigar_->callDisp_);
         if (veigar_->callDisp_->isInit()) {
             veigar_->callDisp_->uninit();
@@ -252,14 +257,13 @@ bool Veigar::sendCall(const std::string& channelName,
     assert(impl_);
     assert(timeoutMS > impl_->processRWTimeout_ && "The call timeout should be greater than the timeout for acquiring the inter-process read-write lock.");
 
-    if (!impl_->sender_) {
+    if (!impl_->sender_ || !impl_->respDispatcher_) {
         return false;
     }
 
     Sender::CallMeta cm;
     cm.channel = channelName;
     cm.callId = callId;
-    cm.resultMeta = retMeta;
     cm.dataSize = buffer ? buffer->size() : 0;
     cm.data = (uint8_t*)malloc(cm.dataSize);
     if (!cm.data) {
@@ -274,7 +278,17 @@ bool Veigar::sendCall(const std::string& channelName,
     cm.timeout = (int64_t)timeoutMS * 1000;
     cm.startCallTimePoint = TimeUtil::GetCurrentTimestamp();
 
-    impl_->sender_->addCall(cm);
+    if (!impl_->respDispatcher_->addOngoingCall(callId, retMeta)) {
+        free(cm.data);
+        exceptionMsg = "The instance has been uninitialized.";
+        return false;
+    }
+
+    if (!impl_->sender_->addCall(cm)) {
+        exceptionMsg = "The instance has been uninitialized.";
+        // If the call is not ongoing any more it has been completed already.
+        return !impl_->respDispatcher_->releaseCall(callId);
+    }
 
     return true;
 }
-- 
2.43.0


From 27b1584326ea30ccf0ba87947ace777ae3c7ffa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:09 +0000
Subject: [PATCH 22/43] fix: uninit must not race with threads that use the
 instance

Worker threads and callers read sender_ and respDispatcher_ while uninit reset
them; calls made meanwhile could use a destroyed sender or were lost.
---
 src/veigar.cpp | 77 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 55 insertions(+), 22 deletions(-)

diff --git a/src/veigar.cpp b/src/veigar.cpp
index c0add50..2232e8e 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -7,6 +7,8 @@
  */
 #include "veigar/veigar.h"
 #include <cstdlib>
+#include <atomic>
+#include <mutex>
 #include "uuid.h"
 #include "log.h"
 #include "message_queue.h"
@@ -25,6 +27,16 @@ class Veigar::Impl {
 
     ~Impl() noexcept = default;
 
+    std::shared_ptr<RespDispatcher> respDispatcher() {
+        std::lock_guard<std::mutex> lg(mutex_);
+        return respDispatcher_;
+    }
+
+    std::shared_ptr<Sender> sender() {
+        std::lock_guard<std::mutex> lg(mutex_);
+        return sender_;
+    }
+
     bool init(const std::string& channelName, uint32_t msgQueueCapacity, uint32_t expectedMsgMaxSize) {
         if (isInit_) {
             veigar::log("Veigar: Warning: Already init.\n");
@@ -40,18 +52,22 @@ class Veigar::Impl {
                 break;
             }
 
-            channelName_ = channelName;
             msgQueueCapacity_ = msgQueueCapacity;
             expectedMsgMaxSize_ = expectedMsgMaxSize;
 
-            uuid_ = UUID::Create();
-            if (uuid_.empty()) {
-                veigar::log("Veigar: Error: Generate uuid failed.\n");
-                break;
-            }
+            {
+                std::lock_guard<std::mutex> lg(mutex_);
+                channelName_ = channelName;
+
+                uuid_ = UUID::Create();
+                if (uuid_.empty()) {
+                    veigar::log("Veigar: Error: Generate uuid failed.\n");
+                    break;
+                }
 
-            respDispatcher_ = std::make_shared<RespDispatcher>(veigar_);
-            sender_ = std::make_shared<Sender>(veigar_);
+                respDispatcher_ = std::make_shared<RespDispatcher>(veigar_);
+                sender_ = std::make_shared<Sender>(veigar_);
+            }
 
             assert(veigar_->callDisp_);
             if (!veigar_->callDisp_->init()) {
@@ -83,10 +99,16 @@ class Veigar::Impl {
                 respDispatcher_->uninit();
             }
 
-            if (sender_ && sender_->isInit()) {
+            // Other threads may have started calls already.
+            if (sender_) {
                 sender_->uninit();
             }
 
+            if (respDispatcher_) {
+                respDispatcher_->failOngoingCalls("Init failed.");
+            }
+
+            std::lock_guard<std::mutex> lg(mutex_);
             uuid_.clear();
             channelName_.clear();
 
@@ -110,7 +132,6 @@ class Veigar::Impl {
             if (sender_->isInit()) {
                 sender_->uninit();
             }
-            sender_.reset();
         }
 
         // Nothing is sent any more: do not let a running function wait for its own calls.
@@ -129,20 +150,26 @@ class Veigar::Impl {
             if (respDispatcher_->isInit()) {
                 respDispatcher_->uninit();
             }
-            respDispatcher_.reset();
         }
 
+        // Other threads may still be using the members, and the worker threads were until now.
+        std::lock_guard<std::mutex> lg(mutex_);
+        sender_.reset();
+        respDispatcher_.reset();
+
         isInit_ = false;
     }
 
     Veigar* veigar_ = nullptr;
-    bool isInit_ = false;
-    uint32_t msgQueueCapacity_ = 0;
-    uint32_t expectedMsgMaxSize_ = 0;
+    std::atomic_bool isInit_ = {false};
+    std::atomic<uint32_t> msgQueueCapacity_ = {0};
+    std::atomic<uint32_t> expectedMsgMaxSize_ = {0};
 
     std::atomic<uint32_t> processRWTimeout_ = { 30 };  // ms
 
     std::atomic<uint32_t> callIndex_ = { 0 };
+
+    std::mutex mutex_;  // protects the members below
     std::string channelName_;
     std::string uuid_;
 
@@ -212,6 +239,7 @@ uint32_t Veigar::expectedMsgMaxSize() const {
 
 std::string Veigar::channelName() const {
     assert(impl_);
+    std::lock_guard<std::mutex> lg(impl_->mutex_);
     return impl_->channelName_;
 }
 
@@ -243,6 +271,7 @@ uint32_t Veigar::timeoutOfRWLock() const {
 std::string Veigar::getNextCallId(const std::string& funcName) const {
     assert(impl_);
     uint32_t idx = impl_->callIndex_.fetch_add(1);
+    std::lock_guard<std::mutex> lg(impl_->mutex_);
     std::string callId = impl_->uuid_ + "-" + std::to_string((unsigned long)idx) + "-" + funcName;
     return callId;
 }
@@ -257,7 +286,9 @@ bool Veigar::sendCall(const std::string& channelName,
     assert(impl_);
     assert(timeoutMS > impl_->processRWTimeout_ && "The call timeout should be greater than the timeout for acquiring the inter-process read-write lock.");
 
-    if (!impl_->sender_ || !impl_->respDispatcher_) {
+    std::shared_ptr<Sender> sender = impl_->sender();
+    std::shared_ptr<RespDispatcher> respDispatcher = impl_->respDispatcher();
+    if (!sender || !respDispatcher) {
         return false;
     }
 
@@ -278,16 +309,16 @@ bool Veigar::sendCall(const std::string& channelName,
     cm.timeout = (int64_t)timeoutMS * 1000;
     cm.startCallTimePoint = TimeUtil::GetCurrentTimestamp();
 
-    if (!impl_->respDispatcher_->addOngoingCall(callId, retMeta)) {
+    if (!respDispatcher->addOngoingCall(callId, retMeta)) {
         free(cm.data);
         exceptionMsg = "The instance has been uninitialized.";
         return false;
     }
 
-    if (!impl_->sender_->addCall(cm)) {
+    if (!sender->addCall(cm)) {
         exceptionMsg = "The instance has been uninitialized.";
         // If the call is not ongoing any more it has been completed already.
-        return !impl_->respDispatcher_->releaseCall(callId);
+        return !respDispatcher->releaseCall(callId);
     }
 
     return true;
@@ -298,7 +329,8 @@ bool Veigar::sendResponse(const std::string& targetChannel,
                           size_t bufSize,
                           std::string& errMsg) {
     assert(impl_);
-    if (!impl_->sender_) {
+    std::shared_ptr<Sender> sender = impl_->sender();
+    if (!sender) {
         return false;
     }
 
@@ -315,14 +347,15 @@ bool Veigar::sendResponse(const std::string& targetChannel,
     rm.timeout = VEIGAR_WRITE_RESPONSE_QUEUE_TIMEOUT * 1000;
     rm.startCallTimePoint = TimeUtil::GetCurrentTimestamp();
 
-    impl_->sender_->addResp(rm);
+    sender->addResp(rm);
 
     return true;
 }
 
 void Veigar::releaseCall(const std::string& callId) {
-    if (impl_->respDispatcher_) {
-        impl_->respDispatcher_->releaseCall(callId);
+    std::shared_ptr<RespDispatcher> respDispatcher = impl_->respDispatcher();
+    if (respDispatcher) {
+        respDispatcher->releaseCall(callId);
     }
 }
 
-- 
2.43.0


From f2909780eea4fb24ccabbb6855d3213624524f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:43 +0000
Subject: [PATCH 23/43] fix: syncCall must return when its timeout has passed

It waited for the result without limit, so a target that stopped, died or was
stuck in the function blocked the caller forever.
---
 include/veigar/veigar.inl | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/veigar/veigar.inl b/include/veigar/veigar.inl
index 90c2da0..d4747f2 100644
--- a/include/veigar/veigar.inl
+++ b/include/veigar/veigar.inl
@@ -49,6 +49,15 @@ CallResult Veigar::syncCall(const std::string& targetChannel,
         return cr;
     }
 
+    if (acr->second.wait_for(std::chrono::milliseconds(timeoutMS)) != std::future_status::ready) {
+        releaseCall(acr->first);
+
+        CallResult cr;
+        cr.errCode = ErrorCode::TIMEOUT;
+        cr.errorMessage = "Waiting for the result timeout.";
+        return cr;
+    }
+
     CallResult callRet = acr->second.get();
 
     releaseCall(acr->first);
-- 
2.43.0


From d90dcef1db41bf514070873139dfc43c7f210725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:47 +0000
Subject: [PATCH 24/43] fix: exceptions of callbacks and of packing must not
 escape or repeat a completion

A throwing result callback terminated the process (on a library thread) or was
invoked a second time (in asyncCall), and a call whose arguments fail to pack
got an invalid future.
---
 include/veigar/call_result.h | 12 ++++++++++++
 include/veigar/veigar.inl    | 28 ++++++++++++----------------
 src/resp_dispatcher.cpp      |  4 +---
 3 files changed, 25 insertions(+), 19 deletions(-)

diff --git a/include/veigar/call_result.h b/include/veigar/call_result.h
index a3be805..77a6fbf 100644
--- a/include/veigar/call_result.h
+++ b/include/veigar/call_result.h
@@ -10,6 +10,7 @@
 #define VEIGAR_CALL_RESULT_H_
 #pragma once
 
+#include <functional>
 #include <future>
 #include "veigar/msgpack.hpp"
 
@@ -72,6 +73,17 @@ class VEIGAR_API CallResult {
 using AsyncCallResult = std::pair<std::string /* call id*/, std::future<CallResult>>;
 
 typedef std::function<void(const CallResult&)> ResultCallback;
+
+// What the callback throws has nowhere to go: it must end neither the calling thread's call nor a library thread.
+inline void invokeResultCallback(const ResultCallback& cb, const CallResult& result) {
+    if (cb) {
+        try {
+            cb(result);
+        } catch (...) {
+        }
+    }
+}
+
 struct ResultMeta {
     int8_t metaType = 0;  // 0 = promise, 1 = callback
     std::shared_ptr<std::promise<CallResult>> p;
diff --git a/include/veigar/veigar.inl b/include/veigar/veigar.inl
index d4747f2..bbc4bce 100644
--- a/include/veigar/veigar.inl
+++ b/include/veigar/veigar.inl
@@ -82,10 +82,9 @@ std::shared_ptr<AsyncCallResult> Veigar::doAsyncCall(const std::string& targetCh
 
     acr->first = callId;
     auto p = std::make_shared<std::promise<CallResult>>();
+    acr->second = p->get_future();
 
     try {
-        auto ft = p->get_future();
-
         std::string curChannelName = channelName();
         auto argsObj = std::make_tuple(args...);
         auto callObj = std::make_tuple(0, callId, curChannelName, funcName, argsObj);
@@ -108,11 +107,12 @@ std::shared_ptr<AsyncCallResult> Veigar::doAsyncCall(const std::string& targetCh
 
             p->set_value(std::move(failedRet));
         }
-
-        acr->second = std::move(ft);
     } catch (std::exception& e) {
         failedRet.errorMessage = e.what();
         p->set_value(std::move(failedRet));
+    } catch (...) {
+        failedRet.errorMessage = "An exception occurred during sending the call.";
+        p->set_value(std::move(failedRet));
     }
 
     return acr;
@@ -131,10 +131,8 @@ void Veigar::doAsyncCallWithCallback(
     const std::string callId = getNextCallId(funcName);
     assert(!callId.empty());
     if (callId.empty()) {
-        if (cb) {
-            failedRet.errorMessage = "Unable to generate call id.";
-            cb(failedRet);
-        }
+        failedRet.errorMessage = "Unable to generate call id.";
+        invokeResultCallback(cb, failedRet);
         return;
     }
 
@@ -158,18 +156,16 @@ void Veigar::doAsyncCallWithCallback(
             else {
                 failedRet.errorMessage = "Send failed: " + errMsg;
             }
-
-            if (cb) {
-                cb(failedRet);
-            }
+        }
+        else {
             return;
         }
     } catch (std::exception& e) {
         failedRet.errorMessage = e.what();
-        if (cb) {
-            cb(failedRet);
-        }
-        return;
+    } catch (...) {
+        failedRet.errorMessage = "An exception occurred during sending the call.";
     }
+
+    invokeResultCallback(cb, failedRet);
 }
 }  // namespace veigar
\ No newline at end of file
diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index 436eee4..b10d445 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -277,9 +277,7 @@ void RespDispatcher::deliverResult(const ResultMeta& retMeta, CallResult&& callR
         }
     }
     else if (retMeta.metaType == 1) {
-        if (retMeta.cb) {
-            retMeta.cb(callRet);
-        }
+        invokeResultCallback(retMeta.cb, callRet);
     }
 }
 }  // namespace veigar
-- 
2.43.0


From ba1f47f77c9d57c4f20a69fc71f2d1b0f91f3c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:00 +0000
Subject: [PATCH 25/43] fix: do not hold the queue lock while waiting for space
 in the queue

The reader of a full queue could not take the lock to drain it, so the wait
always ended in a timeout, and three calls to one full target kept every other
target from being called. Messages that do not fit yet are now put back and
tried again. A message that can never fit is reported as such, not as timeout.
---
 src/sender.cpp | 96 ++++++++++++++++++++++++++++++--------------------
 src/sender.h   |  5 ---
 2 files changed, 57 insertions(+), 44 deletions(-)

diff --git a/src/sender.cpp b/src/sender.cpp
index 801ab4a..b5ec62d 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -185,6 +185,7 @@ std::shared_ptr<MessageQueue> Sender::getTargetRespMessageQueue(const std::strin
 
 void Sender::sendCallThreadProc() {
     std::string errMsg;
+    std::vector<CallMeta> waitings;
     while (true) {
         if (!callListSetEvent_.wait(30))
             continue;
@@ -208,6 +209,7 @@ void Sender::sendCallThreadProc() {
             callList_.pop();
             callListMutex_.unlock();
 
+            bool retry = false;
             ErrorCode ec = ErrorCode::FAILED;
             std::shared_ptr<MessageQueue> mq = nullptr;
             try {
@@ -222,7 +224,8 @@ void Sender::sendCallThreadProc() {
 
                 if (mq) {
                     if (mq->processRWLock(veigar_->timeoutOfRWLock())) {
-                        if (checkSpaceAndWait(mq, cm.dataSize, cm.startCallTimePoint, cm.timeout)) {
+                        bool waitable = false;
+                        if (mq->checkSpaceSufficient(cm.dataSize, waitable)) {
                             if (mq->pushBack(cm.data, cm.dataSize)) {
                                 mq->notifyRead();
                                 ec = ErrorCode::SUCCESS;
@@ -231,10 +234,16 @@ void Sender::sendCallThreadProc() {
                                 errMsg = "Unable to push message to queue.";
                             }
                         }
-                        else {
+                        else if (!waitable) {
+                            errMsg = "The message is larger than the message queue.";
+                        }
+                        else if (TimeUtil::GetCurrentTimestamp() - cm.startCallTimePoint >= cm.timeout) {
                             ec = ErrorCode::TIMEOUT;
                             errMsg = "Waiting for call queue availability timeout.";
                         }
+                        else {
+                            retry = true;
+                        }
                         mq->processRWUnlock();
                     }
                     else {
@@ -260,6 +269,11 @@ void Sender::sendCallThreadProc() {
                 errMsg = "An exception occurred during pushing message to call queue.";
             }
 
+            if (retry) {
+                waitings.push_back(cm);
+                continue;
+            }
+
             if (ec != ErrorCode::SUCCESS) {
                 CallResult failedRet;
                 failedRet.errCode = ec;
@@ -271,11 +285,26 @@ void Sender::sendCallThreadProc() {
                 free(cm.data);
             }
         }
+
+        if (!waitings.empty()) {
+            // The target queues are full. Try again later, holding up neither their readers nor other targets.
+            stopEvent_.wait(2);
+
+            callListMutex_.lock();
+            for (const CallMeta& waiting : waitings) {
+                callList_.push(waiting);
+            }
+            callListMutex_.unlock();
+
+            waitings.clear();
+            callListSetEvent_.set();
+        }
     }
 }
 
 void Sender::sendRespThreadProc() {
     std::string errMsg;
+    std::vector<RespMeta> waitings;
     while (true) {
         if (!respListSetEvent_.wait(30))
             continue;
@@ -299,6 +328,7 @@ void Sender::sendRespThreadProc() {
             respList_.pop();
             respListMutex_.unlock();
 
+            bool retry = false;
             ErrorCode ec = ErrorCode::FAILED;
             std::shared_ptr<MessageQueue> mq = nullptr;
             try {
@@ -313,7 +343,8 @@ void Sender::sendRespThreadProc() {
 
                 if (mq) {
                     if (mq->processRWLock(veigar_->timeoutOfRWLock())) {
-                        if (checkSpaceAndWait(mq, rm.dataSize, rm.startCallTimePoint, rm.timeout)) {
+                        bool waitable = false;
+                        if (mq->checkSpaceSufficient(rm.dataSize, waitable)) {
                             if (mq->pushBack(rm.data, rm.dataSize)) {
                                 mq->notifyRead();
                                 ec = ErrorCode::SUCCESS;
@@ -322,10 +353,16 @@ void Sender::sendRespThreadProc() {
                                 errMsg = "Unable to push message to response queue.";
                             }
                         }
-                        else {
+                        else if (!waitable) {
+                            errMsg = "The message is larger than the message queue.";
+                        }
+                        else if (TimeUtil::GetCurrentTimestamp() - rm.startCallTimePoint >= rm.timeout) {
                             ec = ErrorCode::TIMEOUT;
                             errMsg = "Waiting for response queue availability timeout.";
                         }
+                        else {
+                            retry = true;
+                        }
                         mq->processRWUnlock();
                     }
                     else {
@@ -349,6 +386,11 @@ void Sender::sendRespThreadProc() {
                 errMsg = "An exception occurred during parsing pushing message to response queue.";
             }
 
+            if (retry) {
+                waitings.push_back(rm);
+                continue;
+            }
+
             if (ec != ErrorCode::SUCCESS) {
                 veigar::log("Veigar: Error: Send response failed: %s\n", errMsg.c_str());
             }
@@ -357,44 +399,20 @@ void Sender::sendRespThreadProc() {
                 free(rm.data);
             }
         }
-    }
-}
-
-bool Sender::checkSpaceAndWait(std::shared_ptr<MessageQueue> mq,
-                               int64_t needSize,
-                               int64_t startCallTimePoint,
-                               int64_t timeout) {
-    bool result = false;
-    do {
-        bool waitable = false;
-        if (mq->checkSpaceSufficient(needSize, waitable)) {
-            result = true;
-            break;
-        }
-
-        if (!waitable) {
-            break;
-        }
 
-        int64_t used = TimeUtil::GetCurrentTimestamp() - startCallTimePoint;
-        if (used >= timeout) {
-            break;
-        }
+        if (!waitings.empty()) {
+            // The target queues are full. Try again later, holding up neither their readers nor other targets.
+            stopEvent_.wait(2);
 
-        int64_t waitMS = 0;
-        int64_t ms = (timeout - used) / 1000;
-        if (ms > 5) {
-            waitMS = 5;
-        }
-        else {
-            waitMS = ms;
-        }
+            respListMutex_.lock();
+            for (const RespMeta& waiting : waitings) {
+                respList_.push(waiting);
+            }
+            respListMutex_.unlock();
 
-        if (stopEvent_.wait(waitMS)) {
-            break;  // user call uninit, exit now!
+            waitings.clear();
+            respListSetEvent_.set();
         }
-    } while (true);
-
-    return result;
+    }
 }
 }  // namespace veigar
diff --git a/src/sender.h b/src/sender.h
index 3b099e8..989fcf0 100644
--- a/src/sender.h
+++ b/src/sender.h
@@ -59,11 +59,6 @@ class Sender {
     void sendCallThreadProc();
     void sendRespThreadProc();
 
-    bool checkSpaceAndWait(std::shared_ptr<MessageQueue> mq,
-                           int64_t needSize,
-                           int64_t startCallTimePoint,
-                           int64_t timeout);
-
    private:
     bool isInit_ = false;
     Event stopEvent_;
-- 
2.43.0


From 36fc25c5648a5f6c0983b8524219c44a3407d0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:21 +0000
Subject: [PATCH 26/43] fix: refuse to open shared memory that is smaller than
 expected

Touching the mapping beyond the segment's end killed the process with SIGBUS.
---
 src/shared_memory.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/shared_memory.cpp b/src/shared_memory.cpp
index 5707d40..0a4f7b3 100644
--- a/src/shared_memory.cpp
+++ b/src/shared_memory.cpp
@@ -190,6 +190,15 @@ bool SharedMemory::open() {
         return false;
     }
 
+    // Accessing a mapping beyond the end of the segment raises SIGBUS.
+    struct stat st;
+    if (fstat(fd_, &st) != 0 || st.st_size < size_) {
+        veigar::log("Veigar: Error: The shared memory is smaller than %" PRId64 " bytes.\n", size_);
+        ::close(fd_);
+        fd_ = -1;
+        return false;
+    }
+
     void* memory = mmap(nullptr,                 // addr
                         size_,                   // length
                         PROT_READ | PROT_WRITE,  // prot
-- 
2.43.0


From e16f716527a9328d554ceaa905ebbf89fa4982ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:21 +0000
Subject: [PATCH 27/43] fix: SharedMemory must only reuse and remove its own
 segments

create took over (and resized) an existing segment, a handle that had once
created a segment removed the name in every later close, even if the segment
was another one, and reopening a valid handle leaked its descriptor and mapping.
---
 src/shared_memory.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/shared_memory.cpp b/src/shared_memory.cpp
index 0a4f7b3..d0cafbb 100644
--- a/src/shared_memory.cpp
+++ b/src/shared_memory.cpp
@@ -124,11 +124,16 @@ SharedMemory::SharedMemory(const std::string& path, int64_t size) noexcept :
 }
 
 bool SharedMemory::create() {
+    close();
+
     if (path_.empty()) {
         return false;
     }
 
-    fd_ = shm_open(path_.c_str(), O_CREAT | O_RDWR, 0666);
+    // Never take over a segment that was left behind by a killed process, others may still have it mapped.
+    shm_unlink(path_.c_str());
+
+    fd_ = shm_open(path_.c_str(), O_CREAT | O_EXCL | O_RDWR, 0666);
     if (fd_ < 0) {
         int err = errno;
         veigar::log("Veigar: Error: shm_open failed, err: %d.\n", err);
@@ -179,6 +184,8 @@ bool SharedMemory::create() {
 }
 
 bool SharedMemory::open() {
+    close();
+
     if (path_.empty()) {
         return false;
     }
@@ -240,15 +247,18 @@ void SharedMemory::close() {
             data_ = nullptr;
         }
 
-        if (fd_ >= 0) {
-            ::close(fd_);
-            fd_ = -1;
-        }
-
+        // Do not remove a segment that another creator has made under this name since.
         if (shmCreator_) {
-            if (!path_.empty()) {
+            struct stat st;
+            if (!path_.empty() && fstat(fd_, &st) == 0 && st.st_nlink > 0) {
                 shm_unlink(path_.c_str());
             }
+            shmCreator_ = false;
+        }
+
+        if (fd_ >= 0) {
+            ::close(fd_);
+            fd_ = -1;
         }
     }
 }
-- 
2.43.0


From 439b4633271ac42a33ce2e599ee6eb1a93d45f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:56 +0000
Subject: [PATCH 28/43] fix: fail to create shared memory that cannot be backed

ftruncate alone succeeds for any size, the memset of a queue that does not fit
into the remaining shared memory then killed the process with SIGBUS.
---
 src/shared_memory.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/shared_memory.cpp b/src/shared_memory.cpp
index d0cafbb..c791e3e 100644
--- a/src/shared_memory.cpp
+++ b/src/shared_memory.cpp
@@ -151,6 +151,20 @@ bool SharedMemory::create() {
         return false;
     }
 
+#ifdef VEIGAR_OS_LINUX
+    // Without the memory to back it, writing to the segment later would raise SIGBUS.
+    do {
+        ret = posix_fallocate(fd_, 0, size_);
+    } while (ret == EINTR);
+    if (ret != 0) {
+        veigar::log("Veigar: Error: posix_fallocate failed, size: %" PRId64 ", err: %d.\n", size_, ret);
+        ::close(fd_);
+        fd_ = -1;
+        shm_unlink(path_.c_str());
+        return false;
+    }
+#endif  // VEIGAR_OS_LINUX
+
     void* memory = mmap(nullptr,                 // addr
                         size_,                   // length
                         PROT_READ | PROT_WRITE,  // prot
-- 
2.43.0


From 05dd49e64d5ec51f94186fabc60b0631b9b565fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:03 +0000
Subject: [PATCH 29/43] fix: let the creator's parameters govern a queue that
 others open

Every process computed the layout of the target's queue from its own capacity
and message size, so instances with different parameters corrupted each
other's queues, or touched memory beyond the mapping.
---
 src/message_queue.cpp | 50 +++++++++++++++++++++++++++++++++++++------
 src/message_queue.h   |  8 +++++++
 src/shared_memory.cpp | 13 +++++++++++
 src/shared_memory.h   |  2 ++
 4 files changed, 67 insertions(+), 6 deletions(-)

diff --git a/src/message_queue.cpp b/src/message_queue.cpp
index 746dcf8..dcd63a1 100644
--- a/src/message_queue.cpp
+++ b/src/message_queue.cpp
@@ -12,6 +12,8 @@
 
 namespace veigar {
 MessageQueue::MessageQueue(int32_t msgMaxNumber, int32_t msgExpectedMaxSize) noexcept :
+    ownMsgMaxNumber_(msgMaxNumber),
+    ownMsgExpectedMaxSize_(msgExpectedMaxSize),
     msgMaxNumber_(msgMaxNumber),
     msgExpectedMaxSize_(msgExpectedMaxSize) {
 }
@@ -23,6 +25,8 @@ bool MessageQueue::create(const std::string& path) {
         assert(!shm_ && !rwLock_ && !readSmp_);
         close();
 
+        msgMaxNumber_ = ownMsgMaxNumber_;
+        msgExpectedMaxSize_ = ownMsgExpectedMaxSize_;
         if (msgMaxNumber_ <= 0 || msgExpectedMaxSize_ <= 0) {
             break;
         }
@@ -30,7 +34,7 @@ bool MessageQueue::create(const std::string& path) {
         int64_t shmSize = sizeof(int64_t) * ((int64_t)msgMaxNumber_ + 3) + (int64_t)msgMaxNumber_ * msgExpectedMaxSize_;
 
         std::string shmName = path + "_shm";
-        shm_ = std::make_shared<SharedMemory>(shmName, shmSize);
+        shm_ = std::make_shared<SharedMemory>(shmName, shmSize + sizeof(int64_t));
         if (!shm_->create()) {
             break;
         }
@@ -52,6 +56,10 @@ bool MessageQueue::create(const std::string& path) {
         int64_t* pDataSize = (int64_t*)data;
         *pDataSize = shmSize;
 
+        // Follows the queue, tells the layout to those who open it.
+        int64_t msgMaxNumber = msgMaxNumber_;
+        memcpy(data + shmSize, &msgMaxNumber, sizeof(int64_t));
+
         result = true;
     } while (false);
 
@@ -85,13 +93,16 @@ bool MessageQueue::open(const std::string& path) {
         close();
 
         std::string shmName = path + "_shm";
-        int64_t shmSize = sizeof(int64_t) * ((int64_t)msgMaxNumber_ + 3) + (int64_t)msgMaxNumber_ * msgExpectedMaxSize_;
-
-        shm_ = std::make_shared<SharedMemory>(shmName, shmSize);
+        shm_ = std::make_shared<SharedMemory>(shmName, 0);
         if (!shm_->open()) {
             break;
         }
 
+        if (!readLayout()) {
+            veigar::log("Veigar: Error: The shared memory is not a message queue, name: %s.\n", shmName.c_str());
+            break;
+        }
+
         std::string rwLockName = path + "_rwlock";
         if (!Semaphore::IsExist(rwLockName)) {
             break;
@@ -138,6 +149,31 @@ bool MessageQueue::open(const std::string& path) {
     return result;
 }
 
+// The parameters of the creator determine the layout of the queue, whatever our own are.
+bool MessageQueue::readLayout() {
+    int64_t total = 0;
+    int64_t number = 0;
+    if (shm_->size() < (int64_t)sizeof(int64_t) * 4) {
+        return false;
+    }
+    memcpy(&total, shm_->data(), sizeof(int64_t));
+    if (total <= 0 || total > shm_->size() - (int64_t)sizeof(int64_t)) {
+        return false;
+    }
+    memcpy(&number, shm_->data() + total, sizeof(int64_t));
+    if (number <= 0 || number > total / (int64_t)sizeof(int64_t) - 3) {
+        return false;
+    }
+
+    const int64_t size = (total - (int64_t)sizeof(int64_t) * (number + 3)) / number;
+    if (number > 2147483647 || size <= 0 || size > 2147483647) {
+        return false;
+    }
+    msgMaxNumber_ = (int32_t)number;
+    msgExpectedMaxSize_ = (int32_t)size;
+    return true;
+}
+
 bool MessageQueue::processRWLock(uint32_t timeoutMS) {
     assert(rwLock_);
     if (!rwLock_)
@@ -151,8 +187,10 @@ void MessageQueue::processRWUnlock() {
 }
 
 /*
-| Shm Total Size | Msg Number | Front Free Size | Msg 0 Size | Msg 1 Size | ... | Msg 0 Data | Msg 1 Data | ... |
-|      8         |      8     |       8         |    8       |    8       |     | Msg 0 Size | Msg 1 Size | ... |
+| Shm Total Size | Msg Number | Front Free Size | Msg 0 Size | Msg 1 Size | ... | Msg 0 Data | Msg 1 Data | ... | Msg Max Number |
+|      8         |      8     |       8         |    8       |    8       |     | Msg 0 Size | Msg 1 Size | ... |       8        |
+
+'Shm Total Size' does not include the last field.
 */
 bool MessageQueue::pushBack(const void* data, int64_t dataSize) {
     bool ret = false;
diff --git a/src/message_queue.h b/src/message_queue.h
index e5dd93f..6262df4 100644
--- a/src/message_queue.h
+++ b/src/message_queue.h
@@ -45,6 +45,14 @@ class MessageQueue {
     void notifyRead();
 
    private:
+    bool readLayout();
+
+   private:
+    // The parameters for creating a queue.
+    const int32_t ownMsgMaxNumber_;
+    const int32_t ownMsgExpectedMaxSize_;
+
+    // The parameters of the created or opened queue.
     int32_t msgMaxNumber_ = 0;
     int32_t msgExpectedMaxSize_ = 0;
     std::shared_ptr<SharedMemory> shm_ = nullptr;
diff --git a/src/shared_memory.cpp b/src/shared_memory.cpp
index c791e3e..886c801 100644
--- a/src/shared_memory.cpp
+++ b/src/shared_memory.cpp
@@ -64,6 +64,15 @@ bool SharedMemory::open() {
         return false;
     }
 
+    if (size_ <= 0) {
+        MEMORY_BASIC_INFORMATION info;
+        if (VirtualQuery(data_, &info, sizeof(info)) == 0) {
+            close();
+            return false;
+        }
+        size_ = (int64_t)info.RegionSize;
+    }
+
     return true;
 }
 
@@ -220,6 +229,10 @@ bool SharedMemory::open() {
         return false;
     }
 
+    if (size_ <= 0) {
+        size_ = st.st_size;
+    }
+
     void* memory = mmap(nullptr,                 // addr
                         size_,                   // length
                         PROT_READ | PROT_WRITE,  // prot
diff --git a/src/shared_memory.h b/src/shared_memory.h
index a62b9a6..df71b39 100644
--- a/src/shared_memory.h
+++ b/src/shared_memory.h
@@ -27,6 +27,8 @@ class SharedMemory {
     explicit SharedMemory(const std::string& path, int64_t size) noexcept;
 
     bool create();
+
+    // If the size is 0, the whole segment is mapped and 'size' becomes its size.
     bool open();
     bool valid() const;
     void close();
-- 
2.43.0


From 9641183cec0507fa6ce51b99cf7967634b44b52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:48 +0000
Subject: [PATCH 30/43] fix: a queue must start fresh and leave nothing behind

create adopted whatever a killed owner had left: a held lock, pending signals
and old messages. The semaphores were never removed, so each channel name left
two of them behind and a stopped channel's queue could half open.
---
 src/message_queue.cpp | 75 ++++++++++++++++++++++---------------------
 src/message_queue.h   |  7 +++-
 src/semaphore.cpp     | 23 +++++++++++++
 src/semaphore.h       |  6 ++++
 src/shared_memory.cpp |  9 ++++++
 src/shared_memory.h   |  3 ++
 6 files changed, 86 insertions(+), 37 deletions(-)

diff --git a/src/message_queue.cpp b/src/message_queue.cpp
index dcd63a1..eec5898 100644
--- a/src/message_queue.cpp
+++ b/src/message_queue.cpp
@@ -18,6 +18,10 @@ MessageQueue::MessageQueue(int32_t msgMaxNumber, int32_t msgExpectedMaxSize) noe
     msgExpectedMaxSize_(msgExpectedMaxSize) {
 }
 
+MessageQueue::~MessageQueue() noexcept {
+    close();
+}
+
 bool MessageQueue::create(const std::string& path) {
     bool result = false;
 
@@ -33,54 +37,46 @@ bool MessageQueue::create(const std::string& path) {
 
         int64_t shmSize = sizeof(int64_t) * ((int64_t)msgMaxNumber_ + 3) + (int64_t)msgMaxNumber_ * msgExpectedMaxSize_;
 
+        path_ = path;
+        creator_ = true;
+
+        // If a previous owner was killed, its semaphores are in an unknown state.
+        std::string rwLockName = path + "_rwlock";
+        std::string readSmpName = path + "_readsmp";
+        Semaphore::Remove(rwLockName);
+        Semaphore::Remove(readSmpName);
+
         std::string shmName = path + "_shm";
         shm_ = std::make_shared<SharedMemory>(shmName, shmSize + sizeof(int64_t));
         if (!shm_->create()) {
             break;
         }
 
-        std::string rwLockName = path + "_rwlock";
+        uint8_t* data = shm_->data();
+        memset(data, 0, (size_t)shmSize);
+        int64_t* pDataSize = (int64_t*)data;
+        *pDataSize = shmSize;
+
+        // Follows the queue, tells the layout to those who open it.
+        int64_t msgMaxNumber = msgMaxNumber_;
+        memcpy(data + shmSize, &msgMaxNumber, sizeof(int64_t));
+
+        // Once they exist the queue can be used by others.
         rwLock_ = std::make_shared<Semaphore>();
         if (!rwLock_->open(rwLockName.c_str(), 1, 1)) {
             break;
         }
 
-        std::string readSmpName = path + "_readsmp";
         readSmp_ = std::make_shared<Semaphore>();
         if (!readSmp_->open(readSmpName, 0)) {
             break;
         }
 
-        uint8_t* data = shm_->data();
-        memset(data, 0, (size_t)shmSize);
-        int64_t* pDataSize = (int64_t*)data;
-        *pDataSize = shmSize;
-
-        // Follows the queue, tells the layout to those who open it.
-        int64_t msgMaxNumber = msgMaxNumber_;
-        memcpy(data + shmSize, &msgMaxNumber, sizeof(int64_t));
-
         result = true;
     } while (false);
 
     if (!result) {
-        if (shm_) {
-            if (shm_->valid())
-                shm_->close();
-            shm_.reset();
-        }
-
-        if (rwLock_) {
-            if (rwLock_->valid())
-                rwLock_->close();
-            rwLock_.reset();
-        }
-
-        if (readSmp_) {
-            if (readSmp_->valid())
-                readSmp_->close();
-            readSmp_.reset();
-        }
+        close();
     }
 
     return result;
@@ -104,22 +100,19 @@ bool MessageQueue::open(const std::string& path) {
         }
 
         std::string rwLockName = path + "_rwlock";
-        if (!Semaphore::IsExist(rwLockName)) {
-            break;
-        }
-
         rwLock_ = std::make_shared<Semaphore>();
-        if (!rwLock_->open(rwLockName.c_str())) {
+        if (!rwLock_->openExisting(rwLockName)) {
             break;
         }
 
         std::string readSmpName = path + "_readsmp";
-        if (!Semaphore::IsExist(readSmpName)) {
+        readSmp_ = std::make_shared<Semaphore>();
+        if (!readSmp_->openExisting(readSmpName)) {
             break;
         }
 
-        readSmp_ = std::make_shared<Semaphore>();
-        if (!readSmp_->open(readSmpName)) {
+        // The semaphores may already be those of a newer queue.
+        if (shm_->removed()) {
             break;
         }
 
@@ -416,6 +409,12 @@ bool MessageQueue::checkSpaceSufficient(int64_t dataSize, bool& waitable) const
 }
 
 void MessageQueue::close() {
+    if (creator_ && !removed()) {
+        Semaphore::Remove(path_ + "_rwlock");
+        Semaphore::Remove(path_ + "_readsmp");
+    }
+    creator_ = false;
+
     if (shm_) {
         if (shm_->valid())
             shm_->close();
@@ -435,6 +434,10 @@ void MessageQueue::close() {
     }
 }
 
+bool MessageQueue::removed() const {
+    return !shm_ || shm_->removed();
+}
+
 void MessageQueue::notifyRead() {
     if (readSmp_) {
         readSmp_->release();
diff --git a/src/message_queue.h b/src/message_queue.h
index 6262df4..857aecf 100644
--- a/src/message_queue.h
+++ b/src/message_queue.h
@@ -18,12 +18,15 @@ namespace veigar {
 class MessageQueue {
    public:
     MessageQueue(int32_t msgMaxNumber, int32_t msgExpectedMaxSize) noexcept;
-    ~MessageQueue() noexcept = default;
+    ~MessageQueue() noexcept;
 
     bool create(const std::string& path);
     bool open(const std::string& path);
     void close();
 
+    // Whether the creator has closed the queue, or it has been replaced by a new one.
+    bool removed() const;
+
     // Read/Write locker for multi processes.
     bool processRWLock(uint32_t timeoutMS);
     void processRWUnlock();
@@ -55,6 +58,8 @@ class MessageQueue {
     // The parameters of the created or opened queue.
     int32_t msgMaxNumber_ = 0;
     int32_t msgExpectedMaxSize_ = 0;
+    std::string path_;
+    bool creator_ = false;
     std::shared_ptr<SharedMemory> shm_ = nullptr;
     std::shared_ptr<Semaphore> rwLock_ = nullptr;
     std::shared_ptr<Semaphore> readSmp_ = nullptr;
diff --git a/src/semaphore.cpp b/src/semaphore.cpp
index ae314b2..cbb3542 100644
--- a/src/semaphore.cpp
+++ b/src/semaphore.cpp
@@ -30,6 +30,29 @@ bool Semaphore::IsExist(const std::string& name) {
 #endif
 }
 
+void Semaphore::Remove(const std::string& name) {
+#ifndef VEIGAR_OS_WINDOWS
+    ::sem_unlink(name.c_str());
+#endif
+}
+
+bool Semaphore::openExisting(const std::string& name) {
+#ifdef VEIGAR_OS_WINDOWS
+    return IsExist(name) && open(name);
+#else
+    close();
+
+    sem_t* sem = ::sem_open(name.c_str(), 0);
+    if (sem == SEM_FAILED) {
+        return false;
+    }
+
+    sh_ = new SemaphoreHandle();
+    sh_->named_ = sem;
+    return true;
+#endif
+}
+
 bool Semaphore::open(const std::string& name, int value /*= 0*/, int maxValue /*= 2147483647*/) {
     assert(!name.empty());
     assert(!valid());
diff --git a/src/semaphore.h b/src/semaphore.h
index ec72dcf..212aa4f 100644
--- a/src/semaphore.h
+++ b/src/semaphore.h
@@ -41,10 +41,16 @@ class Semaphore {
 
     static bool IsExist(const std::string& name);
 
+    // Removes the name, those who have the semaphore open can still use it.
+    static void Remove(const std::string& name);
+
     // The semaphore will be created if it does not already exist.
     // 
     // named semaphore used in synchronization among processes.
     bool open(const std::string& name, int value = 0, int maxValue = 2147483647);
+    // Never creates the semaphore.
+    bool openExisting(const std::string& name);
+
     void close();
 
     bool valid() const;
diff --git a/src/shared_memory.cpp b/src/shared_memory.cpp
index 886c801..467eb30 100644
--- a/src/shared_memory.cpp
+++ b/src/shared_memory.cpp
@@ -124,6 +124,10 @@ bool SharedMemory::create() {
     return true;
 }
 
+bool SharedMemory::removed() const {
+    return false;
+}
+
 #else   // !VEIGAR_OS_WINDOWS
 
 SharedMemory::SharedMemory(const std::string& path, int64_t size) noexcept :
@@ -289,5 +293,10 @@ void SharedMemory::close() {
         }
     }
 }
+
+bool SharedMemory::removed() const {
+    struct stat st;
+    return fd_ == -1 || fstat(fd_, &st) != 0 || st.st_nlink == 0;
+}
 #endif  //VEIGAR_OS_WINDOWS
 }  // namespace veigar
\ No newline at end of file
diff --git a/src/shared_memory.h b/src/shared_memory.h
index df71b39..7a24f43 100644
--- a/src/shared_memory.h
+++ b/src/shared_memory.h
@@ -33,6 +33,9 @@ class SharedMemory {
     bool valid() const;
     void close();
 
+    // Whether the creator has closed the segment, or it has been replaced by a new one.
+    bool removed() const;
+
     inline int64_t size() const {
         return size_;
     }
-- 
2.43.0


From c21168f68219f4fceec00797bcd957c47ac36c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:48 +0000
Subject: [PATCH 31/43] fix: notice that a target channel was stopped or
 restarted

The sender kept using the queues of a channel's previous incarnation, so every
later call to a restarted channel was lost.
---
 src/sender.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/sender.cpp b/src/sender.cpp
index b5ec62d..8969be2 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -150,7 +150,10 @@ std::shared_ptr<MessageQueue> Sender::getTargetCallMessageQueue(const std::strin
     std::shared_ptr<MessageQueue> queue = nullptr;
     auto it = targetCallMsgQueues_.find(channelName);
     if (it != targetCallMsgQueues_.cend()) {
-        return it->second;
+        if (!it->second->removed()) {
+            return it->second;
+        }
+        targetCallMsgQueues_.erase(it);  // stopped or restarted
     }
 
     queue = std::make_shared<MessageQueue>(veigar_->msgQueueCapacity(), veigar_->expectedMsgMaxSize());
@@ -169,7 +172,10 @@ std::shared_ptr<MessageQueue> Sender::getTargetRespMessageQueue(const std::strin
     std::shared_ptr<MessageQueue> queue = nullptr;
     auto it = targetRespMsgQueues_.find(channelName);
     if (it != targetRespMsgQueues_.cend()) {
-        return it->second;
+        if (!it->second->removed()) {
+            return it->second;
+        }
+        targetRespMsgQueues_.erase(it);  // stopped or restarted
     }
 
     queue = std::make_shared<MessageQueue>(veigar_->msgQueueCapacity(), veigar_->expectedMsgMaxSize());
-- 
2.43.0


From 8c5ebc6247167a7a42d1a62581bdae70444e6336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:41 +0000
Subject: [PATCH 32/43] fix: moving an instance must move its call dispatcher

A moved-to instance had no dispatcher, so it could neither bind nor init, its
members pointed to the moved-from object, and the target's own state leaked.
---
 include/veigar/call_dispatcher.h |  3 +++
 include/veigar/veigar.h          |  1 +
 src/call_dispatcher.cpp          |  4 ++++
 src/veigar.cpp                   | 16 +++++++++++++---
 4 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/include/veigar/call_dispatcher.h b/include/veigar/call_dispatcher.h
index d8b77ed..0cade98 100644
--- a/include/veigar/call_dispatcher.h
+++ b/include/veigar/call_dispatcher.h
@@ -39,6 +39,9 @@ class VEIGAR_API CallDispatcher {
     CallDispatcher(Veigar* veigar) noexcept;
     ~CallDispatcher() noexcept;
 
+    // Only while not init.
+    void setVeigar(Veigar* veigar);
+
     bool init();
     bool isInit() const;
     void uninit();
diff --git a/include/veigar/veigar.h b/include/veigar/veigar.h
index a9ded89..759b42f 100644
--- a/include/veigar/veigar.h
+++ b/include/veigar/veigar.h
@@ -22,6 +22,7 @@ class VEIGAR_API Veigar {
    public:
     Veigar() noexcept;
 
+    // Only instances that are not initialized can be moved.
     Veigar(Veigar&& other) noexcept;
 
     virtual ~Veigar() noexcept;
diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index 766b25f..9282952 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -40,6 +40,10 @@ CallDispatcher::~CallDispatcher() noexcept {
     }
 }
 
+void CallDispatcher::setVeigar(Veigar* veigar) {
+    veigar_ = veigar;
+}
+
 bool CallDispatcher::init() {
     if (init_) {
         return true;
diff --git a/src/veigar.cpp b/src/veigar.cpp
index 2232e8e..5a44057 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -186,14 +186,24 @@ Veigar::Veigar() noexcept :
     callDisp_ = std::make_shared<detail::CallDispatcher>(this);
 }
 
-Veigar::Veigar(Veigar&& other) noexcept {
+Veigar::Veigar(Veigar&& other) noexcept :
+    Veigar() {
     *this = std::move(other);
 }
 
 Veigar& Veigar::operator=(Veigar&& other) noexcept {
     if (this != &other) {
-        impl_ = std::move(other.impl_);
-        other.impl_ = nullptr;
+        // The worker threads of an initialized instance keep using its address.
+        assert(!isInit() && !other.isInit());
+
+        std::swap(impl_, other.impl_);
+        std::swap(callDisp_, other.callDisp_);
+
+        impl_->veigar_ = this;
+        callDisp_->setVeigar(this);
+
+        other.impl_->veigar_ = &other;
+        other.callDisp_->setVeigar(&other);
     }
     return *this;
 }
-- 
2.43.0


From da9a4a6a0877f8ae9e55f61c68c9fb2f4f9b2b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:07 +0000
Subject: [PATCH 33/43] fix: drop the queues of stopped peers

A server kept the mappings and descriptors of every client channel it had ever
answered, until its own uninit.
---
 src/sender.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/sender.cpp b/src/sender.cpp
index 8969be2..b254f87 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -11,6 +11,7 @@
 #include "veigar/veigar.h"
 #include "time_util.h"
 #include "run_time_recorder.h"
+#include <iterator>
 
 namespace veigar {
 Sender::Sender(Veigar* v) noexcept :
@@ -153,7 +154,11 @@ std::shared_ptr<MessageQueue> Sender::getTargetCallMessageQueue(const std::strin
         if (!it->second->removed()) {
             return it->second;
         }
-        targetCallMsgQueues_.erase(it);  // stopped or restarted
+    }
+
+    // Drop the queues of the channels that were stopped or restarted.
+    for (it = targetCallMsgQueues_.begin(); it != targetCallMsgQueues_.end();) {
+        it = it->second->removed() ? targetCallMsgQueues_.erase(it) : std::next(it);
     }
 
     queue = std::make_shared<MessageQueue>(veigar_->msgQueueCapacity(), veigar_->expectedMsgMaxSize());
@@ -175,7 +180,11 @@ std::shared_ptr<MessageQueue> Sender::getTargetRespMessageQueue(const std::strin
         if (!it->second->removed()) {
             return it->second;
         }
-        targetRespMsgQueues_.erase(it);  // stopped or restarted
+    }
+
+    // Drop the queues of the channels that were stopped or restarted.
+    for (it = targetRespMsgQueues_.begin(); it != targetRespMsgQueues_.end();) {
+        it = it->second->removed() ? targetRespMsgQueues_.erase(it) : std::next(it);
     }
 
     queue = std::make_shared<MessageQueue>(veigar_->msgQueueCapacity(), veigar_->expectedMsgMaxSize());
-- 
2.43.0


From 83ed5c8a5143f748e573f471634fea92a48bf73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:34 +0000
Subject: [PATCH 34/43] fix: packing the floating point number 2^64 was
 undefined

---
 include/veigar/msgpack/v1/pack.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/veigar/msgpack/v1/pack.hpp b/include/veigar/msgpack/v1/pack.hpp
index 3a37742..51104c6 100644
--- a/include/veigar/msgpack/v1/pack.hpp
+++ b/include/veigar/msgpack/v1/pack.hpp
@@ -1142,7 +1142,7 @@ inline packer<Stream>& packer<Stream>::pack_float(float d)
 {
     if(d == d) { // check for nan
         // compare d to limits to avoid undefined behaviour
-        if(d >= 0 && d <= float(std::numeric_limits<uint64_t>::max()) && d == float(uint64_t(d))) {
+        if(d >= 0 && d < float(std::numeric_limits<uint64_t>::max()) && d == float(uint64_t(d))) {
             pack_imp_uint64(uint64_t(d));
             return *this;
         } else if(d < 0 && d >= float(std::numeric_limits<int64_t>::min()) && d == float(int64_t(d))) {
@@ -1164,7 +1164,7 @@ inline packer<Stream>& packer<Stream>::pack_double(double d)
 {
     if(d == d) { // check for nan
         // compare d to limits to avoid undefined behaviour
-        if(d >= 0 && d <= double(std::numeric_limits<uint64_t>::max()) && d == double(uint64_t(d))) {
+        if(d >= 0 && d < double(std::numeric_limits<uint64_t>::max()) && d == double(uint64_t(d))) {
             pack_imp_uint64(uint64_t(d));
             return *this;
         } else if(d < 0 && d >= double(std::numeric_limits<int64_t>::min()) && d == double(int64_t(d))) {
-- 
2.43.0


From 8ef4d8741b569d74d42740c3570c72e8e347848e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:23 +0000
Subject: [PATCH 35/43] fix: packing an object with an empty string passed a
 null pointer to memcpy

---
 include/veigar/msgpack/v1/object.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/veigar/msgpack/v1/object.hpp b/include/veigar/msgpack/v1/object.hpp
index f836c3d..0afa0d8 100644
--- a/include/veigar/msgpack/v1/object.hpp
+++ b/include/veigar/msgpack/v1/object.hpp
@@ -732,7 +732,7 @@ private:
             m_ptr->via.str.size = size;
             char* ptr = static_cast<char*>(m_zone.allocate_align(size, MSGPACK_ZONE_ALIGNOF(char)));
             m_ptr->via.str.ptr = ptr;
-            std::memcpy(ptr, v, size);
+            if (size > 0) std::memcpy(ptr, v, size);
             return true;
         }
         bool visit_bin(const char* v, uint32_t size) {
@@ -740,7 +740,7 @@ private:
             m_ptr->via.bin.size = size;
             char* ptr = static_cast<char*>(m_zone.allocate_align(size, MSGPACK_ZONE_ALIGNOF(char)));
             m_ptr->via.bin.ptr = ptr;
-            std::memcpy(ptr, v, size);
+            if (size > 0) std::memcpy(ptr, v, size);
             return true;
         }
         bool visit_ext(const char* v, uint32_t size) {
-- 
2.43.0


From fcd41ccc4a0f8497b8406f148c7551c76dadec51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:59 +0000
Subject: [PATCH 36/43] fix: do not read beyond a string that is shorter than
 the array it is read into

---
 include/veigar/msgpack/v1/adaptor/cpp11/array_char.hpp          | 2 +-
 include/veigar/msgpack/v1/adaptor/cpp11/array_unsigned_char.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/veigar/msgpack/v1/adaptor/cpp11/array_char.hpp b/include/veigar/msgpack/v1/adaptor/cpp11/array_char.hpp
index 9872b9c..ea0f1ed 100644
--- a/include/veigar/msgpack/v1/adaptor/cpp11/array_char.hpp
+++ b/include/veigar/msgpack/v1/adaptor/cpp11/array_char.hpp
@@ -38,7 +38,7 @@ struct convert<std::array<char, N>> {
             break;
         case veigar_msgpack::type::STR:
             if(o.via.str.size > N) { throw veigar_msgpack::type_error(); }
-            std::memcpy(v.data(), o.via.str.ptr, N);
+            std::memcpy(v.data(), o.via.str.ptr, o.via.str.size);
             break;
         default:
             throw veigar_msgpack::type_error();
diff --git a/include/veigar/msgpack/v1/adaptor/cpp11/array_unsigned_char.hpp b/include/veigar/msgpack/v1/adaptor/cpp11/array_unsigned_char.hpp
index e646573..303cd13 100644
--- a/include/veigar/msgpack/v1/adaptor/cpp11/array_unsigned_char.hpp
+++ b/include/veigar/msgpack/v1/adaptor/cpp11/array_unsigned_char.hpp
@@ -38,7 +38,7 @@ struct convert<std::array<unsigned char, N>> {
             break;
         case veigar_msgpack::type::STR:
             if(o.via.str.size > N) { throw veigar_msgpack::type_error(); }
-            std::memcpy(v.data(), o.via.str.ptr, N);
+            std::memcpy(v.data(), o.via.str.ptr, o.via.str.size);
             break;
         default:
             throw veigar_msgpack::type_error();
-- 
2.43.0


From 6e3c8b000dc92b7f422d15d462cd4ceeb4d510fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:42 +0000
Subject: [PATCH 37/43] fix: do not read an element of an empty array into a C
 array

---
 include/veigar/msgpack/v1/adaptor/carray.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/veigar/msgpack/v1/adaptor/carray.hpp b/include/veigar/msgpack/v1/adaptor/carray.hpp
index 87fa314..2b2bc8e 100644
--- a/include/veigar/msgpack/v1/adaptor/carray.hpp
+++ b/include/veigar/msgpack/v1/adaptor/carray.hpp
@@ -32,11 +32,11 @@ struct convert<T[N]> {
         if (o.via.array.size > N) { throw veigar_msgpack::type_error(); }
         veigar_msgpack::object* p = o.via.array.ptr;
         veigar_msgpack::object* const pend = o.via.array.ptr + o.via.array.size;
-        do {
+        while(p < pend) {
             p->convert(*v);
             ++p;
             ++v;
-        } while(p < pend);
+        }
         return o;
     }
 };
-- 
2.43.0


From 17c717e62c45ce73f714d6d86033f89453a5d424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:13 +0000
Subject: [PATCH 38/43] fix: a timestamp outside the range of the time point it
 is read into wrapped around

---
 .../msgpack/v1/adaptor/cpp11/chrono.hpp       | 27 +++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/include/veigar/msgpack/v1/adaptor/cpp11/chrono.hpp b/include/veigar/msgpack/v1/adaptor/cpp11/chrono.hpp
index 71d04e3..0334eca 100644
--- a/include/veigar/msgpack/v1/adaptor/cpp11/chrono.hpp
+++ b/include/veigar/msgpack/v1/adaptor/cpp11/chrono.hpp
@@ -134,6 +134,29 @@ Target integral_cast(Source source) {
 
     return static_cast<Target>(source);
 }
+
+// A timestamp that Duration cannot represent must not wrap around.
+template <typename Duration>
+void check_timestamp_range(int64_t sec, uint32_t nanosec) {
+    if (nanosec > 999999999) { throw veigar_msgpack::type_error(); }
+
+    int64_t ns = nanosec;
+    if (sec < 0 && ns > 0) {
+        ++sec;
+        ns -= 1000000000L;
+    }
+
+    const std::chrono::seconds maxSec = std::chrono::duration_cast<std::chrono::seconds>((Duration::max)());
+    const std::chrono::seconds minSec = std::chrono::duration_cast<std::chrono::seconds>((Duration::min)());
+    if (sec > maxSec.count() || sec < minSec.count()) { throw veigar_msgpack::type_error(); }
+
+    if ((sec == maxSec.count() &&
+         ns > std::chrono::duration_cast<std::chrono::nanoseconds>((Duration::max)() - maxSec).count()) ||
+        (sec == minSec.count() &&
+         ns < std::chrono::duration_cast<std::chrono::nanoseconds>((Duration::min)() - minSec).count())) {
+        throw veigar_msgpack::type_error();
+    }
+}
 } // namespace detail
 
 template <typename Clock, typename Duration>
@@ -153,6 +176,7 @@ struct as<std::chrono::time_point<Clock, Duration>> {
             _msgpack_load64(uint64_t, o.via.ext.data(), &value);
             uint32_t nanosec = detail::integral_cast<uint32_t>(value >> 34);
             uint64_t sec = value & 0x00000003ffffffffLL;
+            detail::check_timestamp_range<Duration>(static_cast<int64_t>(sec), nanosec);
             tp += std::chrono::duration_cast<Duration>(
                 std::chrono::nanoseconds(nanosec));
             tp += std::chrono::seconds(sec);
@@ -162,6 +186,7 @@ struct as<std::chrono::time_point<Clock, Duration>> {
             _msgpack_load32(uint32_t, o.via.ext.data(), &nanosec);
             int64_t sec;
             _msgpack_load64(int64_t, o.via.ext.data() + 4, &sec);
+            detail::check_timestamp_range<Duration>(sec, nanosec);
 
             if (sec > 0) {
                 tp += std::chrono::seconds(sec);
@@ -206,6 +231,7 @@ struct convert<std::chrono::time_point<Clock, Duration>> {
             _msgpack_load64(uint64_t, o.via.ext.data(), &value);
             uint32_t nanosec = detail::integral_cast<uint32_t>(value >> 34);
             uint64_t sec = value & 0x00000003ffffffffLL;
+            detail::check_timestamp_range<Duration>(static_cast<int64_t>(sec), nanosec);
             tp += std::chrono::duration_cast<Duration>(
                 std::chrono::nanoseconds(nanosec));
             tp += std::chrono::seconds(sec);
@@ -216,6 +242,7 @@ struct convert<std::chrono::time_point<Clock, Duration>> {
             _msgpack_load32(uint32_t, o.via.ext.data(), &nanosec);
             int64_t sec;
             _msgpack_load64(int64_t, o.via.ext.data() + 4, &sec);
+            detail::check_timestamp_range<Duration>(sec, nanosec);
 
             if (sec > 0) {
                 tp += std::chrono::seconds(sec);
-- 
2.43.0


From 649d82fc99d04bfed30277471651c3d89d40bcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:26 +0000
Subject: [PATCH 39/43] fix: reading an empty array left a std::vector<bool> as
 it was

---
 include/veigar/msgpack/v1/adaptor/vector_bool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/veigar/msgpack/v1/adaptor/vector_bool.hpp b/include/veigar/msgpack/v1/adaptor/vector_bool.hpp
index ea3a9bc..846edf5 100644
--- a/include/veigar/msgpack/v1/adaptor/vector_bool.hpp
+++ b/include/veigar/msgpack/v1/adaptor/vector_bool.hpp
@@ -30,8 +30,8 @@ template <typename Alloc>
 struct convert<std::vector<bool, Alloc> > {
     veigar_msgpack::object const& operator()(veigar_msgpack::object const& o, std::vector<bool, Alloc>& v) const {
         if (o.type != veigar_msgpack::type::ARRAY) { throw veigar_msgpack::type_error(); }
+        v.resize(o.via.array.size);
         if (o.via.array.size > 0) {
-            v.resize(o.via.array.size);
             veigar_msgpack::object* p = o.via.array.ptr;
             for (typename std::vector<bool, Alloc>::iterator it = v.begin(), end = v.end();
                  it != end;
-- 
2.43.0


From 253aacb7e9d46d7fc76b0d103a2acd449a5b9f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:43 +0000
Subject: [PATCH 40/43] fix: reading a std::array by value read beyond a
 shorter array

Arrays of elements that are read with object::as() (std::wstring for instance)
took N elements from any array of at most N elements.
---
 include/veigar/msgpack/v1/adaptor/cpp11/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/veigar/msgpack/v1/adaptor/cpp11/array.hpp b/include/veigar/msgpack/v1/adaptor/cpp11/array.hpp
index f422a43..f2eb23f 100644
--- a/include/veigar/msgpack/v1/adaptor/cpp11/array.hpp
+++ b/include/veigar/msgpack/v1/adaptor/cpp11/array.hpp
@@ -78,7 +78,7 @@ template <typename T, std::size_t N>
 struct as<std::array<T, N>, typename std::enable_if<veigar_msgpack::has_as<T>::value>::type> {
     std::array<T, N> operator()(veigar_msgpack::object const& o) const {
         if(o.type != veigar_msgpack::type::ARRAY) { throw veigar_msgpack::type_error(); }
-        if(o.via.array.size > N) { throw veigar_msgpack::type_error(); }
+        if(o.via.array.size != N) { throw veigar_msgpack::type_error(); }
         return detail::array::as_impl<T, N>::as(o);
     }
 };
-- 
2.43.0


From a8e7f5da4f810c788cf0134481933ad6e38ad5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:12 +0000
Subject: [PATCH 41/43] fix: reading a tuple by value read beyond a shorter
 array

Tuples with elements that are read with object::as() (std::wstring for instance)
indexed from the end of the array: out of bounds for a shorter one, and the
wrong elements of a longer one. A type::tuple of one element read the first
element of an empty array.
---
 .../veigar/msgpack/v1/adaptor/cpp11/tuple.hpp  | 15 ++++++++-------
 .../v1/adaptor/detail/cpp11_msgpack_tuple.hpp  | 18 ++++++++++--------
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/include/veigar/msgpack/v1/adaptor/cpp11/tuple.hpp b/include/veigar/msgpack/v1/adaptor/cpp11/tuple.hpp
index 6e274a8..6099252 100644
--- a/include/veigar/msgpack/v1/adaptor/cpp11/tuple.hpp
+++ b/include/veigar/msgpack/v1/adaptor/cpp11/tuple.hpp
@@ -69,23 +69,23 @@ struct StdTupleAs;
 
 template <typename T, typename... Args>
 struct StdTupleAsImpl {
-    static std::tuple<T, Args...> as(veigar_msgpack::object const& o) {
+    static std::tuple<T, Args...> as(veigar_msgpack::object const& o, std::size_t size) {
         return std::tuple_cat(
-            std::make_tuple(o.via.array.ptr[o.via.array.size - sizeof...(Args) - 1].as<T>()),
-            StdTupleAs<Args...>::as(o));
+            std::make_tuple(o.via.array.ptr[size - sizeof...(Args) - 1].as<T>()),
+            StdTupleAs<Args...>::as(o, size));
     }
 };
 
 template <typename... Args>
 struct StdTupleAs {
-    static std::tuple<Args...> as(veigar_msgpack::object const& o) {
-        return StdTupleAsImpl<Args...>::as(o);
+    static std::tuple<Args...> as(veigar_msgpack::object const& o, std::size_t size) {
+        return StdTupleAsImpl<Args...>::as(o, size);
     }
 };
 
 template <>
 struct StdTupleAs<> {
-    static std::tuple<> as (veigar_msgpack::object const&) {
+    static std::tuple<> as (veigar_msgpack::object const&, std::size_t) {
         return std::tuple<>();
     }
 };
@@ -116,7 +116,8 @@ struct as<std::tuple<Args...>, typename std::enable_if<veigar_msgpack::any_of<ve
     std::tuple<Args...> operator()(
         veigar_msgpack::object const& o) const {
         if (o.type != veigar_msgpack::type::ARRAY) { throw veigar_msgpack::type_error(); }
-        return StdTupleAs<Args...>::as(o);
+        if (o.via.array.size < sizeof...(Args)) { throw veigar_msgpack::type_error(); }
+        return StdTupleAs<Args...>::as(o, sizeof...(Args));
     }
 };
 
diff --git a/include/veigar/msgpack/v1/adaptor/detail/cpp11_msgpack_tuple.hpp b/include/veigar/msgpack/v1/adaptor/detail/cpp11_msgpack_tuple.hpp
index c8c1057..214b395 100644
--- a/include/veigar/msgpack/v1/adaptor/detail/cpp11_msgpack_tuple.hpp
+++ b/include/veigar/msgpack/v1/adaptor/detail/cpp11_msgpack_tuple.hpp
@@ -96,23 +96,23 @@ struct pack<veigar_msgpack::type::tuple<Args...>> {
 
 template <typename T, typename... Args>
 struct MsgpackTupleAsImpl {
-    static veigar_msgpack::type::tuple<T, Args...> as(veigar_msgpack::object const& o) {
+    static veigar_msgpack::type::tuple<T, Args...> as(veigar_msgpack::object const& o, std::size_t size) {
         return veigar_msgpack::type::tuple_cat(
-            veigar_msgpack::type::make_tuple(o.via.array.ptr[o.via.array.size - sizeof...(Args) - 1].as<T>()),
-            MsgpackTupleAs<Args...>::as(o));
+            veigar_msgpack::type::make_tuple(o.via.array.ptr[size - sizeof...(Args) - 1].as<T>()),
+            MsgpackTupleAs<Args...>::as(o, size));
     }
 };
 
 template <typename... Args>
 struct MsgpackTupleAs {
-    static veigar_msgpack::type::tuple<Args...> as(veigar_msgpack::object const& o) {
-        return MsgpackTupleAsImpl<Args...>::as(o);
+    static veigar_msgpack::type::tuple<Args...> as(veigar_msgpack::object const& o, std::size_t size) {
+        return MsgpackTupleAsImpl<Args...>::as(o, size);
     }
 };
 
 template <>
 struct MsgpackTupleAs<> {
-    static veigar_msgpack::type::tuple<> as (veigar_msgpack::object const&) {
+    static veigar_msgpack::type::tuple<> as (veigar_msgpack::object const&, std::size_t) {
         return veigar_msgpack::type::tuple<>();
     }
 };
@@ -133,7 +133,8 @@ struct MsgpackTupleConverter<Tuple, 1> {
     static void convert (
         veigar_msgpack::object const& o,
         Tuple& v) {
-        o.via.array.ptr[0].convert<typename std::remove_reference<decltype(v.template get<0>())>::type>(v.template get<0>());
+        if (o.via.array.size >= 1)
+            o.via.array.ptr[0].convert<typename std::remove_reference<decltype(v.template get<0>())>::type>(v.template get<0>());
     }
 };
 
@@ -152,7 +153,8 @@ struct as<veigar_msgpack::type::tuple<Args...>, typename std::enable_if<veigar_m
     veigar_msgpack::type::tuple<Args...> operator()(
         veigar_msgpack::object const& o) const {
         if (o.type != veigar_msgpack::type::ARRAY) { throw veigar_msgpack::type_error(); }
-        return MsgpackTupleAs<Args...>::as(o);
+        if (o.via.array.size < sizeof...(Args)) { throw veigar_msgpack::type_error(); }
+        return MsgpackTupleAs<Args...>::as(o, sizeof...(Args));
     }
 };
 
-- 
2.43.0


From 540e877c1e929d4bbbb8457d58487be067219ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:52 +0000
Subject: [PATCH 42/43] fix: a result that refers to its function's own data
 was used after its end

Functions with arguments are called through a copy, which was destroyed before
a reference it returned (to a captured value for instance) was read.
---
 include/veigar/call_dispatcher.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/veigar/call_dispatcher.inl b/include/veigar/call_dispatcher.inl
index 90f95d4..a480b3b 100644
--- a/include/veigar/call_dispatcher.inl
+++ b/include/veigar/call_dispatcher.inl
@@ -98,7 +98,8 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::nonvoid
                                      args.convert(args_real);
 
                                      auto z = detail::make_unique<veigar_msgpack::zone>();
-                                     auto result = veigar_msgpack::object(detail::call(func, args_real), *z);
+                                     F f(func);  // the result may refer to it
+                                     auto result = veigar_msgpack::object(detail::call(std::ref(f), args_real), *z);
 
                                      return detail::make_unique<veigar_msgpack::object_handle>(result, std::move(z));
                                  });
-- 
2.43.0


From cb1ce3204463a07dc1c0d9c29cb1d53fced9c43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:09 +0000
Subject: [PATCH 43/43] fix: a view returned as a result was read after what it
 refers to was gone

---
 include/veigar/msgpack/v1/adaptor/cpp17/string_view.hpp | 8 +++++++-
 include/veigar/msgpack/v1/adaptor/ext.hpp               | 9 ++++++++-
 include/veigar/msgpack/v1/adaptor/raw.hpp               | 7 ++++++-
 include/veigar/msgpack/v1/adaptor/v4raw.hpp             | 7 ++++++-
 4 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/include/veigar/msgpack/v1/adaptor/cpp17/string_view.hpp b/include/veigar/msgpack/v1/adaptor/cpp17/string_view.hpp
index 987b06d..ac2f3bf 100644
--- a/include/veigar/msgpack/v1/adaptor/cpp17/string_view.hpp
+++ b/include/veigar/msgpack/v1/adaptor/cpp17/string_view.hpp
@@ -22,6 +22,7 @@
 #include "veigar/msgpack/adaptor/check_container_size.hpp"
 
 #include <string_view>
+#include <cstring>
 
 namespace veigar_msgpack {
 
@@ -73,7 +74,12 @@ struct object<std::string_view> {
 template <>
 struct object_with_zone<std::string_view> {
     void operator()(veigar_msgpack::object::with_zone& o, const std::string_view& v) const {
-        static_cast<veigar_msgpack::object&>(o) << v;
+        uint32_t size = checked_get_container_size(v.size());
+        o.type = veigar_msgpack::type::STR;
+        char* ptr = static_cast<char*>(o.zone.allocate_align(size, MSGPACK_ZONE_ALIGNOF(char)));
+        o.via.str.ptr = ptr;
+        o.via.str.size = size;
+        if (size > 0) std::memcpy(ptr, v.data(), size);
     }
 };
 
diff --git a/include/veigar/msgpack/v1/adaptor/ext.hpp b/include/veigar/msgpack/v1/adaptor/ext.hpp
index e938e06..932aa73 100644
--- a/include/veigar/msgpack/v1/adaptor/ext.hpp
+++ b/include/veigar/msgpack/v1/adaptor/ext.hpp
@@ -223,7 +223,14 @@ struct object<veigar_msgpack::type::ext_ref> {
 template <>
 struct object_with_zone<veigar_msgpack::type::ext_ref> {
     void operator()(veigar_msgpack::object::with_zone& o, const veigar_msgpack::type::ext_ref& v) const {
-        static_cast<veigar_msgpack::object&>(o) << v;
+        // size limit has already been checked at ext_ref's constructor
+        uint32_t size = v.size();
+        o.type = veigar_msgpack::type::EXT;
+        char* ptr = static_cast<char*>(o.zone.allocate_align(size + 1, MSGPACK_ZONE_ALIGNOF(char)));
+        o.via.ext.ptr = ptr;
+        o.via.ext.size = size;
+        ptr[0] = static_cast<char>(v.type());
+        std::memcpy(ptr + 1, v.data(), size);
     }
 };
 
diff --git a/include/veigar/msgpack/v1/adaptor/raw.hpp b/include/veigar/msgpack/v1/adaptor/raw.hpp
index 19f284e..dacd4b3 100644
--- a/include/veigar/msgpack/v1/adaptor/raw.hpp
+++ b/include/veigar/msgpack/v1/adaptor/raw.hpp
@@ -93,7 +93,12 @@ struct object<type::raw_ref> {
 template <>
 struct object_with_zone<type::raw_ref> {
     void operator()(veigar_msgpack::object::with_zone& o, const type::raw_ref& v) const {
-        static_cast<veigar_msgpack::object&>(o) << v;
+        uint32_t size = v.size;
+        o.type = veigar_msgpack::type::BIN;
+        char* ptr = static_cast<char*>(o.zone.allocate_align(size, MSGPACK_ZONE_ALIGNOF(char)));
+        o.via.bin.ptr = ptr;
+        o.via.bin.size = size;
+        if (size > 0) std::memcpy(ptr, v.ptr, size);
     }
 };
 
diff --git a/include/veigar/msgpack/v1/adaptor/v4raw.hpp b/include/veigar/msgpack/v1/adaptor/v4raw.hpp
index 7b3298d..e49073b 100644
--- a/include/veigar/msgpack/v1/adaptor/v4raw.hpp
+++ b/include/veigar/msgpack/v1/adaptor/v4raw.hpp
@@ -92,7 +92,12 @@ struct object<type::v4raw_ref> {
 template <>
 struct object_with_zone<type::v4raw_ref> {
     void operator()(veigar_msgpack::object::with_zone& o, const type::v4raw_ref& v) const {
-        static_cast<veigar_msgpack::object&>(o) << v;
+        uint32_t size = v.size;
+        o.type = veigar_msgpack::type::STR;
+        char* ptr = static_cast<char*>(o.zone.allocate_align(size, MSGPACK_ZONE_ALIGNOF(char)));
+        o.via.str.ptr = ptr;
+        o.via.str.size = size;
+        if (size > 0) std::memcpy(ptr, v.ptr, size);
     }
 };
 
-- 
2.43.0

