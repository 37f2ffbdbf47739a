From 888e113d207dbfc0558aa37033b0491a94d47281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 01/37] fix: an interrupted io_getevents must not be counted as
 completed queries

---
 lib/abstractio/linux_aio_scheduler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/abstractio/linux_aio_scheduler.cpp b/lib/abstractio/linux_aio_scheduler.cpp
index bd41073..8d8ec1f 100644
--- a/lib/abstractio/linux_aio_scheduler.cpp
+++ b/lib/abstractio/linux_aio_scheduler.cpp
@@ -69,6 +69,8 @@ void LinuxAIOScheduler::notify_loop()
         if (num_events < 0) {
             std::cerr << "Error in io_getevents: " << std::to_string(errno)
                       << "(" << strerror(errno) << ")\n";
+            // interrupted or failed wait: no event has been delivered
+            continue;
         }
 
         if (num_events > 0) {
-- 
2.43.0


From 93db6a1134f9ac02908562116de9e0d336a8139d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 02/37] fix: do not wait for a completion that may never come
 when the AIO queue is full

---
 lib/abstractio/linux_aio_scheduler.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/abstractio/linux_aio_scheduler.cpp b/lib/abstractio/linux_aio_scheduler.cpp
index 8d8ec1f..4b0b908 100644
--- a/lib/abstractio/linux_aio_scheduler.cpp
+++ b/lib/abstractio/linux_aio_scheduler.cpp
@@ -9,6 +9,7 @@
 #include <climits>
 #include <libaio.h>
 
+#include <chrono>
 #include <iostream>
 
 namespace sse {
@@ -149,10 +150,12 @@ size_t LinuxAIOScheduler::submit_iocbs(struct iocb** iocbs, size_t n_iocbs)
             // wait until the submission queue has some space
             std::unique_lock<std::mutex> lock(m_cv_lock);
 
+            // do not wait forever: the last completion might have been notified
+            // before we took the lock, or there might be no query in flight
             m_waiting_submissions = true;
-            while (m_waiting_submissions) {
-                m_cv_submission.wait(lock);
-            }
+            m_cv_submission.wait_for(lock, std::chrono::milliseconds(1), [this] {
+                return !m_waiting_submissions;
+            });
         } else {
             m_failed_queries_count.fetch_add(remaining_subs);
             std::cerr << "Submission error: " << res << "\n";
-- 
2.43.0


From 4d7fc9d9c28a65f760a39191d0ae1aded80db5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 03/37] fix: report the queries already in flight when a batch
 submission fails midway

---
 lib/abstractio/linux_aio_scheduler.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/abstractio/linux_aio_scheduler.cpp b/lib/abstractio/linux_aio_scheduler.cpp
index 4b0b908..e3b4f1b 100644
--- a/lib/abstractio/linux_aio_scheduler.cpp
+++ b/lib/abstractio/linux_aio_scheduler.cpp
@@ -160,7 +160,17 @@ size_t LinuxAIOScheduler::submit_iocbs(struct iocb** iocbs, size_t n_iocbs)
             m_failed_queries_count.fetch_add(remaining_subs);
             std::cerr << "Submission error: " << res << "\n";
             perror("io_submit");
-            return -1;
+
+            // these queries will never complete: release their requests
+            for (size_t i = 0; i < remaining_subs; i++) {
+                delete static_cast<LinuxAIORequest*>(iocbs_head[i]->data);
+            }
+
+            if (remaining_subs == n_iocbs) {
+                return -1;
+            }
+            // the previous queries are in flight, and will be notified
+            break;
         }
     }
 
-- 
2.43.0


From 3618255a8cde63ce01c0be15991da26b12524ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 04/37] fix: wait_completions must not return while the last
 task still uses the scheduler

---
 lib/abstractio/thread_pool_aio_scheduler.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/abstractio/thread_pool_aio_scheduler.cpp b/lib/abstractio/thread_pool_aio_scheduler.cpp
index 95b7725..aea21f6 100644
--- a/lib/abstractio/thread_pool_aio_scheduler.cpp
+++ b/lib/abstractio/thread_pool_aio_scheduler.cpp
@@ -32,11 +32,10 @@ ThreadPoolAIOScheduler::~ThreadPoolAIOScheduler()
 
 void ThreadPoolAIOScheduler::wait_completions()
 {
-    while (this->m_running_queries != 0) {
-        std::unique_lock<std::mutex> lock(m_cv_lock);
-        m_cv_submission.wait(lock,
-                             [this] { return this->m_running_queries == 0; });
-    }
+    // the counter has to be checked with the lock held: the last task is still
+    // using the lock and the condition variable after decrementing it
+    std::unique_lock<std::mutex> lock(m_cv_lock);
+    m_cv_submission.wait(lock, [this] { return this->m_running_queries == 0; });
 }
 
 int ThreadPoolAIOScheduler::submit_pread(int                     fd,
-- 
2.43.0


From d310208672e1aeaa8b42f3ac223aa62371e4cc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 05/37] fix: create the shared IO thread pool only once

---
 lib/abstractio/thread_pool_aio_scheduler.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lib/abstractio/thread_pool_aio_scheduler.cpp b/lib/abstractio/thread_pool_aio_scheduler.cpp
index aea21f6..4bfdaa1 100644
--- a/lib/abstractio/thread_pool_aio_scheduler.cpp
+++ b/lib/abstractio/thread_pool_aio_scheduler.cpp
@@ -13,16 +13,15 @@
 namespace sse {
 namespace abstractio {
 
-static ThreadPool* _shared_io_pool = nullptr;
-
 constexpr uint32_t kAIOThreadsCount = 50;
 
 static ThreadPool& get_shared_io_pool()
 {
-    if (_shared_io_pool == nullptr) {
-        _shared_io_pool = new ThreadPool(kAIOThreadsCount);
-    }
-    return *_shared_io_pool;
+    // initialized once, even when several threads submit their first query at
+    // the same time; never destroyed
+    static ThreadPool* shared_io_pool = new ThreadPool(kAIOThreadsCount);
+
+    return *shared_io_pool;
 }
 
 ThreadPoolAIOScheduler::~ThreadPoolAIOScheduler()
-- 
2.43.0


From d614f6bb36d79442c9a70943c8e3e8b37f5dc6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 06/37] fix: awonvm_vector::push_back writes at the position it
 returns

---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 087f142..bc57971 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -220,11 +220,11 @@ size_t awonvm_vector<T, ALIGNMENT>::push_back(const T& val)
     }
 
     size_t pos = m_size.fetch_add(1);
-    // off_t  off = pos * sizeof(T);
+    off_t  off = pos * sizeof(T);
 
-    // fix issue with the alignment of val
-    // int res = pwrite(m_fd, &val, sizeof(T), off);
-    int res = write(m_fd, &val, sizeof(T));
+    // do not rely on the file offset: asynchronous and concurrent writes, and
+    // the change of access mode do not keep it in sync with the position
+    int res = pwrite(m_fd, &val, sizeof(T), off);
 
     if (res != sizeof(T)) {
         std::cerr << "Error during pwrite: " << res << "\n";
-- 
2.43.0


From 5d628341e3bc619b3c793fc5564c97d4fd2ddda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 07/37] fix: moving an awonvm_vector moves its size and state,
 and only closes the file once

---
 .../sse/schemes/abstractio/awonvm_vector.hpp        | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index bc57971..0785fdf 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -173,9 +173,14 @@ template<typename T, size_t ALIGNMENT>
 awonvm_vector<T, ALIGNMENT>::awonvm_vector(awonvm_vector&& vec) noexcept
     : m_filename(vec.m_filename), m_use_direct_io(vec.m_use_direct_io),
       m_fd(vec.m_fd), m_device_page_size(vec.m_device_page_size),
-      m_io_scheduler(std::move(vec.m_io_scheduler))
+      m_size(vec.m_size.load()), m_is_committed(vec.m_is_committed.load()),
+      m_io_scheduler(std::move(vec.m_io_scheduler)),
+      m_io_warn_flag(vec.m_io_warn_flag)
 {
-    vec.m_fd = 0;
+    // there is nothing left to commit or to close in the moved vector
+    vec.m_fd           = -1;
+    vec.m_size         = 0;
+    vec.m_is_committed = true;
 }
 
 template<typename T, size_t ALIGNMENT>
@@ -188,7 +193,9 @@ awonvm_vector<T, ALIGNMENT>::~awonvm_vector()
             m_io_scheduler->wait_completions();
         }
     }
-    close(m_fd);
+    if (m_fd >= 0) {
+        close(m_fd);
+    }
 }
 
 template<typename T, size_t ALIGNMENT>
-- 
2.43.0


From 0b3247a299e6ffd0493792ba2ab587777f842d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 08/37] fix: awonvm_vector::async_push_back refuses a committed
 vector, as push_back does

---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 0785fdf..943ee92 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -249,6 +249,11 @@ size_t awonvm_vector<T, ALIGNMENT>::push_back(const T& val)
 template<typename T, size_t ALIGNMENT>
 size_t awonvm_vector<T, ALIGNMENT>::async_push_back(const T& val)
 {
+    if (m_is_committed) {
+        throw std::runtime_error(
+            "Invalid state during write: the vector is committed");
+    }
+
     if (!m_io_scheduler) {
         throw std::runtime_error("No IO Scheduler set");
     }
-- 
2.43.0


From 23d7554ea5876d14606704be6ee1ee20da758e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 09/37] fix: off-by-one in the bound checks of awonvm_vector

---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 943ee92..07619bf 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -345,7 +345,7 @@ void awonvm_vector<T, ALIGNMENT>::set_use_direct_access(bool flag)
 template<typename T, size_t ALIGNMENT>
 T awonvm_vector<T, ALIGNMENT>::get(size_t index)
 {
-    if (index > m_size.load()) {
+    if (index >= m_size.load()) {
         throw std::invalid_argument("Index (" + std::to_string(index)
                                     + ") out of bounds (size="
                                     + std::to_string(m_size.load()) + ")");
@@ -387,7 +387,7 @@ void awonvm_vector<T, ALIGNMENT>::async_get(size_t            index,
         m_io_warn_flag = true;
     }
 
-    if (index > m_size.load()) {
+    if (index >= m_size.load()) {
         throw std::invalid_argument("Index (" + std::to_string(index)
                                     + ") out of bounds (size="
                                     + std::to_string(m_size.load()) + ")");
@@ -450,7 +450,7 @@ void awonvm_vector<T, ALIGNMENT>::async_gets(
     submissions.reserve(requests.size());
 
     for (const auto& req : requests) {
-        if (req.index > m_size.load()) {
+        if (req.index >= m_size.load()) {
             throw std::invalid_argument("Index (" + std::to_string(req.index)
                                         + ") out of bounds (size="
                                         + std::to_string(m_size.load()) + ")");
-- 
2.43.0


From 4e96df488dfb9e2e77ec35cee129a50fd9bcabb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 10/37] fix: awonvm_vector::set_use_direct_access without an IO
 scheduler

---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 07619bf..c2e584f 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -324,7 +324,9 @@ void awonvm_vector<T, ALIGNMENT>::set_use_direct_access(bool flag)
 {
     if (flag != m_use_direct_io) {
         // wait for unfinished async IOs
-        m_io_scheduler->wait_completions();
+        if (m_io_scheduler) {
+            m_io_scheduler->wait_completions();
+        }
 
         // close the current file descriptor
         close(m_fd);
@@ -334,8 +336,10 @@ void awonvm_vector<T, ALIGNMENT>::set_use_direct_access(bool flag)
 
 
         // recreate an async scheduler
-        Scheduler* new_sched = m_io_scheduler->duplicate();
-        m_io_scheduler.reset(new_sched);
+        if (m_io_scheduler) {
+            Scheduler* new_sched = m_io_scheduler->duplicate();
+            m_io_scheduler.reset(new_sched);
+        }
 
         m_use_direct_io = flag;
         m_io_warn_flag  = false;
-- 
2.43.0


From 0186f7739ed74a3009433ca20ec28df03731a3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 11/37] fix: committing an awonvm_vector drops the reserved
 space that was not used

---
 .../sse/schemes/abstractio/awonvm_vector.hpp     | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index c2e584f..6aadaaa 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -91,6 +91,7 @@ private:
     const size_t      m_device_page_size;
 
     std::atomic_size_t m_size{0};
+    size_t             m_reserved{0};
 
     std::atomic<bool> m_is_committed{false};
 
@@ -173,7 +174,8 @@ template<typename T, size_t ALIGNMENT>
 awonvm_vector<T, ALIGNMENT>::awonvm_vector(awonvm_vector&& vec) noexcept
     : m_filename(vec.m_filename), m_use_direct_io(vec.m_use_direct_io),
       m_fd(vec.m_fd), m_device_page_size(vec.m_device_page_size),
-      m_size(vec.m_size.load()), m_is_committed(vec.m_is_committed.load()),
+      m_size(vec.m_size.load()), m_reserved(vec.m_reserved),
+      m_is_committed(vec.m_is_committed.load()),
       m_io_scheduler(std::move(vec.m_io_scheduler)),
       m_io_warn_flag(vec.m_io_warn_flag)
 {
@@ -209,6 +211,8 @@ void awonvm_vector<T, ALIGNMENT>::reserve(size_t n)
                 "awonvm_vector. ftrunctate returned {}. Error: {}",
                 ret,
                 strerror(errno));
+        } else {
+            m_reserved = n;
         }
     }
 }
@@ -315,6 +319,16 @@ void awonvm_vector<T, ALIGNMENT>::commit() noexcept
         } else {
             fsync(m_fd);
         }
+
+        // the size of a reopened vector is the one of its file: do not let the
+        // reserved space that has not been used pass for elements
+        if (m_reserved > m_size
+            && ftruncate(m_fd, m_size.load() * sizeof(T)) != 0) {
+            sse::logger::logger()->warn(
+                "Unable to release the unused space of an awonvm_vector. "
+                "Error: {}",
+                strerror(errno));
+        }
     }
     m_is_committed = true;
 }
-- 
2.43.0


From 4f68ce1d195a980149d9840421fe01f41dfd443e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 12/37] fix: a failed batched read must not free the buffers of
 the reads in flight

---
 .../sse/schemes/abstractio/awonvm_vector.hpp     | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 6aadaaa..c8a0cdb 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -485,12 +485,18 @@ void awonvm_vector<T, ALIGNMENT>::async_gets(
                 + std::to_string(ret) + "(" + strerror(ret) + ")");
         }
 
+        // the query owns its buffer: it is released with the query if the read
+        // fails, or if the query is never submitted
+        auto owned_buffer = std::make_shared<std::unique_ptr<T>>(
+            reinterpret_cast<T*>(buffer));
+
         auto get_callback = req.callback;
-        auto inner_cb     = [get_callback](void* buf, int64_t res) {
+        auto inner_cb
+            = [get_callback, owned_buffer](void* /*buf*/, int64_t res) {
             std::unique_ptr<T> result(nullptr);
 
             if (res == sizeof(T)) {
-                result.reset(reinterpret_cast<T*>(buf));
+                result = std::move(*owned_buffer);
             }
 
             get_callback(std::move(result));
@@ -503,10 +509,8 @@ void awonvm_vector<T, ALIGNMENT>::async_gets(
     int ret = m_io_scheduler->submit_preads(submissions);
 
     if (ret < 0 || static_cast<size_t>(ret) != submissions.size()) {
-        for (auto& sub : submissions) {
-            free(sub.buf);
-        }
-
+        // the queries that were submitted before the failure are still running,
+        // and need their buffers
         throw std::runtime_error(
             "Error when submitting the read async IO: errno "
             + std::to_string(ret) + "(" + strerror(ret) + ")");
-- 
2.43.0


From af90772f8b19d09b4a4b00af6b53729875aac67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:16 +0000
Subject: [PATCH 13/37] fix: remove_directory must not report success on a link
 it did not remove

---
 lib/utils/utils.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/utils/utils.cpp b/lib/utils/utils.cpp
index 440eac5..8e7ed3f 100644
--- a/lib/utils/utils.cpp
+++ b/lib/utils/utils.cpp
@@ -65,12 +65,14 @@ bool create_directory(const std::string& path, mode_t mode)
 // https://stackoverflow.com/a/27808574
 bool remove_directory(const std::string& path)
 {
-    if (!exists(path)) {
+    const char* dir = path.c_str();
+
+    // do not follow symbolic links: a dangling one has to be removed too
+    struct stat sb;
+    if (lstat(dir, &sb) != 0 && (errno == ENOENT || errno == ENOTDIR)) {
         return true;
     }
 
-    const char* dir = path.c_str();
-
 
     // Cast needed (in C) because fts_open() takes a "char * const *",
     // instead of a "const char * const *", which is only allowed in C++.
-- 
2.43.0


From 3d4b97c7c9617ada04b826ca9fa348556874eed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:16 +0000
Subject: [PATCH 14/37] fix: hex_string truncates the elements of arrays of
 wide integers

---
 lib/include/sse/schemes/utils/utils.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/include/sse/schemes/utils/utils.hpp b/lib/include/sse/schemes/utils/utils.hpp
index 2e86680..e4c1f15 100644
--- a/lib/include/sse/schemes/utils/utils.hpp
+++ b/lib/include/sse/schemes/utils/utils.hpp
@@ -75,10 +75,14 @@ std::string hex_string(const std::string& in);
 template<typename T, size_t N>
 std::string hex_string(const std::array<T, N>& in)
 {
+    static_assert(sizeof(T) <= sizeof(uint64_t), "Elements are too large.");
+    // do not extend the sign of the elements
+    constexpr uint64_t kMask = ~uint64_t(0) >> (64 - 8 * sizeof(T));
+
     std::ostringstream out;
-    for (unsigned char c : in) {
+    for (const T& c : in) {
         out << std::hex << std::setw(2 * sizeof(T)) << std::setfill('0')
-            << static_cast<uint64_t>(c);
+            << (static_cast<uint64_t>(c) & kMask);
     }
     return out.str();
 }
-- 
2.43.0


From 2f0f5b8991d38309d9e7aadc61231f625b66cd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:16 +0000
Subject: [PATCH 15/37] fix: concatenating an empty container in front of
 another one

---
 lib/include/sse/schemes/utils/concat_iterator.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/include/sse/schemes/utils/concat_iterator.hpp b/lib/include/sse/schemes/utils/concat_iterator.hpp
index f95fd9d..2777199 100644
--- a/lib/include/sse/schemes/utils/concat_iterator.hpp
+++ b/lib/include/sse/schemes/utils/concat_iterator.hpp
@@ -53,6 +53,11 @@ public:
         : container_1(&c1), container_2(&c2), internal_iterator(c1.begin()),
           point_to_container_2(false)
     {
+        if (internal_iterator == c1.end()) {
+            // the first container is empty
+            internal_iterator    = c2.begin();
+            point_to_container_2 = true;
+        }
     }
 
     concat_iterator(Container&         c1,
@@ -126,6 +131,11 @@ public:
         : container_1(&c1), container_2(&c2), internal_iterator(c1.begin()),
           point_to_container_2(false)
     {
+        if (internal_iterator == c1.end()) {
+            // the first container is empty
+            internal_iterator    = c2.begin();
+            point_to_container_2 = true;
+        }
     }
 
     concat_const_iterator(const Container&   c1,
-- 
2.43.0


From f793be3e2a74a4e2e19ee188b24b60457c9a1b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:27 +0000
Subject: [PATCH 16/37] fix: an empty list must not end the bucket it is
 encoded in

---
 lib/include/sse/schemes/tethys/encoders/encode_separate.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp b/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
index 35237fa..69a28c4 100644
--- a/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
+++ b/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
@@ -78,6 +78,12 @@ struct EncodeSeparateEncoder
         // spilled control values
         encoded_list_size = std::min(encoded_list_size, original_list_size);
 
+        if (encoded_list_size == 0) {
+            // there is nothing to encode, and a null length marks the end of
+            // the bucket
+            return 0;
+        }
+
         auto sublist_begin = values.begin();
         auto sublist_end   = values.end();
         // size_t sublist_begin = 0;
-- 
2.43.0


From 9984fc036c04cd95919326dd620f1767e605473a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 17/37] fix: do not read past the end of a page while decoding
 it

---
 lib/include/sse/schemes/tethys/encoders/encode_separate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp b/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
index 69a28c4..20f72b6 100644
--- a/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
+++ b/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
@@ -288,7 +288,7 @@ struct EncodeSeparateDecoder
         Key      list_key;
         uint64_t list_length;
 
-        while (offset < bucket.size()) {
+        while (offset + sizeof(list_length) <= bucket.size()) {
             // read the length of the list
             memcpy(&list_length, bucket.data() + offset, sizeof(list_length));
             offset += sizeof(list_length);
-- 
2.43.0


From cda003a8837b28c3243776086aca23ac4c4f820f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:17 +0000
Subject: [PATCH 18/37] fix: a moved-from cuckoo builder has nothing to commit

---
 lib/include/sse/schemes/oceanus/cuckoo.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/oceanus/cuckoo.hpp b/lib/include/sse/schemes/oceanus/cuckoo.hpp
index 11841d3..9ad612b 100644
--- a/lib/include/sse/schemes/oceanus/cuckoo.hpp
+++ b/lib/include/sse/schemes/oceanus/cuckoo.hpp
@@ -48,7 +48,7 @@ public:
     using param_type   = CuckooBuilderParam;
 
     explicit CuckooBuilder(CuckooBuilderParam p);
-    CuckooBuilder(CuckooBuilder&&) noexcept = default;
+    CuckooBuilder(CuckooBuilder&& other) noexcept;
 
     ~CuckooBuilder();
 
@@ -123,6 +123,22 @@ CuckooBuilder<PAGE_SIZE, Key, T, KeySerializer, ValueSerializer, CuckooHasher>::
     data.reserve(params.max_n_elements);
 }
 
+template<size_t PAGE_SIZE,
+         class Key,
+         class T,
+         class KeySerializer,
+         class ValueSerializer,
+         class CuckooHasher>
+CuckooBuilder<PAGE_SIZE, Key, T, KeySerializer, ValueSerializer, CuckooHasher>::
+    CuckooBuilder(CuckooBuilder&& other) noexcept
+    : params(std::move(other.params)), allocator(std::move(other.allocator)),
+      data(std::move(other.data)), spilled_data(std::move(other.spilled_data)),
+      n_elements(other.n_elements), is_committed(other.is_committed)
+{
+    // there is nothing left to commit in the moved-from builder
+    other.is_committed = true;
+}
+
 template<size_t PAGE_SIZE,
          class Key,
          class T,
-- 
2.43.0


From d2a54a0a0d375aad9bfdf2633ed097a6b09463c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:12 +0000
Subject: [PATCH 19/37] fix: do not silently drop the elements a cuckoo table
 cannot hold

---
 lib/include/sse/schemes/oceanus/cuckoo.hpp  | 18 +++++++++++++++++-
 lib/include/sse/schemes/oceanus/oceanus.hpp |  2 +-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/include/sse/schemes/oceanus/cuckoo.hpp b/lib/include/sse/schemes/oceanus/cuckoo.hpp
index 9ad612b..1c06a15 100644
--- a/lib/include/sse/schemes/oceanus/cuckoo.hpp
+++ b/lib/include/sse/schemes/oceanus/cuckoo.hpp
@@ -149,7 +149,15 @@ CuckooBuilder<PAGE_SIZE, Key, T, KeySerializer, ValueSerializer, CuckooHasher>::
     ~CuckooBuilder()
 {
     if (!is_committed) {
-        commit();
+        if (spilled_data.empty()) {
+            commit();
+        } else {
+            // a destructor cannot throw: do not write an incomplete table
+            std::cerr << "Unable to commit the cuckoo table: "
+                      << spilled_data.size()
+                      << " element(s) could not be placed\n";
+            utility::remove_file(params.value_file_path);
+        }
     }
 }
 
@@ -210,6 +218,14 @@ void CuckooBuilder<PAGE_SIZE,
         return;
     }
 
+    if (!spilled_data.empty()) {
+        // the spilled elements would be lost
+        throw std::runtime_error(
+            "Unable to commit the cuckoo table: "
+            + std::to_string(spilled_data.size())
+            + " element(s) could not be placed");
+    }
+
     is_committed = true;
 
     // commit the data file
diff --git a/lib/include/sse/schemes/oceanus/oceanus.hpp b/lib/include/sse/schemes/oceanus/oceanus.hpp
index 87d7f81..ba1d18e 100644
--- a/lib/include/sse/schemes/oceanus/oceanus.hpp
+++ b/lib/include/sse/schemes/oceanus/oceanus.hpp
@@ -143,7 +143,7 @@ OceanusBuilder<PAGE_SIZE>::OceanusBuilder(const std::string& db_path,
 template<size_t PAGE_SIZE>
 OceanusBuilder<PAGE_SIZE>::~OceanusBuilder()
 {
-    commit();
+    // the destructor of the cuckoo builder commits the table
 }
 
 
-- 
2.43.0


From 0fdee9a0ca2492c3c08c7967be4e2dfde3096624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:12 +0000
Subject: [PATCH 20/37] fix: do not return the padding of the full blocks of
 Pluto

---
 lib/include/sse/schemes/pluto/pluto_server.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/include/sse/schemes/pluto/pluto_server.hpp b/lib/include/sse/schemes/pluto/pluto_server.hpp
index ac69fe1..2812855 100644
--- a/lib/include/sse/schemes/pluto/pluto_server.hpp
+++ b/lib/include/sse/schemes/pluto/pluto_server.hpp
@@ -60,9 +60,12 @@ auto PlutoServer<Params>::search(const SearchRequest& search_request)
         try {
             typename Params::ht_value_type v = hash_table.get(key);
 
-            res.complete_lists.reserve(res.complete_lists.size() + v.size());
-            res.complete_lists.insert(
-                res.complete_lists.end(), v.begin(), v.end());
+            // the value can be larger than a block: do not return the padding
+            res.complete_lists.reserve(res.complete_lists.size()
+                                       + Params::kPlutoListLength);
+            res.complete_lists.insert(res.complete_lists.end(),
+                                      v.begin(),
+                                      v.begin() + Params::kPlutoListLength);
         } catch (const std::out_of_range& e) {
             break;
         }
-- 
2.43.0


From d76ab6606a56c9d1162a8301016e7f7362359554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:12 +0000
Subject: [PATCH 21/37] fix: RocksDB cuckoo tables need mmap reads

---
 lib/pluto/rocksdb_store.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/pluto/rocksdb_store.cpp b/lib/pluto/rocksdb_store.cpp
index 9694fe2..78f3e5a 100644
--- a/lib/pluto/rocksdb_store.cpp
+++ b/lib/pluto/rocksdb_store.cpp
@@ -28,7 +28,8 @@ rocksdb::Options GenericRocksDBStoreParams::make_rocksdb_cuckoo_options()
     options.compaction_style = rocksdb::kCompactionStyleLevel;
     options.info_log_level   = rocksdb::InfoLogLevel::INFO_LEVEL;
 
-    // options.allow_mmap_reads                       = true;
+    // cuckoo tables can only be read from mmaped files
+    options.allow_mmap_reads = true;
 
     options.allow_concurrent_memtable_write
         = options.memtable_factory->IsInsertConcurrentlySupported();
-- 
2.43.0


From 0fa14c3354efdae3a39dd82ade71bb7f6eecc495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:52 +0000
Subject: [PATCH 22/37] fix: DianaClient::get_match_count misses one match

---
 lib/include/sse/schemes/diana/diana_client.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/diana/diana_client.hpp b/lib/include/sse/schemes/diana/diana_client.hpp
index ec3d036..c344924 100644
--- a/lib/include/sse/schemes/diana/diana_client.hpp
+++ b/lib/include/sse/schemes/diana/diana_client.hpp
@@ -126,7 +126,8 @@ uint32_t DianaClient<T>::get_match_count(const std::string& kw) const
 
     bool found = counter_map_.get(kw, kw_counter);
 
-    return (found) ? kw_counter : 0;
+    // the counter is the position of the last match
+    return (found) ? kw_counter + 1 : 0;
 }
 
 template<typename T>
-- 
2.43.0


From 1edb65e6584de6458bd93a5269c8e69ce716074e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:52 +0000
Subject: [PATCH 23/37] fix: parallel Sophos searches abort on empty search
 requests

---
 lib/sophos/sophos_server.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/lib/sophos/sophos_server.cpp b/lib/sophos/sophos_server.cpp
index 832df6d..111422a 100644
--- a/lib/sophos/sophos_server.cpp
+++ b/lib/sophos/sophos_server.cpp
@@ -129,6 +129,11 @@ void SophosServer::search_callback(
 std::list<index_type> SophosServer::search_parallel(SearchRequest& req,
                                                     uint8_t access_threads)
 {
+    // the token of an empty search request is not a valid one
+    if (req.add_count == 0) {
+        return {};
+    }
+
     std::list<index_type> results;
     std::mutex            res_mutex;
 
@@ -225,6 +230,11 @@ std::list<index_type> SophosServer::search_parallel(SearchRequest& req,
 std::list<index_type> SophosServer::search_parallel_light(SearchRequest& req,
                                                           uint8_t thread_count)
 {
+    // the token of an empty search request is not a valid one
+    if (req.add_count == 0) {
+        return {};
+    }
+
     search_token_type     st = req.token;
     std::list<index_type> results;
     std::mutex            res_mutex;
@@ -316,6 +326,11 @@ void SophosServer::search_parallel_callback(
     uint8_t                         access_thread_count,
     uint8_t                         post_thread_count)
 {
+    // the token of an empty search request is not a valid one
+    if (req.add_count == 0) {
+        return;
+    }
+
     search_token_type st = req.token;
 
 
@@ -404,6 +419,11 @@ void SophosServer::search_parallel_light_callback(
     std::function<void(index_type)> post_callback,
     uint8_t                         thread_count)
 {
+    // the token of an empty search request is not a valid one
+    if (req.add_count == 0) {
+        return;
+    }
+
     search_token_type st = req.token;
 
     logger::logger()->debug("Search token: " + utility::hex_string(req.token)
-- 
2.43.0


From 1be1bd742a5a847b2d23f3fe5992c904eac8d68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:52 +0000
Subject: [PATCH 24/37] fix: concurrent increments of a RocksDBCounter must not
 get the same value

---
 lib/include/sse/schemes/utils/rocksdb_wrapper.hpp | 3 +++
 lib/utils/rocksdb_wrapper.cpp                     | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/lib/include/sse/schemes/utils/rocksdb_wrapper.hpp b/lib/include/sse/schemes/utils/rocksdb_wrapper.hpp
index fcc99d4..4a33c03 100644
--- a/lib/include/sse/schemes/utils/rocksdb_wrapper.hpp
+++ b/lib/include/sse/schemes/utils/rocksdb_wrapper.hpp
@@ -31,6 +31,7 @@
 #include <iostream>
 #include <list>
 #include <memory>
+#include <mutex>
 
 namespace sse {
 namespace sophos {
@@ -279,6 +280,8 @@ public:
 
 private:
     rocksdb::DB* db_;
+    // updates are read-modify-write sequences
+    std::mutex update_mtx_;
 };
 
 
diff --git a/lib/utils/rocksdb_wrapper.cpp b/lib/utils/rocksdb_wrapper.cpp
index 8661718..1c74400 100644
--- a/lib/utils/rocksdb_wrapper.cpp
+++ b/lib/utils/rocksdb_wrapper.cpp
@@ -100,6 +100,8 @@ bool RocksDBCounter::get(const std::string& key, uint32_t& val) const
 
 bool RocksDBCounter::get_and_increment(const std::string& key, uint32_t& val)
 {
+    std::lock_guard<std::mutex> lock(update_mtx_);
+
     std::string data;
 
     rocksdb::Status s = db_->Get(rocksdb::ReadOptions(), key, &data);
@@ -133,6 +135,8 @@ bool RocksDBCounter::get_and_increment(const std::string& key, uint32_t& val)
 
 bool RocksDBCounter::increment(const std::string& key, uint32_t default_value)
 {
+    std::lock_guard<std::mutex> lock(update_mtx_);
+
     std::string data;
     uint32_t    val;
 
@@ -165,6 +169,8 @@ bool RocksDBCounter::increment(const std::string& key, uint32_t default_value)
 
 bool RocksDBCounter::set(const std::string& key, uint32_t val)
 {
+    std::lock_guard<std::mutex> lock(update_mtx_);
+
     rocksdb::Slice k_v(reinterpret_cast<const char*>(&val), sizeof(uint32_t));
 
     rocksdb::Status s = db_->Put(rocksdb::WriteOptions(), key, k_v);
@@ -184,6 +190,8 @@ bool RocksDBCounter::set(const std::string& key, uint32_t val)
 
 bool RocksDBCounter::remove_key(const std::string& key)
 {
+    std::lock_guard<std::mutex> lock(update_mtx_);
+
     rocksdb::Status s = db_->Delete(rocksdb::WriteOptions(), key);
 
     return s.ok();
-- 
2.43.0


From 11f980bcb0620ada81f92733934b2e7eb09e192a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:03 +0000
Subject: [PATCH 25/37] fix: the random groups of 100 entries are generated
 under the keywords of those of 1000

---
 lib/utils/db_generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/utils/db_generator.cpp b/lib/utils/db_generator.cpp
index fff8b50..ea098c8 100644
--- a/lib/utils/db_generator.cpp
+++ b/lib/utils/db_generator.cpp
@@ -278,7 +278,7 @@ static void generation_job(
                 if (group_rand_10_2[g] < size_group_2) {
                     group_rand_10_2[g]++;
                     kw = kKeywordRand10GroupBase;
-                    kw.append("3_").append(id_string).append("_").append(
+                    kw.append("2_").append(id_string).append("_").append(
                         std::to_string(g));
                     insertions.push_back(kw);
                 }
-- 
2.43.0


From f050750e18b15d22c357631f7cba500890e9f4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:30 +0000
Subject: [PATCH 26/37] fix: an insertion refused for want of an update session
 must not move the counter

insert_in_session generated the update request, which increments the counter
of the keyword, before checking that a session is up. The later searches then
announced a match that does not exist: the server looked for it in vain and the
synchronous search of Diana returned a spurious document 0.
---
 lib/diana/client_runner.cpp         | 7 ++++---
 lib/sophos/sophos_client_runner.cpp | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/diana/client_runner.cpp b/lib/diana/client_runner.cpp
index 0b47c1a..3070a04 100644
--- a/lib/diana/client_runner.cpp
+++ b/lib/diana/client_runner.cpp
@@ -350,13 +350,14 @@ void DianaClientRunner::insert(const std::string& keyword, uint64_t index)
 void DianaClientRunner::insert_in_session(const std::string& keyword,
                                           uint64_t           index)
 {
-    UpdateRequestMessage message
-        = request_to_message(client_->insertion_request(keyword, index));
-
+    // check the state first: creating the request updates the client's counters
     if (!bulk_update_state_.is_up) {
         throw std::runtime_error("Invalid state: the update session is not up");
     }
 
+    UpdateRequestMessage message
+        = request_to_message(client_->insertion_request(keyword, index));
+
     bulk_update_state_.mtx.lock();
     if (!bulk_update_state_.writer->Write(message)) {
         logger::logger()->error("Update session stopped: broken stream.");
diff --git a/lib/sophos/sophos_client_runner.cpp b/lib/sophos/sophos_client_runner.cpp
index 9c8ad43..42e4a52 100644
--- a/lib/sophos/sophos_client_runner.cpp
+++ b/lib/sophos/sophos_client_runner.cpp
@@ -326,13 +326,14 @@ void SophosClientRunner::insert(const std::string& keyword, uint64_t index)
 void SophosClientRunner::insert_in_session(const std::string& keyword,
                                            uint64_t           index)
 {
-    sophos::UpdateRequestMessage message
-        = request_to_message(client_->insertion_request(keyword, index));
-
+    // check the state first: creating the request updates the client's counters
     if (!bulk_update_state_.is_up) {
         throw std::runtime_error("Invalid state: the update session is not up");
     }
 
+    sophos::UpdateRequestMessage message
+        = request_to_message(client_->insertion_request(keyword, index));
+
     bulk_update_state_.mtx.lock();
     if (!bulk_update_state_.writer->Write(message)) {
         logger::logger()->error("Update session: broken stream.");
-- 
2.43.0


From f2724b426077e9a3cc05285444b3e90bf0b53750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:43 +0000
Subject: [PATCH 27/37] fix: a failed load of an inverted index must not leave
 its update session open

When the parser failed in the middle of a file, load_inverted_index returned
false with the session it had started still up. The caller, who did not start
any session, had no reason to end it: his next insertions silently went into
it, and were not necessarily seen by his next searches.
---
 lib/diana/client_runner.cpp         | 9 +++++++++
 lib/sophos/sophos_client_runner.cpp | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/lib/diana/client_runner.cpp b/lib/diana/client_runner.cpp
index 3070a04..48715e1 100644
--- a/lib/diana/client_runner.cpp
+++ b/lib/diana/client_runner.cpp
@@ -436,6 +436,9 @@ void DianaClientRunner::end_update_session()
 
 bool DianaClientRunner::load_inverted_index(const std::string& path)
 {
+    // true if the update session has been started by this function
+    bool session_started = false;
+
     try {
         dbparser::DBParserJSON parser(path.c_str());
         ThreadPool             pool(std::thread::hardware_concurrency());
@@ -470,6 +473,7 @@ bool DianaClientRunner::load_inverted_index(const std::string& path)
 
         parser.addCallbackList(add_list_callback);
 
+        session_started = !bulk_update_state_.writer;
         // NOLINTNEXTLINE(clang-analyzer-core.CallAndMessage)
         start_update_session();
 
@@ -484,6 +488,11 @@ bool DianaClientRunner::load_inverted_index(const std::string& path)
     } catch (std::exception& e) {
         logger::logger()->error("Failed to load file " + path + ": \n"
                                 + e.what());
+        if (session_started) {
+            // do not leave the update session of the failed load open: the
+            // later insertions would silently become part of it
+            end_update_session();
+        }
         return false;
     }
     return false;
diff --git a/lib/sophos/sophos_client_runner.cpp b/lib/sophos/sophos_client_runner.cpp
index 42e4a52..ddb24e5 100644
--- a/lib/sophos/sophos_client_runner.cpp
+++ b/lib/sophos/sophos_client_runner.cpp
@@ -383,6 +383,9 @@ void SophosClientRunner::end_update_session()
 
 bool SophosClientRunner::load_inverted_index(const std::string& path)
 {
+    // true if the update session has been started by this function
+    bool session_started = false;
+
     try {
         dbparser::DBParserJSON parser(path.c_str());
         ThreadPool             pool(std::thread::hardware_concurrency());
@@ -410,6 +413,7 @@ bool SophosClientRunner::load_inverted_index(const std::string& path)
 
         parser.addCallbackList(add_list_callback);
 
+        session_started = !bulk_update_state_.writer;
         // De-activate clang-tidy because of a false positive in gRPC
         // NOLINTNEXTLINE(clang-analyzer-core.CallAndMessage)
         start_update_session();
@@ -425,6 +429,11 @@ bool SophosClientRunner::load_inverted_index(const std::string& path)
     } catch (std::exception& e) {
         logger::logger()->error("Failed to load file " + path + ": "
                                 + e.what());
+        if (session_started) {
+            // do not leave the update session of the failed load open: the
+            // later insertions would silently become part of it
+            end_update_session();
+        }
         return false;
     }
     return false;
-- 
2.43.0


From 1421df222c4a1db3b4e8db7c261ae06e90f97305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:58 +0000
Subject: [PATCH 28/37] fix: the synchronous search of the Diana server invents
 documents

The results were written in a vector prefilled with zeros and of the size of
the expected number of matches. When some of them are not in the database (an
update that failed, or an update session still in progress), the document 0 was
sent in their place.
---
 lib/diana/server_runner.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/diana/server_runner.cpp b/lib/diana/server_runner.cpp
index fcb6d42..e895aab 100644
--- a/lib/diana/server_runner.cpp
+++ b/lib/diana/server_runner.cpp
@@ -33,6 +33,7 @@
 
 #include <atomic>
 #include <fstream>
+#include <list>
 #include <thread>
 #include <utility>
 
@@ -214,7 +215,7 @@ grpc::Status DianaImpl::sync_search(__attribute__((unused))
 
     SearchRequest req = message_to_request(token_wrapper_, mes);
 
-    std::vector<uint64_t> res_list(req.add_count);
+    std::list<uint64_t> res_list;
 
     logger::logger()->trace("{} expected matches", req.add_count);
 
@@ -223,7 +224,10 @@ grpc::Status DianaImpl::sync_search(__attribute__((unused))
     } else {
         {
             SearchBenchmark bench("Diana synchronous search");
-            server_->search_parallel(req, 8, res_list);
+            // only get the matches that are actually in the database: the
+            // client's counter can be ahead of it (failed update, or update
+            // session in progress)
+            res_list = server_->search_parallel(req, 8);
             bench.set_count(res_list.size());
         }
         for (auto& i : res_list) {
-- 
2.43.0


From 8e7e8f26bc3a5804af22ebf098f8f3ec0be9a396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:15 +0000
Subject: [PATCH 29/37] fix: a refused setup must leave the server not set up

When the wrapping key of the setup message had an invalid size, the Diana
server answered with an error, but kept the database it had just created:
updates were accepted, and a search used the wrapper that was never created
(null pointer). Check the key before creating anything, and do not keep the
server when its key cannot be saved.
---
 lib/diana/server_runner.cpp         | 16 +++++++++-------
 lib/sophos/sophos_server_runner.cpp |  2 ++
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/lib/diana/server_runner.cpp b/lib/diana/server_runner.cpp
index e895aab..17ea109 100644
--- a/lib/diana/server_runner.cpp
+++ b/lib/diana/server_runner.cpp
@@ -116,6 +116,13 @@ grpc::Status DianaImpl::setup(__attribute__((unused))
                             "The server was already set up");
     }
 
+    if (message->wrapping_key().size() != crypto::Wrapper::kKeySize) {
+        logger::logger()->error("Invalid wrapping key size");
+
+        return grpc::Status(grpc::INVALID_ARGUMENT,
+                            "Invalid transmitted wrapping key size");
+    }
+
     // create the content directory but first check that nothing is already
     // there
 
@@ -163,17 +170,12 @@ grpc::Status DianaImpl::setup(__attribute__((unused))
 
         logger::logger()->error("Error when writing the wrapping key");
 
+        // do not serve requests without the wrapper
+        server_.reset();
         return grpc::Status(grpc::PERMISSION_DENIED,
                             "Unable to write the wrapping key to disk");
     }
 
-    if (message->wrapping_key().size() != crypto::Wrapper::kKeySize) {
-        logger::logger()->error("Invalid wrapping key size");
-
-        return grpc::Status(grpc::INVALID_ARGUMENT,
-                            "Invalid transmitted wrapping key size");
-    }
-
     wrapping_key_out << message->wrapping_key();
     wrapping_key_out.close();
 
diff --git a/lib/sophos/sophos_server_runner.cpp b/lib/sophos/sophos_server_runner.cpp
index 46b9669..0f44c48 100644
--- a/lib/sophos/sophos_server_runner.cpp
+++ b/lib/sophos/sophos_server_runner.cpp
@@ -137,6 +137,8 @@ grpc::Status SophosImpl::setup(__attribute__((unused))
 
         logger::logger()->error("Error when writing the public key");
 
+        // the setup failed: do not serve requests
+        server_.reset();
         return grpc::Status(grpc::PERMISSION_DENIED,
                             "Unable to write the public key to disk");
     }
-- 
2.43.0


From 85970039ad4b9492137ede7dc68acab7324a7b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:47 +0000
Subject: [PATCH 30/37] fix: check the size of the fields received by the
 servers

The tokens and keys of the requests received from the network were copied in
fixed-size arrays whatever their actual size: too long ones overflowed the
array (on the stack), too short ones left it partly uninitialized. Answer with
INVALID_ARGUMENT instead.
---
 lib/diana/server_runner.cpp         | 50 ++++++++++++++++++++-----
 lib/sophos/sophos_server_runner.cpp | 57 +++++++++++++++++++++--------
 2 files changed, 81 insertions(+), 26 deletions(-)

diff --git a/lib/diana/server_runner.cpp b/lib/diana/server_runner.cpp
index 17ea109..4aa7163 100644
--- a/lib/diana/server_runner.cpp
+++ b/lib/diana/server_runner.cpp
@@ -34,6 +34,7 @@
 #include <atomic>
 #include <fstream>
 #include <list>
+#include <stdexcept>
 #include <thread>
 #include <utility>
 
@@ -196,10 +197,16 @@ grpc::Status DianaImpl::search(grpc::ServerContext*             context,
                                const SearchRequestMessage*      mes,
                                grpc::ServerWriter<SearchReply>* writer)
 {
-    if (async_search_) {
-        return async_search(context, mes, writer);
+    try {
+        if (async_search_) {
+            return async_search(context, mes, writer);
+        }
+        return sync_search(context, mes, writer);
+    } catch (std::exception& err) {
+        logger::logger()->error("Search request refused: "
+                                + std::string(err.what()));
+        return grpc::Status(grpc::INVALID_ARGUMENT, err.what());
     }
-    return sync_search(context, mes, writer);
 }
 
 grpc::Status DianaImpl::sync_search(__attribute__((unused))
@@ -315,7 +322,13 @@ grpc::Status DianaImpl::insert(__attribute__((unused))
 
     logger::logger()->trace("Updating ...");
 
-    server_->insert(message_to_request(mes));
+    try {
+        server_->insert(message_to_request(mes));
+    } catch (std::invalid_argument& err) {
+        logger::logger()->error("Update request refused: "
+                                + std::string(err.what()));
+        return grpc::Status(grpc::INVALID_ARGUMENT, err.what());
+    }
 
     logger::logger()->trace("Update done");
 
@@ -337,8 +350,14 @@ grpc::Status DianaImpl::bulk_insert(
 
     UpdateRequestMessage mes;
 
-    while (reader->Read(&mes)) {
-        server_->insert(message_to_request(&mes));
+    try {
+        while (reader->Read(&mes)) {
+            server_->insert(message_to_request(&mes));
+        }
+    } catch (std::invalid_argument& err) {
+        logger::logger()->error("Update request refused: "
+                                + std::string(err.what()));
+        return grpc::Status(grpc::INVALID_ARGUMENT, err.what());
     }
 
     logger::logger()->trace("Updating (bulk)... done");
@@ -371,6 +390,19 @@ void DianaImpl::flush_server_storage()
     }
 }
 
+// Copy a field of a message received from the network in a fixed-size array
+template<class Array>
+static void copy_field(const std::string& field, Array& array, const char* name)
+{
+    if (field.size() != array.size()) {
+        throw std::invalid_argument("Invalid " + std::string(name) + " size: "
+                                    + std::to_string(field.size())
+                                    + " bytes instead of "
+                                    + std::to_string(array.size()));
+    }
+    std::copy(field.begin(), field.end(), array.begin());
+}
+
 SearchRequest message_to_request(
     const std::unique_ptr<crypto::Wrapper>& wrapper,
     const SearchRequestMessage*             mes)
@@ -383,7 +415,7 @@ SearchRequest message_to_request(
         = wrapper->unwrap<constrained_rcprf_type>(rcprf_rep_buffer);
 
     keyword_token_type kw_token;
-    std::copy(mes->kw_token().begin(), mes->kw_token().end(), kw_token.begin());
+    copy_field(mes->kw_token(), kw_token, "keyword token");
 
     return SearchRequest(kw_token, std::move(rcprf), add_count);
 }
@@ -394,9 +426,7 @@ UpdateRequest<DianaImpl::index_type> message_to_request(
     UpdateRequest<DianaImpl::index_type> req;
 
     req.index = mes->index();
-    std::copy(mes->update_token().begin(),
-              mes->update_token().end(),
-              req.token.begin());
+    copy_field(mes->update_token(), req.token, "update token");
 
     return req;
 }
diff --git a/lib/sophos/sophos_server_runner.cpp b/lib/sophos/sophos_server_runner.cpp
index 0f44c48..727ba1d 100644
--- a/lib/sophos/sophos_server_runner.cpp
+++ b/lib/sophos/sophos_server_runner.cpp
@@ -31,6 +31,7 @@
 
 #include <atomic>
 #include <fstream>
+#include <stdexcept>
 #include <thread>
 
 
@@ -154,10 +155,16 @@ grpc::Status SophosImpl::search(grpc::ServerContext*                context,
                                 const sophos::SearchRequestMessage* mes,
                                 grpc::ServerWriter<sophos::SearchReply>* writer)
 {
-    if (async_search_) {
-        return async_search(context, mes, writer);
+    try {
+        if (async_search_) {
+            return async_search(context, mes, writer);
+        }
+        return sync_search(context, mes, writer);
+    } catch (std::invalid_argument& err) {
+        logger::logger()->error("Search request refused: "
+                                + std::string(err.what()));
+        return grpc::Status(grpc::INVALID_ARGUMENT, err.what());
     }
-    return sync_search(context, mes, writer);
 }
 
 grpc::Status SophosImpl::sync_search(
@@ -264,7 +271,13 @@ grpc::Status SophosImpl::insert(__attribute__((unused))
 
     logger::logger()->trace("Start updating");
 
-    server_->insert(message_to_request(mes));
+    try {
+        server_->insert(message_to_request(mes));
+    } catch (std::invalid_argument& err) {
+        logger::logger()->error("Update request refused: "
+                                + std::string(err.what()));
+        return grpc::Status(grpc::INVALID_ARGUMENT, err.what());
+    }
 
     logger::logger()->trace("Update completed");
     return grpc::Status::OK;
@@ -285,8 +298,14 @@ grpc::Status SophosImpl::bulk_insert(
 
     sophos::UpdateRequestMessage mes;
 
-    while (reader->Read(&mes)) {
-        server_->insert(message_to_request(&mes));
+    try {
+        while (reader->Read(&mes)) {
+            server_->insert(message_to_request(&mes));
+        }
+    } catch (std::invalid_argument& err) {
+        logger::logger()->error("Update request refused: "
+                                + std::string(err.what()));
+        return grpc::Status(grpc::INVALID_ARGUMENT, err.what());
     }
 
     logger::logger()->trace("Updating (bulk)... done");
@@ -305,19 +324,27 @@ void SophosImpl::set_search_asynchronously(bool flag)
     async_search_ = flag;
 }
 
+// Copy a field of a message received from the network in a fixed-size array
+template<class Array>
+static void copy_field(const std::string& field, Array& array, const char* name)
+{
+    if (field.size() != array.size()) {
+        throw std::invalid_argument("Invalid " + std::string(name) + " size: "
+                                    + std::to_string(field.size())
+                                    + " bytes instead of "
+                                    + std::to_string(array.size()));
+    }
+    std::copy(field.begin(), field.end(), array.begin());
+}
+
 SearchRequest message_to_request(const SearchRequestMessage* mes)
 {
     SearchRequest req;
 
     req.add_count = mes->add_count();
 
-    assert(mes->derivation_key().size() == kDerivationKeySize);
-    std::copy(mes->derivation_key().begin(),
-              mes->derivation_key().begin() + kDerivationKeySize,
-              req.derivation_key.begin());
-    std::copy(mes->search_token().begin(),
-              mes->search_token().end(),
-              req.token.begin());
+    copy_field(mes->derivation_key(), req.derivation_key, "derivation key");
+    copy_field(mes->search_token(), req.token, "search token");
 
     return req;
 }
@@ -327,9 +354,7 @@ UpdateRequest message_to_request(const UpdateRequestMessage* mes)
     UpdateRequest req;
 
     req.index = mes->index();
-    std::copy(mes->update_token().begin(),
-              mes->update_token().end(),
-              req.token.begin());
+    copy_field(mes->update_token(), req.token, "update token");
 
     return req;
 }
-- 
2.43.0


From 61f7ae554c2cc36a518abc47b79244b4028d89b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:19 +0000
Subject: [PATCH 31/37] fix: Tethys lists of values wider than a length, or
 with keys of another size

---
 .../tethys/encoders/encode_separate.hpp       | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp b/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
index 20f72b6..c4840bf 100644
--- a/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
+++ b/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
@@ -112,7 +112,7 @@ struct EncodeSeparateEncoder
         // fill with dummy bytes if needed
         if (offset < kListLengthEntriesNumber * sizeof(T)) {
             std::fill(buffer + offset,
-                      buffer + kAdditionalKeyEntriesPerList * sizeof(T),
+                      buffer + kListLengthEntriesNumber * sizeof(T),
                       0x11);
             offset = kListLengthEntriesNumber * sizeof(T); // offset = 8
         }
@@ -127,8 +127,12 @@ struct EncodeSeparateEncoder
         // fill with dummy bytes if needed
         if (offset < (kAdditionalKeyEntriesPerList + kListLengthEntriesNumber)
                          * sizeof(T)) {
-            std::fill(
-                buffer + offset, buffer + kListControlValues * sizeof(T), 0x22);
+            std::fill(buffer + offset,
+                      buffer
+                          + (kAdditionalKeyEntriesPerList
+                             + kListLengthEntriesNumber)
+                                * sizeof(T),
+                      0x22);
             offset = (kAdditionalKeyEntriesPerList + kListLengthEntriesNumber)
                      * sizeof(T); // offset = 24
         }
@@ -289,9 +293,10 @@ struct EncodeSeparateDecoder
         uint64_t list_length;
 
         while (offset + sizeof(list_length) <= bucket.size()) {
+            const size_t list_offset = offset;
+
             // read the length of the list
             memcpy(&list_length, bucket.data() + offset, sizeof(list_length));
-            offset += sizeof(list_length);
 
             if (list_length == 0) {
                 // we are at the end of the bucket
@@ -299,8 +304,13 @@ struct EncodeSeparateDecoder
             }
 
             // read the key of the current list
+            offset = list_offset + kListLengthEntriesNumber * sizeof(T);
             memcpy(&list_key, bucket.data() + offset, sizeof(list_key));
-            offset += sizeof(list_key);
+
+            // the values start after the padding of the length and of the key
+            offset = list_offset
+                     + (kAdditionalKeyEntriesPerList + kListLengthEntriesNumber)
+                           * sizeof(T);
 
             if (list_key == key) {
                 // match on the key
-- 
2.43.0


From 1c9b7abc85300e070f1715fe2e89cdf842832dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:15 +0000
Subject: [PATCH 32/37] fix: the two bucket reads of an asynchronous lookup can
 complete at the same time

---
 lib/include/sse/schemes/tethys/tethys_store.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/include/sse/schemes/tethys/tethys_store.hpp b/lib/include/sse/schemes/tethys/tethys_store.hpp
index 7858920..0149837 100644
--- a/lib/include/sse/schemes/tethys/tethys_store.hpp
+++ b/lib/include/sse/schemes/tethys/tethys_store.hpp
@@ -334,16 +334,19 @@ void TethysStore<PAGE_SIZE, Key, T, TethysHasher, ValueDecoder>::
 {
     auto bucket_cb = [this, callback, state](
                          std::unique_ptr<payload_type> bucket, size_t index) {
-        uint8_t completed = state->completion_counter.fetch_add(1) + 1;
-
-        if (completed == 1) {
+        // the two reads can complete at the same time, in different threads:
+        // store the bucket before declaring its completion
+        if (state->arrival_counter.fetch_add(1) == 0) {
             state->index_0  = index;
             state->bucket_0 = std::move(bucket);
-        } else if (completed == 2) {
+        } else {
             state->index_1  = index;
             state->bucket_1 = std::move(bucket);
+        }
 
+        uint8_t completed = state->completion_counter.fetch_add(1) + 1;
 
+        if (completed == 2) {
             std::vector<T> stash_res;
 
             auto stash_it = stash.find(state->key);
@@ -388,6 +391,7 @@ void TethysStore<PAGE_SIZE, Key, T, TethysHasher, ValueDecoder>::async_get_list(
         std::unique_ptr<payload_type> bucket_1;
         size_t                        index_0{SIZE_MAX};
         size_t                        index_1{SIZE_MAX};
+        std::atomic<uint8_t>          arrival_counter{0};
         std::atomic<uint8_t>          completion_counter{0};
         ValueDecoder                  decoder;
 
@@ -421,6 +425,7 @@ void TethysStore<PAGE_SIZE, Key, T, TethysHasher, ValueDecoder>::async_get_list(
         std::unique_ptr<payload_type> bucket_1;
         size_t                        index_0{SIZE_MAX};
         size_t                        index_1{SIZE_MAX};
+        std::atomic<uint8_t>          arrival_counter{0};
         std::atomic<uint8_t>          completion_counter{0};
         ValueDecoder*                 decoder;
 
-- 
2.43.0


From e88b55a3a324a920be5322a4aef0e62ea1908466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:39 +0000
Subject: [PATCH 33/37] fix: the random groups of the database generator after
 the 65536th are never used

---
 lib/utils/db_generator.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/utils/db_generator.cpp b/lib/utils/db_generator.cpp
index ea098c8..c969ce3 100644
--- a/lib/utils/db_generator.cpp
+++ b/lib/utils/db_generator.cpp
@@ -274,7 +274,7 @@ static void generation_job(
 
             // cppcheck-suppress knownConditionTrueFalse
             if (use_rnd_group_2 && w_d < r_threshold_2) {
-                uint16_t g = ind % n_groups_2;
+                uint64_t g = ind % n_groups_2;
                 if (group_rand_10_2[g] < size_group_2) {
                     group_rand_10_2[g]++;
                     kw = kKeywordRand10GroupBase;
@@ -297,7 +297,7 @@ static void generation_job(
 
             // cppcheck-suppress knownConditionTrueFalse
             if (use_rnd_group_3 && w_d < r_threshold_3) {
-                uint16_t g = ind % n_groups_3;
+                uint64_t g = ind % n_groups_3;
                 if (group_rand_10_3[g] < size_group_3) {
                     group_rand_10_3[g]++;
                     kw = kKeywordRand10GroupBase;
@@ -319,7 +319,7 @@ static void generation_job(
             }
             // cppcheck-suppress knownConditionTrueFalse
             if (use_rnd_group_4 && w_d < r_threshold_4) {
-                uint16_t g = ind % n_groups_4;
+                uint64_t g = ind % n_groups_4;
                 if (group_rand_10_4[g] < size_group_4) {
                     group_rand_10_4[g]++;
                     kw = kKeywordRand10GroupBase;
@@ -342,7 +342,7 @@ static void generation_job(
 
             // cppcheck-suppress knownConditionTrueFalse
             if (use_rnd_group_5 && w_d < r_threshold_5) {
-                uint16_t g = ind % n_groups_5;
+                uint64_t g = ind % n_groups_5;
                 if (group_rand_10_5[g] < size_group_5) {
                     group_rand_10_5[g]++;
                     kw = kKeywordRand10GroupBase;
@@ -366,7 +366,7 @@ static void generation_job(
 
             // cppcheck-suppress knownConditionTrueFalse
             if (use_rnd_group_6 && w_d < r_threshold_6) {
-                uint16_t g = ind % n_groups_6;
+                uint64_t g = ind % n_groups_6;
                 if (group_rand_10_6[g] < size_group_6) {
                     group_rand_10_6[g]++;
                     kw = kKeywordRand10GroupBase;
-- 
2.43.0


From f9961115843397a1c21c3c0cd7047ce78eaed5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:35 +0000
Subject: [PATCH 34/37] fix: the null logger can be selected only once

---
 lib/utils/logger.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/utils/logger.cpp b/lib/utils/logger.cpp
index 69813c8..9a9c56d 100644
--- a/lib/utils/logger.cpp
+++ b/lib/utils/logger.cpp
@@ -48,8 +48,9 @@ void set_logger(const std::shared_ptr<spdlog::logger>& logger)
     if (logger) {
         shared_logger_ = logger;
     } else {
-        shared_logger_
-            = spdlog::create<spdlog::sinks::null_sink_mt>("null_logger");
+        // the logger is not registered: its name can be used several times
+        shared_logger_ = std::make_shared<spdlog::logger>(
+            "null_logger", std::make_shared<spdlog::sinks::null_sink_mt>());
     }
 }
 
-- 
2.43.0


From 83df0c858b97d0c091809744ae12a07557fabd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:35 +0000
Subject: [PATCH 35/37] fix: the benchmark file can be set only once

---
 lib/utils/logger.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/utils/logger.cpp b/lib/utils/logger.cpp
index 9a9c56d..f8143bf 100644
--- a/lib/utils/logger.cpp
+++ b/lib/utils/logger.cpp
@@ -64,6 +64,9 @@ std::shared_ptr<spdlog::logger> Benchmark::benchmark_logger_(nullptr);
 
 void Benchmark::set_benchmark_file(const std::string& path)
 {
+    // a previous benchmark file is closed
+    spdlog::drop("benchmark");
+
     benchmark_logger_
         = spdlog::basic_logger_mt<spdlog::async_factory>("benchmark", path);
     benchmark_logger_->set_level(spdlog::level::trace);
-- 
2.43.0


From ab19f4a05f612e1297bfda8cd32abe8527bf3c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:35 +0000
Subject: [PATCH 36/37] fix: a stopped benchmark must not measure the time
 until its destruction

---
 lib/utils/logger.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/utils/logger.cpp b/lib/utils/logger.cpp
index f8143bf..3f39ee5 100644
--- a/lib/utils/logger.cpp
+++ b/lib/utils/logger.cpp
@@ -84,15 +84,17 @@ Benchmark::Benchmark(std::string format)
 void Benchmark::stop()
 {
     if (!stopped_) {
-        end_ = std::chrono::high_resolution_clock::now();
+        end_     = std::chrono::high_resolution_clock::now();
+        stopped_ = true;
     }
 }
 
 void Benchmark::stop(size_t count)
 {
     if (!stopped_) {
-        end_   = std::chrono::high_resolution_clock::now();
-        count_ = count;
+        end_     = std::chrono::high_resolution_clock::now();
+        count_   = count;
+        stopped_ = true;
     }
 }
 
-- 
2.43.0


From 79cabc98808581f86ef93474b39587f9b7e6e305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:31 +0000
Subject: [PATCH 37/37] fix: several threads cannot use the default logger for
 the first time at once

---
 lib/utils/logger.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/utils/logger.cpp b/lib/utils/logger.cpp
index 3f39ee5..70ef851 100644
--- a/lib/utils/logger.cpp
+++ b/lib/utils/logger.cpp
@@ -28,14 +28,18 @@
 #include <fstream>
 #include <iostream>
 #include <memory>
+#include <mutex>
 
 namespace sse {
 namespace logger {
 
 std::shared_ptr<spdlog::logger> shared_logger_(nullptr);
+// the logger can be used for the first time by several threads at once
+std::mutex shared_logger_mtx_;
 
 std::shared_ptr<spdlog::logger> logger()
 {
+    const std::lock_guard<std::mutex> lock(shared_logger_mtx_);
     if (!shared_logger_) {
         // initialize the logger
         shared_logger_ = spdlog::stderr_color_mt("console");
@@ -45,6 +49,7 @@ std::shared_ptr<spdlog::logger> logger()
 
 void set_logger(const std::shared_ptr<spdlog::logger>& logger)
 {
+    const std::lock_guard<std::mutex> lock(shared_logger_mtx_);
     if (logger) {
         shared_logger_ = logger;
     } else {
-- 
2.43.0

