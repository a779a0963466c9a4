From 05261ee5766a9780ee01406c70ba5ccbab64a34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:08 +0000
Subject: [PATCH 01/15] fix: wake up blocked readers when a waiting writer
 times out (alternate/checked shared_timed_mutex, WriterPrefer)

---
 include/alternate_shared_mutex.hpp | 2 ++
 include/checked_shared_mutex.hpp   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/alternate_shared_mutex.hpp b/include/alternate_shared_mutex.hpp
index 64b79e4..faeb5c6 100644
--- a/include/alternate_shared_mutex.hpp
+++ b/include/alternate_shared_mutex.hpp
@@ -152,6 +152,8 @@ class basic_shared_timed_mutex : private detail::shared_mutex_base<RwLockPolicy>
         if (!RwLockPolicy::wait_wlock(state_))  // re-check predicate
           break;
         RwLockPolicy::after_wait_wlock(state_);
+        if (!RwLockPolicy::wait_rlock(state_))
+          cv_.notify_all();  // wake up readers blocked by this request
         return false;
       }
     }
diff --git a/include/checked_shared_mutex.hpp b/include/checked_shared_mutex.hpp
index 4362520..50ee548 100644
--- a/include/checked_shared_mutex.hpp
+++ b/include/checked_shared_mutex.hpp
@@ -301,6 +301,8 @@ class basic_shared_timed_mutex : private detail::shared_mutex_base<RwLockPolicy>
         if (!RwLockPolicy::wait_wlock(state_))  // re-check predicate
           break;
         RwLockPolicy::after_wait_wlock(state_);
+        if (!RwLockPolicy::wait_rlock(state_))
+          cv_.notify_all();  // wake up readers blocked by this request
         return false;
       }
     }
-- 
2.43.0


From 38e07d7af3d35744b5587311f8a8f97a44625966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:13 +0000
Subject: [PATCH 02/15] fix: posix::counting_semaphore: acquire operations
 survive EINTR

---
 include/posix_semaphore.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/posix_semaphore.hpp b/include/posix_semaphore.hpp
index 4775445..a094df3 100644
--- a/include/posix_semaphore.hpp
+++ b/include/posix_semaphore.hpp
@@ -89,12 +89,14 @@ class counting_semaphore {
     abs_timeout.tv_nsec = (long)(duration_cast<nanoseconds>(tp.time_since_epoch()).count() % 1000000000);
 
     errno = 0;
-    if (::sem_timedwait(&sem_, &abs_timeout) == 0) {
-      return true;
-    } else if (errno != ETIMEDOUT) {
-      throw_errno("sem_timedwait");
+    while (::sem_timedwait(&sem_, &abs_timeout) != 0) {
+      if (errno == ETIMEDOUT) {
+        return false;
+      } else if (errno != EINTR) {  // retry if interrupted by a signal handler
+        throw_errno("sem_timedwait");
+      }
     }
-    return false;
+    return true;
   }
 
 public:
@@ -133,8 +135,10 @@ public:
   void acquire()
   {
     errno = 0;
-    if (::sem_wait(&sem_) != 0) {
-      throw_errno("sem_wait");
+    while (::sem_wait(&sem_) != 0) {
+      if (errno != EINTR) {  // retry if interrupted by a signal handler
+        throw_errno("sem_wait");
+      }
     }
   }
 
-- 
2.43.0


From 57fae31915c45ba1e3ff694946ce54232ab35538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:08 +0000
Subject: [PATCH 03/15] fix: posix rwlock and semaphore accept time points
 before the epoch (already expired)

---
 include/posix_native_mutex.hpp | 8 ++++++++
 include/posix_semaphore.hpp    | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/include/posix_native_mutex.hpp b/include/posix_native_mutex.hpp
index 83314d7..c43541f 100644
--- a/include/posix_native_mutex.hpp
+++ b/include/posix_native_mutex.hpp
@@ -233,6 +233,10 @@ class rwlock {
   bool do_try_lockwait(const std::chrono::system_clock::time_point& tp)
   {
     using namespace std::chrono;
+    if (tp.time_since_epoch() < system_clock::duration::zero()) {
+      // already expired, and struct timespec can't represent it
+      return try_lock();
+    }
     struct ::timespec abs_timeout;
     abs_timeout.tv_sec = system_clock::to_time_t(tp);
     abs_timeout.tv_nsec = (long)(duration_cast<nanoseconds>(tp.time_since_epoch()).count() % 1000000000);
@@ -242,6 +246,10 @@ class rwlock {
   bool do_try_lock_sharedwait(const std::chrono::system_clock::time_point& tp)
   {
     using namespace std::chrono;
+    if (tp.time_since_epoch() < system_clock::duration::zero()) {
+      // already expired, and struct timespec can't represent it
+      return try_lock_shared();
+    }
     struct ::timespec abs_timeout;
     abs_timeout.tv_sec = system_clock::to_time_t(tp);
     abs_timeout.tv_nsec = (long)(duration_cast<nanoseconds>(tp.time_since_epoch()).count() % 1000000000);
diff --git a/include/posix_semaphore.hpp b/include/posix_semaphore.hpp
index a094df3..9d53faa 100644
--- a/include/posix_semaphore.hpp
+++ b/include/posix_semaphore.hpp
@@ -83,6 +83,10 @@ class counting_semaphore {
   bool do_try_acquirewait(const std::chrono::system_clock::time_point& tp)
   {
     using namespace std::chrono;
+    if (tp.time_since_epoch() < system_clock::duration::zero()) {
+      // already expired, and struct timespec can't represent it
+      return try_acquire();
+    }
     // convert C++ system_clock to POSIX struct timespec
     struct ::timespec abs_timeout;
     abs_timeout.tv_sec = system_clock::to_time_t(tp);
-- 
2.43.0


From d131082fd008897ba7cc66a08d3baa8507979322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:13 +0000
Subject: [PATCH 04/15] fix: posix::counting_semaphore::try_acquire_until
 doesn't fail before the deadline on Clock

---
 include/posix_semaphore.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/posix_semaphore.hpp b/include/posix_semaphore.hpp
index 9d53faa..2f7bb1c 100644
--- a/include/posix_semaphore.hpp
+++ b/include/posix_semaphore.hpp
@@ -163,7 +163,13 @@ public:
   template<class Clock, class Duration>
   bool try_acquire_until(const std::chrono::time_point<Clock, Duration>& abs_time)
   {
-    return do_try_acquirewait(detail::to_system_timepoint(abs_time));
+    while (!do_try_acquirewait(detail::to_system_timepoint(abs_time))) {
+      // Clock may advance at a different rate than system_clock
+      if (abs_time <= Clock::now()) {
+        return try_acquire();
+      }
+    }
+    return true;
   }
 };
 
-- 
2.43.0


From 55ce05c7bec15197a5e72f6d78628a721a3f37d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:24 +0000
Subject: [PATCH 05/15] fix: barrier::arrive_and_drop decrements the expected
 count of later phases even if not the last to arrive

---
 include/yamc_barrier.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/yamc_barrier.hpp b/include/yamc_barrier.hpp
index 135d717..aa2e15b 100644
--- a/include/yamc_barrier.hpp
+++ b/include/yamc_barrier.hpp
@@ -66,12 +66,9 @@ class barrier {
   mutable std::condition_variable cv_;
   mutable std::mutex mtx_;
 
-  void phase_completion_step(bool drop)
+  void phase_completion_step()
   {
     completion_();
-    if (drop) {
-      --init_count_;
-    }
     counter_ = init_count_;
     ++phase_;
     cv_.notify_all();
@@ -108,7 +105,7 @@ public:
     arrival_token token{phase_};
     counter_ -= update;
     if (counter_ == 0) {
-      phase_completion_step(false);
+      phase_completion_step();
     }
     return token;
   }
@@ -129,7 +126,7 @@ public:
     auto arrival_phase = phase_;
     counter_ -= 1;
     if (counter_ == 0) {
-      phase_completion_step(false);
+      phase_completion_step();
     }
     while (phase_ <= arrival_phase) {
       cv_.wait(lk);
@@ -141,9 +138,10 @@ public:
     std::unique_lock<decltype(mtx_)> lk(mtx_);
     assert(0 < counter_);
     auto arrival_phase = phase_;
+    init_count_ -= 1;  // drops out of all subsequent phases
     counter_ -= 1;
     if (counter_ == 0) {
-      phase_completion_step(true);
+      phase_completion_step();
     }
     while (phase_ <= arrival_phase) {
       cv_.wait(lk);
-- 
2.43.0


From 52047ee992bf30ff0b2989979f5a9235186b207a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:24 +0000
Subject: [PATCH 06/15] fix: barrier phase counter wrap-around

---
 include/yamc_barrier.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/yamc_barrier.hpp b/include/yamc_barrier.hpp
index aa2e15b..c2819f7 100644
--- a/include/yamc_barrier.hpp
+++ b/include/yamc_barrier.hpp
@@ -113,7 +113,7 @@ public:
   void wait(arrival_token&& arrival) const
   {
     std::unique_lock<decltype(mtx_)> lk(mtx_);
-    while (phase_ <= arrival.phase_) {
+    while (phase_ == arrival.phase_) {
       cv_.wait(lk);
     }
   }
@@ -128,7 +128,7 @@ public:
     if (counter_ == 0) {
       phase_completion_step();
     }
-    while (phase_ <= arrival_phase) {
+    while (phase_ == arrival_phase) {
       cv_.wait(lk);
     }
   }
@@ -143,7 +143,7 @@ public:
     if (counter_ == 0) {
       phase_completion_step();
     }
-    while (phase_ <= arrival_phase) {
+    while (phase_ == arrival_phase) {
       cv_.wait(lk);
     }
   }
-- 
2.43.0


From 66eb5b963fe043df2c7084fb8d79ca15aac625a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:04 +0000
Subject: [PATCH 07/15] fix: deadlock validator: a refused request leaves no
 stale waiter behind

---
 include/yamc_lock_validator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/yamc_lock_validator.hpp b/include/yamc_lock_validator.hpp
index 008d74e..287641e 100644
--- a/include/yamc_lock_validator.hpp
+++ b/include/yamc_lock_validator.hpp
@@ -162,6 +162,8 @@ public:
         << " " << (shared ? "shared-lock" : "lock") << '\n';
       dump_mutexmap(std::cout, table.mutexmap);
       std::cout << "==== DEADLOCK DETECTED ====" << std::endl;
+      // the request is refused, this thread doesn't wait for the mutex
+      remove_elem(table.mutexmap[mkey].waiters, tid);
       return false;
     }
 #if YAMC_CHECK_VERBOSE
-- 
2.43.0


From b4a2f3fade891b88e2b285849594eb7171636be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:04 +0000
Subject: [PATCH 08/15] fix: checked shared mutex: withdraw the writer's
 request when lock() reports a deadlock (WriterPrefer)

---
 include/checked_shared_mutex.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/checked_shared_mutex.hpp b/include/checked_shared_mutex.hpp
index 50ee548..476a14c 100644
--- a/include/checked_shared_mutex.hpp
+++ b/include/checked_shared_mutex.hpp
@@ -117,6 +117,9 @@ protected:
 #if YAMC_CHECKED_CALL_ABORT
         std::abort();
 #else
+        RwLockPolicy::after_wait_wlock(state_);
+        if (!RwLockPolicy::wait_rlock(state_))
+          cv_.notify_all();  // wake up readers blocked by this request
         throw std::system_error(std::make_error_code(std::errc::resource_deadlock_would_occur), "deadlock");
 #endif
       }
-- 
2.43.0


From 8076cb1dbed03d09f9b7f6da6dc2cd2380207084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:28 +0000
Subject: [PATCH 09/15] fix: checked shared mutex: no false deadlock report
 from threads that have been notified already

---
 include/checked_shared_mutex.hpp | 15 +++++++++++----
 include/yamc_lock_validator.hpp  |  7 +++++++
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/checked_shared_mutex.hpp b/include/checked_shared_mutex.hpp
index 476a14c..ddc63be 100644
--- a/include/checked_shared_mutex.hpp
+++ b/include/checked_shared_mutex.hpp
@@ -84,6 +84,13 @@ protected:
     return std::find(s_owner_.begin(), s_owner_.end(), tid) != s_owner_.end();
   }
 
+  void notify_waiters()
+  {
+    // a notified thread doesn't wait until it has re-checked its condition
+    validator::notified(reinterpret_cast<uintptr_t>(this));
+    cv_.notify_all();
+  }
+
   void dtor_precondition(const char* emsg)
   {
     std::lock_guard<decltype(mtx_)> lk(mtx_);
@@ -119,7 +126,7 @@ protected:
 #else
         RwLockPolicy::after_wait_wlock(state_);
         if (!RwLockPolicy::wait_rlock(state_))
-          cv_.notify_all();  // wake up readers blocked by this request
+          notify_waiters();  // wake up readers blocked by this request
         throw std::system_error(std::make_error_code(std::errc::resource_deadlock_would_occur), "deadlock");
 #endif
       }
@@ -167,7 +174,7 @@ protected:
     e_owner_ = {};
     RwLockPolicy::release_wlock(state_);
     validator::unlocked(reinterpret_cast<uintptr_t>(this), tid, false);
-    cv_.notify_all();
+    notify_waiters();
   }
 
   void lock_shared()
@@ -232,7 +239,7 @@ protected:
 #endif
     }
     if (RwLockPolicy::release_rlock(state_)) {
-      cv_.notify_all();
+      notify_waiters();
     }
     auto result = std::remove(s_owner_.begin(), s_owner_.end(), tid);
     s_owner_.erase(result, s_owner_.end());
@@ -305,7 +312,7 @@ class basic_shared_timed_mutex : private detail::shared_mutex_base<RwLockPolicy>
           break;
         RwLockPolicy::after_wait_wlock(state_);
         if (!RwLockPolicy::wait_rlock(state_))
-          cv_.notify_all();  // wake up readers blocked by this request
+          base::notify_waiters();  // wake up readers blocked by this request
         return false;
       }
     }
diff --git a/include/yamc_lock_validator.hpp b/include/yamc_lock_validator.hpp
index 287641e..fbab780 100644
--- a/include/yamc_lock_validator.hpp
+++ b/include/yamc_lock_validator.hpp
@@ -179,6 +179,12 @@ public:
     auto&& table = global_table();
     remove_elem(table.mutexmap[mkey].waiters, tid);
   }
+
+  static void notified(uintptr_t mkey)
+  {
+    auto&& table = global_table();
+    table.mutexmap[mkey].waiters.clear();
+  }
 };
 
 
@@ -190,6 +196,7 @@ public:
   static void unlocked(uintptr_t, std::thread::id, bool) {}
   static bool enqueue(uintptr_t, std::thread::id, bool) { return true; }
   static void dequeue(uintptr_t, std::thread::id) {}
+  static void notified(uintptr_t) {}
 };
 
 
-- 
2.43.0


From b0a6a99f7d4f2a0e46d2984a9e9eb3541e93df0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:11 +0000
Subject: [PATCH 10/15] fix: shared_lock::unlock() without a mutex throws EPERM
 instead of asserting

---
 include/yamc_shared_lock.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yamc_shared_lock.hpp b/include/yamc_shared_lock.hpp
index 229fd15..77a738e 100644
--- a/include/yamc_shared_lock.hpp
+++ b/include/yamc_shared_lock.hpp
@@ -159,10 +159,10 @@ public:
 
   void unlock()
   {
-    assert(pm_ != nullptr);
     if (!owns_) {
       throw std::system_error(std::make_error_code(std::errc::operation_not_permitted), "shared_lock::unlock");
     }
+    assert(pm_ != nullptr);
     pm_->unlock_shared();
     owns_ = false;
   }
-- 
2.43.0


From 00cdf01842f9a40ec9f9e8110003c2d533db3186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:35 +0000
Subject: [PATCH 11/15] fix: win::native_mutex/counting_semaphore: timed
 operations wait until the deadline on Clock

WaitForSingleObject takes a 32 bit timeout: negative intervals were converted
into huge ones and intervals longer than 49.7 days were truncated. The object
was not polled again after an early timeout, and try_*_until() failed before
the deadline when Clock runs slower than the system or has been adjusted.
---
 include/win_native_mutex.hpp | 48 ++++++++++++++++++++++++------------
 include/win_semaphore.hpp    | 48 ++++++++++++++++++++++++------------
 2 files changed, 64 insertions(+), 32 deletions(-)

diff --git a/include/win_native_mutex.hpp b/include/win_native_mutex.hpp
index 85d8990..dce6476 100644
--- a/include/win_native_mutex.hpp
+++ b/include/win_native_mutex.hpp
@@ -63,29 +63,45 @@ namespace win {
 class native_mutex {
   ::HANDLE hmtx_ = NULL;
 
-  template<class Rep, class Period>
-  bool do_try_lockwait(const std::chrono::duration<Rep, Period>& timeout)
+  template<class Clock, class Duration>
+  bool do_try_lockwait(const std::chrono::time_point<Clock, Duration>& abs_time)
   {
     using namespace std::chrono;
-    // round up timeout to milliseconds precision
-    DWORD timeout_in_msec = static_cast<DWORD>(duration_cast<milliseconds>(timeout + nanoseconds{999999}).count());
-    DWORD result = ::WaitForSingleObject(hmtx_, timeout_in_msec);
+    const milliseconds max_timeout{INFINITE - 1};
+    for (;;) {
+      const auto now = Clock::now();
+      const bool expired = (abs_time <= now);
+      DWORD timeout_in_msec = 0;
+      if (!expired) {
+        // round up timeout to milliseconds precision
+        const auto timeout = abs_time - now;
+        timeout_in_msec = static_cast<DWORD>(timeout < max_timeout
+          ? duration_cast<milliseconds>(timeout + nanoseconds{999999}).count() : max_timeout.count());
+      }
+      DWORD result = ::WaitForSingleObject(hmtx_, timeout_in_msec);
+      if (result == WAIT_OBJECT_0) {
+        return true;
+      }
+      if (result != WAIT_TIMEOUT) {
+        // [thread.mutex.requirements.mutex]
+        // resource_unavailable_try_again - if any native handle type manipulated is not available.
+        throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again), "WaitForSingleObject");
+      }
 #if YAMC_WIN_ACCURATE_TIMEOUT
-    if (result == WAIT_TIMEOUT && 0 < timeout_in_msec) {
       // Win32 wait functions will return early than specified timeout interval by design.
       // (https://docs.microsoft.com/windows/win32/sync/wait-functions for more details)
       //
-      // The current thread sleep one more "tick" to guarantee timing specification in C++ Standard,
+      // The current thread waits again until the deadline to guarantee timing specification in C++ Standard,
       // that actual timeout interval shall be longer than requested timeout of try_lock_*().
-      ::Sleep(1);
-    }
+      if (expired) {
+        return false;
+      }
+#else
+      if (timeout_in_msec < INFINITE - 1) {
+        return false;
+      }
 #endif
-    if (result != WAIT_OBJECT_0 && result != WAIT_TIMEOUT) {
-      // [thread.mutex.requirements.mutex]
-      // resource_unavailable_try_again - if any native handle type manipulated is not available.
-      throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again), "WaitForSingleObject");
     }
-    return (result == WAIT_OBJECT_0);
   }
 
 public:
@@ -125,13 +141,13 @@ public:
   template<class Rep, class Period>
   bool try_lock_for(const std::chrono::duration<Rep, Period>& rel_time)
   {
-    return do_try_lockwait(rel_time);
+    return do_try_lockwait(std::chrono::steady_clock::now() + rel_time);
   }
 
   template<class Clock, class Duration>
   bool try_lock_until(const std::chrono::time_point<Clock, Duration>& abs_time)
   {
-    return do_try_lockwait(abs_time - Clock::now());
+    return do_try_lockwait(abs_time);
   }
 
   void unlock()
diff --git a/include/win_semaphore.hpp b/include/win_semaphore.hpp
index c70550b..60df053 100644
--- a/include/win_semaphore.hpp
+++ b/include/win_semaphore.hpp
@@ -66,29 +66,45 @@ class counting_semaphore {
     }
   }
 
-  template<class Rep, class Period>
-  bool do_try_acquirewait(const std::chrono::duration<Rep, Period>& timeout)
+  template<class Clock, class Duration>
+  bool do_try_acquirewait(const std::chrono::time_point<Clock, Duration>& abs_time)
   {
     using namespace std::chrono;
-    // round up timeout to milliseconds precision
-    DWORD timeout_in_msec = static_cast<DWORD>(duration_cast<milliseconds>(timeout + nanoseconds{999999}).count());
-    DWORD result = ::WaitForSingleObject(hsem_, timeout_in_msec);
+    const milliseconds max_timeout{INFINITE - 1};
+    for (;;) {
+      const auto now = Clock::now();
+      const bool expired = (abs_time <= now);
+      DWORD timeout_in_msec = 0;
+      if (!expired) {
+        // round up timeout to milliseconds precision
+        const auto timeout = abs_time - now;
+        timeout_in_msec = static_cast<DWORD>(timeout < max_timeout
+          ? duration_cast<milliseconds>(timeout + nanoseconds{999999}).count() : max_timeout.count());
+      }
+      DWORD result = ::WaitForSingleObject(hsem_, timeout_in_msec);
+      if (result == WAIT_OBJECT_0) {
+        return true;
+      }
+      if (result != WAIT_TIMEOUT) {
+        // [thread.mutex.requirements.mutex]
+        // resource_unavailable_try_again - if any native handle type manipulated is not available.
+        throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again), "WaitForSingleObject");
+      }
 #if YAMC_WIN_ACCURATE_TIMEOUT
-    if (result == WAIT_TIMEOUT && 0 < timeout_in_msec) {
       // Win32 wait functions will return early than specified timeout interval by design.
       // (https://docs.microsoft.com/windows/win32/sync/wait-functions for more details)
       //
-      // The current thread sleep one more "tick" to guarantee timing specification in C++ Standard,
+      // The current thread waits again until the deadline to guarantee timing specification in C++ Standard,
       // that actual timeout interval shall be longer than requested timeout of try_acquire_*().
-      ::Sleep(1);
-    }
+      if (expired) {
+        return false;
+      }
+#else
+      if (timeout_in_msec < INFINITE - 1) {
+        return false;
+      }
 #endif
-    if (result != WAIT_OBJECT_0 && result != WAIT_TIMEOUT) {
-      // [thread.mutex.requirements.mutex]
-      // resource_unavailable_try_again - if any native handle type manipulated is not available.
-      throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again), "WaitForSingleObject");
     }
-    return (result == WAIT_OBJECT_0);
   }
 
 public:
@@ -149,14 +165,14 @@ public:
   bool try_acquire_for(const std::chrono::duration<Rep, Period>& rel_time)
   {
     validate_native_handle("counting_semaphore::try_acquire_for");
-    return do_try_acquirewait(rel_time);
+    return do_try_acquirewait(std::chrono::steady_clock::now() + rel_time);
   }
 
   template<class Clock, class Duration>
   bool try_acquire_until(const std::chrono::time_point<Clock, Duration>& abs_time)
   {
     validate_native_handle("counting_semaphore::try_acquire_until");
-    return do_try_acquirewait(abs_time - Clock::now());
+    return do_try_acquirewait(abs_time);
   }
 };
 
-- 
2.43.0


From 0adb189452d23fd786d0a3af220459880455afa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:35 +0000
Subject: [PATCH 12/15] fix: win::native_mutex::native_handle() returns the
 handle, not its address

---
 include/win_native_mutex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/win_native_mutex.hpp b/include/win_native_mutex.hpp
index dce6476..0fbb1ff 100644
--- a/include/win_native_mutex.hpp
+++ b/include/win_native_mutex.hpp
@@ -158,7 +158,7 @@ public:
   using native_handle_type = ::HANDLE;
   native_handle_type native_handle()
   {
-    return &hmtx_;
+    return hmtx_;
   }
 };
 
-- 
2.43.0


From e64cbb8b60773d2d1ba5c622786a2bf33ce0b621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:35 +0000
Subject: [PATCH 13/15] fix: win::counting_semaphore::release(0) throws

---
 include/win_semaphore.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/win_semaphore.hpp b/include/win_semaphore.hpp
index 60df053..a4be9be 100644
--- a/include/win_semaphore.hpp
+++ b/include/win_semaphore.hpp
@@ -137,6 +137,9 @@ public:
   void release(std::ptrdiff_t update = 1)
   {
     validate_native_handle("counting_semaphore::release");
+    if (update == 0) {
+      return;  // ReleaseSemaphore() doesn't accept zero
+    }
     BOOL result = ::ReleaseSemaphore(hsem_, (LONG)update, NULL);
     if (!result) {
       // [thread.mutex.requirements.mutex]
-- 
2.43.0


From ddf3c67b6a6d387f9f265aeb31677f1ee42e075e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:58 +0000
Subject: [PATCH 14/15] fix: gcd::counting_semaphore::try_acquire_until doesn't
 fail before the deadline on Clock

A time point at the epoch made it wait forever.
---
 include/gcd_semaphore.hpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/gcd_semaphore.hpp b/include/gcd_semaphore.hpp
index f0b86d7..2f3e427 100644
--- a/include/gcd_semaphore.hpp
+++ b/include/gcd_semaphore.hpp
@@ -161,15 +161,27 @@ public:
   {
     validate_native_handle("counting_semaphore::try_acquire_until");
     const struct ::timespec unix_epoch = { 0, 0 };
-    auto timeout = ::dispatch_walltime(&unix_epoch, detail::from_unix_epoch(abs_time));
-
-    long result = ::dispatch_semaphore_wait(dsema_, timeout);
-    if (result != KERN_SUCCESS && result != KERN_OPERATION_TIMED_OUT) {
-      // [thread.mutex.requirements.mutex]
-      // resource_unavailable_try_again - if any native handle type manipulated is not available.
-      throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again), "dispatch_semaphore_wait");
+    for (;;) {
+      const bool expired = (abs_time <= Clock::now());
+      ::dispatch_time_t timeout = DISPATCH_TIME_NOW;
+      if (!expired) {
+        timeout = ::dispatch_walltime(&unix_epoch, detail::from_unix_epoch(abs_time));
+      }
+
+      long result = ::dispatch_semaphore_wait(dsema_, timeout);
+      if (result == KERN_SUCCESS) {
+        return true;
+      }
+      if (result != KERN_OPERATION_TIMED_OUT) {
+        // [thread.mutex.requirements.mutex]
+        // resource_unavailable_try_again - if any native handle type manipulated is not available.
+        throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again), "dispatch_semaphore_wait");
+      }
+      // The system clock may reach the converted deadline earlier than Clock does
+      if (expired) {
+        return false;
+      }
     }
-    return (result == KERN_SUCCESS);
   }
 };
 
-- 
2.43.0


From 63883b5a4959a8e6a1351f4eaac241d6921ffc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:31 +0000
Subject: [PATCH 15/15] fix: posix::counting_semaphore::try_acquire_until
 accepts time points coarser than the clock's duration

---
 include/posix_semaphore.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/posix_semaphore.hpp b/include/posix_semaphore.hpp
index 2f7bb1c..8e67a5c 100644
--- a/include/posix_semaphore.hpp
+++ b/include/posix_semaphore.hpp
@@ -54,10 +54,11 @@ namespace detail {
 
 template<typename Clock, typename Duration>
 inline
-std::chrono::time_point<std::chrono::system_clock, Duration>
+std::chrono::system_clock::time_point
 to_system_timepoint(const std::chrono::time_point<Clock, Duration>& tp)
 {
-  return std::chrono::system_clock::now() + (tp - Clock::now());
+  using namespace std::chrono;
+  return system_clock::now() + duration_cast<system_clock::duration>(tp - Clock::now());
 }
 
 template<typename Duration>
-- 
2.43.0

