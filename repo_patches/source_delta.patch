From 91f1a8aa0ce329ec2af4d012f7ce2783ffcca3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:55 +0000
Subject: [PATCH 01/34] fix: negative durations and times before the epoch
 became far future deadlines

system_time_point mixed the signed duration with the unsigned subsecond_fraction,
so that negative values were converted modulo 2^64, and the addition could overflow
for very long durations.
---
 include/boost/sync/detail/time_units.hpp | 35 +++++++++++++++++-------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/include/boost/sync/detail/time_units.hpp b/include/boost/sync/detail/time_units.hpp
index e7fe6fe..7c36b12 100644
--- a/include/boost/sync/detail/time_units.hpp
+++ b/include/boost/sync/detail/time_units.hpp
@@ -172,8 +172,17 @@ public:
     //! Creates time point from duration since 1970-Jan-01
     explicit system_time_point(system_duration dur) BOOST_NOEXCEPT
     {
-        m_value.tv_sec = static_cast< ::time_t >(dur.get() / subsecond_fraction);
-        m_value.tv_nsec = dur.get() % subsecond_fraction;
+        // Note: the fraction has to be signed so that durations before the epoch are not interpreted as (huge) positive ones
+        const int64_t fraction = static_cast< int64_t >(subsecond_fraction);
+        int64_t sec = dur.get() / fraction;
+        int64_t nsec = dur.get() % fraction;
+        if (nsec < 0)
+        {
+            nsec += fraction;
+            --sec;
+        }
+        m_value.tv_sec = static_cast< ::time_t >(sec);
+        m_value.tv_nsec = static_cast< long >(nsec);
     }
 
     native_type const& get() const BOOST_NOEXCEPT { return m_value; }
@@ -195,15 +204,21 @@ public:
 
     system_time_point& operator+= (system_duration const& dur) BOOST_NOEXCEPT
     {
-        int64_t nsec = static_cast< int64_t >(m_value.tv_nsec) + dur.get();
-        int64_t tv_nsec = nsec % system_duration::subsecond_fraction;
-        if (tv_nsec < 0)
+        const int64_t fraction = static_cast< int64_t >(subsecond_fraction);
+        int64_t sec = dur.get() / fraction;
+        int64_t nsec = static_cast< int64_t >(m_value.tv_nsec) + dur.get() % fraction;
+        if (nsec < 0)
+        {
+            nsec += fraction;
+            --sec;
+        }
+        else if (nsec >= fraction)
         {
-            tv_nsec += subsecond_fraction;
-            --m_value.tv_sec;
+            nsec -= fraction;
+            ++sec;
         }
-        m_value.tv_nsec = static_cast< long >(tv_nsec);
-        m_value.tv_sec += nsec / system_duration::subsecond_fraction;
+        m_value.tv_nsec = static_cast< long >(nsec);
+        m_value.tv_sec += static_cast< ::time_t >(sec);
 
         return *this;
     }
@@ -227,7 +242,7 @@ public:
     {
         int64_t seconds = static_cast< int64_t >(left.m_value.tv_sec) - static_cast< int64_t >(right.m_value.tv_sec);
         int64_t nseconds = static_cast< int64_t >(left.m_value.tv_nsec) - static_cast< int64_t >(right.m_value.tv_nsec);
-        return system_duration(seconds * system_duration::subsecond_fraction + nseconds);
+        return system_duration(seconds * static_cast< int64_t >(system_duration::subsecond_fraction) + nseconds);
     }
 };
 
-- 
2.43.0


From a61d3f4465e4e6a3b44d85009aa5193f4a1fabd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:43 +0000
Subject: [PATCH 02/34] fix: manual_reset_event could not be waited on with a
 steady clock deadline

The futex based implementation called the public timed_wait, which does not accept
internal time units, so wait_until with anything but a system clock did not compile.
---
 include/boost/sync/detail/events/manual_reset_event_futex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/sync/detail/events/manual_reset_event_futex.hpp b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
index cb8b5c6..362a7d2 100644
--- a/include/boost/sync/detail/events/manual_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
@@ -193,7 +193,7 @@ private:
         time_point now = clock::now();
         do
         {
-            if (timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
+            if (priv_timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
                 return true;
             now = clock::now();
         }
-- 
2.43.0


From fdd2bcdfd37f71208e6534713c4adadacb15f867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:57 +0000
Subject: [PATCH 03/34] fix: timed waits on futex based events could sleep too
 long or give up early

Waiting for a duration started over after every interruption or lost race, and
waiting until a system clock time was implemented as a relative wait, which ignores
adjustments of the system clock (and reported a timeout before the deadline when the
clock was set back). Wait until an absolute time on the respective clock instead.
---
 .../detail/events/auto_reset_event_futex.hpp  | 10 +++---
 .../events/manual_reset_event_futex.hpp       | 17 +++------
 include/boost/sync/detail/futex.hpp           | 36 +++++++++++++++++++
 3 files changed, 46 insertions(+), 17 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_futex.hpp b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
index 1ca2db1..26cf238 100644
--- a/include/boost/sync/detail/events/auto_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
@@ -179,10 +179,7 @@ private:
 
                 while (true)
                 {
-                    sync::detail::system_duration::native_type time_left = (abs_timeout - sync::detail::system_time_point::now()).get();
-                    if (time_left <= 0)
-                        return on_wait_timed_out();
-                    const int status = sync::detail::linux_::futex_timedwait(reinterpret_cast< int* >(&m_state), old_state, time_left);
+                    const int status = sync::detail::linux_::futex_timedwait_until(reinterpret_cast< int* >(&m_state), old_state, CLOCK_REALTIME, abs_timeout.get());
                     if (status != 0)
                     {
                         const int err = errno;
@@ -227,6 +224,9 @@ private:
         if (time_left <= 0)
             return false;
 
+        // The thread may be woken up multiple times before the event is posted, so remember when to stop waiting
+        const struct ::timespec deadline = sync::detail::linux_::monotonic_deadline(time_left);
+
         // Add one waiter
         unsigned int old_state = m_state.fetch_add(1, detail::atomic_ns::memory_order_relaxed);
         while (true)
@@ -238,7 +238,7 @@ private:
 
                 while (true)
                 {
-                    const int status = sync::detail::linux_::futex_timedwait(reinterpret_cast< int* >(&m_state), old_state, time_left);
+                    const int status = sync::detail::linux_::futex_timedwait_until(reinterpret_cast< int* >(&m_state), old_state, CLOCK_MONOTONIC, deadline);
                     if (status != 0)
                     {
                         const int err = errno;
diff --git a/include/boost/sync/detail/events/manual_reset_event_futex.hpp b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
index 362a7d2..44334f0 100644
--- a/include/boost/sync/detail/events/manual_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
@@ -114,17 +114,7 @@ private:
         unsigned int old_state = m_state.add(wait_count_one, boost::memory_order_relaxed);
         while ((old_state & post_bit) == 0u)
         {
-            sync::detail::system_duration::native_type time_left = (abs_timeout - sync::detail::system_time_point::now()).get();
-            if (time_left <= 0)
-            {
-                m_state.opaque_sub(wait_count_one, boost::memory_order_relaxed);
-                return false;
-            }
-
-            // Check that system time resolution is nanoseconds
-            BOOST_STATIC_ASSERT(sync::detail::system_duration::subsecond_fraction == 1000000000u);
-
-            const int status = sync::detail::linux_::futex_timedwait(reinterpret_cast< int* >(&m_state.value()), old_state, time_left);
+            const int status = sync::detail::linux_::futex_timedwait_until(reinterpret_cast< int* >(&m_state.value()), old_state, CLOCK_REALTIME, abs_timeout.get());
             if (status != 0)
             {
                 const int err = errno;
@@ -161,9 +151,12 @@ private:
 
             // Check that system time resolution is nanoseconds
             BOOST_STATIC_ASSERT(sync::detail::system_duration::subsecond_fraction == 1000000000u);
+
+            // The thread may be woken up multiple times before the event is set, so remember when to stop waiting
+            const struct ::timespec deadline = sync::detail::linux_::monotonic_deadline(time_left);
             do
             {
-                const int status = sync::detail::linux_::futex_timedwait(reinterpret_cast< int* >(&m_state.value()), old_state, time_left);
+                const int status = sync::detail::linux_::futex_timedwait_until(reinterpret_cast< int* >(&m_state.value()), old_state, CLOCK_MONOTONIC, deadline);
                 if (status != 0)
                 {
                     const int err = errno;
diff --git a/include/boost/sync/detail/futex.hpp b/include/boost/sync/detail/futex.hpp
index 39e0e1a..8a0751b 100644
--- a/include/boost/sync/detail/futex.hpp
+++ b/include/boost/sync/detail/futex.hpp
@@ -18,8 +18,10 @@
 #ifndef BOOST_SYNC_DETAIL_FUTEX_HPP_INCLUDED_
 #define BOOST_SYNC_DETAIL_FUTEX_HPP_INCLUDED_
 
+#include <errno.h>
 #include <stddef.h>
 #include <limits.h>
+#include <time.h>
 #include <unistd.h>
 #include <sys/time.h>
 #include <sys/syscall.h>
@@ -86,6 +88,40 @@ BOOST_FORCEINLINE int futex_timedwait(int* pval, int expected, uint64_t timeout_
     );
 }
 
+//! Checks that the value \c pval is \c expected and blocks until the clock \c clock_id, which must be \c CLOCK_REALTIME or \c CLOCK_MONOTONIC, reaches \c abs_timeout
+BOOST_FORCEINLINE int futex_timedwait_until(int* pval, int expected, ::clockid_t clock_id, struct ::timespec const& abs_timeout) BOOST_NOEXCEPT
+{
+    if (abs_timeout.tv_sec < 0) // the system call would fail with EINVAL
+    {
+        errno = ETIMEDOUT;
+        return -1;
+    }
+
+    int op = FUTEX_WAIT_BITSET;
+#ifdef FUTEX_PRIVATE_FLAG
+    op |= FUTEX_PRIVATE_FLAG;
+#endif
+    if (clock_id == CLOCK_REALTIME)
+        op |= FUTEX_CLOCK_REALTIME;
+
+    return futex_invoke(pval, op, expected, &abs_timeout, NULL, -1 /* FUTEX_BITSET_MATCH_ANY */);
+}
+
+//! Returns the time of \c CLOCK_MONOTONIC in \c timeout_nsec nanoseconds
+inline struct ::timespec monotonic_deadline(int64_t timeout_nsec) BOOST_NOEXCEPT
+{
+    struct ::timespec deadline;
+    ::clock_gettime(CLOCK_MONOTONIC, &deadline);
+    deadline.tv_sec += timeout_nsec / 1000000000;
+    deadline.tv_nsec += timeout_nsec % 1000000000;
+    if (deadline.tv_nsec >= 1000000000)
+    {
+        deadline.tv_nsec -= 1000000000;
+        ++deadline.tv_sec;
+    }
+    return deadline;
+}
+
 //! Wakes all threads waiting on the futex
 BOOST_FORCEINLINE int futex_broadcast(int* pval) BOOST_NOEXCEPT
 {
-- 
2.43.0


From 25f9870101f1061458adc42a05751716b99ca6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:27 +0000
Subject: [PATCH 04/34] fix: posting a signalled auto_reset_event did not
 publish the poster's writes

The futex based implementation only issued a release fence after a relaxed load in
this case, with no store the consumer could synchronize with. The thread that later
consumed the event could miss data written before the absorbed post.
---
 .../boost/sync/detail/events/auto_reset_event_futex.hpp   | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_futex.hpp b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
index 26cf238..6226635 100644
--- a/include/boost/sync/detail/events/auto_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
@@ -72,8 +72,12 @@ public:
             }
             else
             {
-                detail::atomic_ns::atomic_thread_fence(detail::atomic_ns::memory_order_release);
-                return; // the event is already set (enough times so that all waiters are released and the event is still left signalled)
+                // The event is already set (enough times so that all waiters are released and the event is still left signalled).
+                // The state still has to be written, so that the thread which resets the event synchronizes with this post as well.
+                if (m_state.compare_exchange_weak(old_state, old_state, detail::atomic_ns::memory_order_release, detail::atomic_ns::memory_order_relaxed))
+                    return;
+
+                detail::pause();
             }
         }
 
-- 
2.43.0


From aac8c3ddbb4b111823a4a9d780b619d7aa4f85cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:42 +0000
Subject: [PATCH 05/34] fix: relative timeouts of the emulated semaphore and
 events restarted on every wakeup

---
 .../events/auto_reset_event_emulation.hpp     | 23 ++++++++++--------
 .../events/manual_reset_event_emulation.hpp   | 24 +++++++++----------
 .../detail/semaphore/semaphore_emulation.hpp  | 23 ++++++++++--------
 3 files changed, 38 insertions(+), 32 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_emulation.hpp b/include/boost/sync/detail/events/auto_reset_event_emulation.hpp
index 358e368..076475b 100644
--- a/include/boost/sync/detail/events/auto_reset_event_emulation.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_emulation.hpp
@@ -33,6 +33,16 @@ BOOST_SYNC_DETAIL_OPEN_ABI_NAMESPACE {
 
 class auto_reset_event
 {
+    //! Wait completion condition
+    class is_signalled
+    {
+        auto_reset_event const& m_self;
+
+    public:
+        explicit is_signalled(auto_reset_event const& self) BOOST_NOEXCEPT : m_self(self) {}
+        bool operator()() const BOOST_NOEXCEPT { return m_self.m_is_set; }
+    };
+
     BOOST_DELETED_FUNCTION(auto_reset_event(auto_reset_event const&));
     BOOST_DELETED_FUNCTION(auto_reset_event& operator= (auto_reset_event const&));
 
@@ -75,16 +85,9 @@ public:
     typename enable_if_c< sync::detail::time_traits< Time >::is_specialized, bool >::type timed_wait(Time const& timeout)
     {
         sync::unique_lock< sync::mutex > lock(m_mutex);
-        while (!m_is_set)
-        {
-            if (!m_cond.timed_wait(lock, timeout))
-            {
-                if (!m_is_set)
-                    return false;
-                else
-                    break;
-            }
-        }
+        // The predicate overload converts a relative timeout to a deadline once, so that wakeups don't restart it
+        if (!m_cond.timed_wait(lock, timeout, is_signalled(*this)))
+            return false;
 
         m_is_set = false;
         return true;
diff --git a/include/boost/sync/detail/events/manual_reset_event_emulation.hpp b/include/boost/sync/detail/events/manual_reset_event_emulation.hpp
index b6183af..6f7c5df 100644
--- a/include/boost/sync/detail/events/manual_reset_event_emulation.hpp
+++ b/include/boost/sync/detail/events/manual_reset_event_emulation.hpp
@@ -33,6 +33,16 @@ BOOST_SYNC_DETAIL_OPEN_ABI_NAMESPACE {
 
 class manual_reset_event
 {
+    //! Wait completion condition
+    class is_signalled
+    {
+        manual_reset_event const& m_self;
+
+    public:
+        explicit is_signalled(manual_reset_event const& self) BOOST_NOEXCEPT : m_self(self) {}
+        bool operator()() const BOOST_NOEXCEPT { return m_self.m_is_set; }
+    };
+
     BOOST_DELETED_FUNCTION(manual_reset_event(manual_reset_event const&));
     BOOST_DELETED_FUNCTION(manual_reset_event& operator= (manual_reset_event const&));
 
@@ -76,18 +86,8 @@ public:
     typename enable_if_c< sync::detail::time_traits< Time >::is_specialized, bool >::type timed_wait(Time const& timeout)
     {
         sync::unique_lock< sync::mutex > lock(m_mutex);
-        while (!m_is_set)
-        {
-            if (!m_cond.timed_wait(lock, timeout))
-            {
-                if (!m_is_set)
-                    return false;
-                else
-                    break;
-            }
-        }
-
-        return true;
+        // The predicate overload converts a relative timeout to a deadline once, so that wakeups don't restart it
+        return m_cond.timed_wait(lock, timeout, is_signalled(*this));
     }
 
     template< typename Duration >
diff --git a/include/boost/sync/detail/semaphore/semaphore_emulation.hpp b/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
index db69570..8e89235 100644
--- a/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
@@ -33,6 +33,16 @@ BOOST_SYNC_DETAIL_OPEN_ABI_NAMESPACE {
 
 class semaphore
 {
+    //! Wait completion condition
+    class is_signalled
+    {
+        semaphore const& m_self;
+
+    public:
+        explicit is_signalled(semaphore const& self) BOOST_NOEXCEPT : m_self(self) {}
+        bool operator()() const BOOST_NOEXCEPT { return m_self.m_count > 0; }
+    };
+
     BOOST_DELETED_FUNCTION(semaphore(semaphore const&))
     BOOST_DELETED_FUNCTION(semaphore& operator=(semaphore const&))
 
@@ -71,16 +81,9 @@ public:
     typename enable_if_c< sync::detail::time_traits< Time >::is_specialized, bool >::type timed_wait(Time const& timeout)
     {
         sync::unique_lock< sync::mutex > lock(m_mutex);
-        while (m_count == 0)
-        {
-            if (!m_cond.timed_wait(lock, timeout))
-            {
-                if (m_count == 0)
-                    return false;
-                else
-                    break;
-            }
-        }
+        // The predicate overload converts a relative timeout to a deadline once, so that wakeups don't restart it
+        if (!m_cond.timed_wait(lock, timeout, is_signalled(*this)))
+            return false;
 
         --m_count;
         return true;
-- 
2.43.0


From 7d0e1099996eb80c73d5eaae14e063938a9a7064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:20 +0000
Subject: [PATCH 06/34] fix: posts of the emulated auto_reset_event were lost
 when several threads were blocked

---
 .../events/auto_reset_event_emulation.hpp     | 49 +++++++++++++------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_emulation.hpp b/include/boost/sync/detail/events/auto_reset_event_emulation.hpp
index 076475b..2f4381a 100644
--- a/include/boost/sync/detail/events/auto_reset_event_emulation.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_emulation.hpp
@@ -40,24 +40,40 @@ class auto_reset_event
 
     public:
         explicit is_signalled(auto_reset_event const& self) BOOST_NOEXCEPT : m_self(self) {}
-        bool operator()() const BOOST_NOEXCEPT { return m_self.m_is_set; }
+        bool operator()() const BOOST_NOEXCEPT { return m_self.m_posts > 0; }
+    };
+
+    //! Registers a thread that is going to block
+    class waiter_guard
+    {
+        auto_reset_event& m_self;
+
+    public:
+        explicit waiter_guard(auto_reset_event& self) BOOST_NOEXCEPT : m_self(self) { ++m_self.m_waiters; }
+        ~waiter_guard()
+        {
+            --m_self.m_waiters;
+            // If the wait failed with an exception, don't leave behind a post that no thread waits for, except the one that makes the event signalled
+            if (m_self.m_posts > m_self.m_waiters + 1u)
+                --m_self.m_posts;
+        }
     };
 
     BOOST_DELETED_FUNCTION(auto_reset_event(auto_reset_event const&));
     BOOST_DELETED_FUNCTION(auto_reset_event& operator= (auto_reset_event const&));
 
 public:
-    auto_reset_event() : m_is_set(false)
+    auto_reset_event() : m_waiters(0), m_posts(0)
     {
     }
 
     void post()
     {
         sync::lock_guard< sync::mutex > lock(m_mutex);
-        const bool already_signaled = m_is_set;
-        if (!already_signaled)
+        // Every blocked thread has to be released by a post of its own, one more post makes the event signalled
+        if (m_posts <= m_waiters)
         {
-            m_is_set = true;
+            ++m_posts;
             m_cond.notify_one();
         }
     }
@@ -66,30 +82,32 @@ public:
     {
         sync::unique_lock< sync::mutex > lock(m_mutex);
 
-        while (!m_is_set)
-            m_cond.wait(lock);
+        waiter_guard guard(*this);
+        m_cond.wait(lock, is_signalled(*this));
 
-        m_is_set = false;
+        --m_posts;
     }
 
     bool try_wait()
     {
         sync::lock_guard< sync::mutex > lock(m_mutex);
-        const bool res = m_is_set;
-        if (res)
-            m_is_set = false;
-        return res;
+        if (m_posts == 0)
+            return false;
+
+        --m_posts;
+        return true;
     }
 
     template< typename Time >
     typename enable_if_c< sync::detail::time_traits< Time >::is_specialized, bool >::type timed_wait(Time const& timeout)
     {
         sync::unique_lock< sync::mutex > lock(m_mutex);
+        waiter_guard guard(*this);
         // The predicate overload converts a relative timeout to a deadline once, so that wakeups don't restart it
         if (!m_cond.timed_wait(lock, timeout, is_signalled(*this)))
             return false;
 
-        m_is_set = false;
+        --m_posts;
         return true;
     }
 
@@ -108,7 +126,10 @@ public:
 private:
     sync::mutex m_mutex;
     sync::condition_variable m_cond;
-    bool m_is_set;
+    //! The number of threads waiting for the event
+    unsigned int m_waiters;
+    //! The number of posts that are not consumed yet
+    unsigned int m_posts;
 };
 
 } // namespace abi
-- 
2.43.0


From bec50cf8e637fd31515af39ae7504be221bd3d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:54 +0000
Subject: [PATCH 07/34] fix: auto_reset_event on semaphores could be signalled
 twice by concurrent failing waits and did not publish absorbed posts

---
 .../events/auto_reset_event_semaphore.hpp     | 57 +++++++++++--------
 1 file changed, 34 insertions(+), 23 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp b/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
index ec8a449..ad01c26 100644
--- a/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
@@ -43,24 +43,18 @@ public:
     void post() BOOST_NOEXCEPT
     {
         int32_t old_state = m_state.load(detail::atomic_ns::memory_order_relaxed);
-        if (old_state >= 0)
+        for (;;)
         {
-            for (;;)
-            {
-                if (m_state.compare_exchange_weak(old_state, old_state - 1, detail::atomic_ns::memory_order_release, detail::atomic_ns::memory_order_relaxed))
-                {
-                    m_sem.post();
-                    return; // avoid unnecessary fence
-                }
-
-                if (old_state < 0)
-                    break; // someone else has set the auto_reset_event with no waiters
+            // If the event is already signalled, the state is written unchanged in order to release the memory to the thread that will consume the signal
+            const int32_t new_state = old_state >= 0 ? old_state - 1 : old_state;
+            if (m_state.compare_exchange_weak(old_state, new_state, detail::atomic_ns::memory_order_release, detail::atomic_ns::memory_order_relaxed))
+                break;
 
-                detail::pause();
-            }
+            detail::pause();
         }
 
-        detail::atomic_ns::atomic_thread_fence(detail::atomic_ns::memory_order_release);
+        if (old_state >= 0)
+            m_sem.post();
     }
 
     void wait()
@@ -71,13 +65,21 @@ public:
 
     bool try_wait()
     {
-        m_state.fetch_add(1, detail::atomic_ns::memory_order_acquire);
+        // Only register as a waiter if there is a signal to consume. A failing attempt must not be visible to concurrent post() calls,
+        // or they would release the semaphore for a thread that is not going to wait on it.
+        int32_t old_state = m_state.load(detail::atomic_ns::memory_order_relaxed);
+        while (old_state < 0)
+        {
+            if (m_state.compare_exchange_weak(old_state, old_state + 1, detail::atomic_ns::memory_order_acquire, detail::atomic_ns::memory_order_relaxed))
+            {
+                // The semaphore is released or about to be released by the post() that signalled the event
+                m_sem.wait();
+                return true;
+            }
 
-        const bool wait_successful = m_sem.try_wait();
-        if (wait_successful)
-            return true;
+            detail::pause();
+        }
 
-        m_state.fetch_add(-1, detail::atomic_ns::memory_order_relaxed);
         return false;
     }
 
@@ -86,12 +88,21 @@ public:
     {
         m_state.fetch_add(1, detail::atomic_ns::memory_order_acquire);
 
-        const bool wait_successful = m_sem.timed_wait(timeout);
-        if (wait_successful)
+        if (m_sem.timed_wait(timeout))
             return true;
 
-        m_state.fetch_add(-1, detail::atomic_ns::memory_order_relaxed);
-        return false;
+        int32_t old_state = m_state.load(detail::atomic_ns::memory_order_relaxed);
+        while (old_state > 0)
+        {
+            if (m_state.compare_exchange_weak(old_state, old_state - 1, detail::atomic_ns::memory_order_relaxed, detail::atomic_ns::memory_order_relaxed))
+                return false;
+
+            detail::pause();
+        }
+
+        // There is a post for every registered waiter, including this one, so the semaphore is released or about to be released
+        m_sem.wait();
+        return true;
     }
 
     template< typename Duration >
-- 
2.43.0


From 0effc932c7a165862d803c4dc7df51a30244f731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:04 +0000
Subject: [PATCH 08/34] fix: shared_spin_mutex::try_lock_shared failed when
 other readers locked or unlocked concurrently

---
 .../sync/detail/mutexes/shared_spin_mutex.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/boost/sync/detail/mutexes/shared_spin_mutex.hpp b/include/boost/sync/detail/mutexes/shared_spin_mutex.hpp
index 87ccfac..c096aca 100644
--- a/include/boost/sync/detail/mutexes/shared_spin_mutex.hpp
+++ b/include/boost/sync/detail/mutexes/shared_spin_mutex.hpp
@@ -104,15 +104,16 @@ public:
 
     bool try_lock_shared() BOOST_NOEXCEPT
     {
-        /* with the mask, the cas will fail, locked exclusively */
-        uint32_t current_state    = state.load(detail::atomic_ns::memory_order_acquire) & reader_mask;
-        const uint32_t next_state = current_state + 1;
-
-        if ( state.compare_exchange_strong(current_state, next_state, detail::atomic_ns::memory_order_acquire,
-                                           detail::atomic_ns::memory_order_relaxed) )
-            return true;
-        else
-            return false;
+        /* other readers changing the counter concurrently are not a reason to fail */
+        uint32_t current_state = state.load(detail::atomic_ns::memory_order_relaxed);
+        while ( current_state != locked_state )
+        {
+            if ( state.compare_exchange_weak(current_state, current_state + 1, detail::atomic_ns::memory_order_acquire,
+                                             detail::atomic_ns::memory_order_relaxed) )
+                return true;
+            detail::pause();
+        }
+        return false;
     }
 
     void unlock_shared() BOOST_NOEXCEPT
-- 
2.43.0


From 17090c139d2b20cce4e0c0863b6124b4efacfe22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:04 +0000
Subject: [PATCH 09/34] fix: semaphore::try_wait failed when sem_trywait was
 interrupted by a signal

---
 .../sync/detail/semaphore/semaphore_posix.hpp | 29 +++++++++++--------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/include/boost/sync/detail/semaphore/semaphore_posix.hpp b/include/boost/sync/detail/semaphore/semaphore_posix.hpp
index 53b525e..bb47380 100644
--- a/include/boost/sync/detail/semaphore/semaphore_posix.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_posix.hpp
@@ -100,20 +100,25 @@ public:
 
     bool try_wait()
     {
-        const int status = sem_trywait(&m_sem);
-        if (status == 0)
-            return true;
-
-        switch (errno)
+        for (;;)
         {
-        case EINTR:
-        case EAGAIN:
-            return false;
+            const int status = sem_trywait(&m_sem);
+            if (status == 0)
+                return true;
 
-        case EINVAL:
-        default:
-            BOOST_ASSERT(false);
-            return false;
+            switch (errno)
+            {
+            case EINTR: // interrupted by a signal handler
+                continue;
+
+            case EAGAIN:
+                return false;
+
+            case EINVAL:
+            default:
+                BOOST_ASSERT(false);
+                return false;
+            }
         }
     }
 
-- 
2.43.0


From 11a29c302f40bf22b5591e3cb948c4523f9dba05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:37 +0000
Subject: [PATCH 10/34] fix: relative timeouts of condition_variable_any
 predicate waits restarted on every wakeup

---
 .../condition_variable_any_generic.hpp        | 42 +++++++++++++++----
 .../condition_variable_posix.hpp              |  4 ++
 2 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/include/boost/sync/detail/condition_variables/condition_variable_any_generic.hpp b/include/boost/sync/detail/condition_variables/condition_variable_any_generic.hpp
index 30fe69e..7515ef3 100644
--- a/include/boost/sync/detail/condition_variables/condition_variable_any_generic.hpp
+++ b/include/boost/sync/detail/condition_variables/condition_variable_any_generic.hpp
@@ -21,6 +21,7 @@
 #include <boost/core/enable_if.hpp>
 #include <boost/sync/detail/config.hpp>
 #include <boost/sync/detail/time_traits.hpp>
+#include <boost/sync/detail/time_units.hpp>
 #include <boost/sync/locks/lock_guard.hpp>
 #include <boost/sync/locks/unique_lock.hpp>
 #include <boost/sync/mutexes/mutex.hpp>
@@ -117,12 +118,7 @@ public:
     typename enable_if_c< sync::detail::time_traits< Time >::is_specialized, bool >::type
     timed_wait(Lock& lock, Time const& t, Predicate pred)
     {
-        while (!pred())
-        {
-            if (!this->timed_wait(lock, t))
-                return pred();
-        }
-        return true;
+        return priv_wait_until(lock, to_deadline(sync::detail::time_traits< Time >::to_sync_unit(t)), pred);
     }
 
     template< typename Lock, typename TimePoint >
@@ -160,17 +156,45 @@ public:
     template< typename Lock, typename Duration, typename Predicate >
     typename detail::enable_if_tag< Duration, detail::time_duration_tag, bool >::type
     wait_for(Lock& lock, Duration const& rel_time, Predicate pred)
+    {
+        return priv_wait_until(lock, to_deadline(sync::detail::time_traits< Duration >::to_sync_unit(rel_time)), pred);
+    }
+
+    BOOST_DELETED_FUNCTION(condition_variable_any(condition_variable_any const&))
+    BOOST_DELETED_FUNCTION(condition_variable_any& operator= (condition_variable_any const&))
+
+private:
+    static sync::detail::system_time_point to_deadline(sync::detail::system_duration dur)
+    {
+        return sync::detail::system_time_point::now() + dur;
+    }
+
+    template< typename TimePoint >
+    static TimePoint const& to_deadline(TimePoint const& t) BOOST_NOEXCEPT
+    {
+        return t;
+    }
+
+    //! Waits until the predicate is true or the deadline is reached. The deadline is not affected by the number of wakeups.
+    template< typename Lock, typename TimePoint, typename Predicate >
+    bool priv_wait_until(Lock& lock, TimePoint const& deadline, Predicate& pred)
     {
         while (!pred())
         {
-            if (this->wait_for(lock, rel_time) != sync::cv_status::no_timeout)
+            if (priv_wait_until(lock, deadline) != sync::cv_status::no_timeout)
                 return pred();
         }
         return true;
     }
 
-    BOOST_DELETED_FUNCTION(condition_variable_any(condition_variable_any const&))
-    BOOST_DELETED_FUNCTION(condition_variable_any& operator= (condition_variable_any const&))
+    template< typename Lock, typename TimePoint >
+    sync::cv_status priv_wait_until(Lock& lock, TimePoint const& deadline)
+    {
+        relocker< Lock > relock_guard;
+        sync::unique_lock< sync::mutex > internal_lock(m_mutex);
+        relock_guard.unlock(lock);
+        return m_cond.priv_timed_wait(internal_lock, deadline);
+    }
 };
 
 } // namespace abi
diff --git a/include/boost/sync/detail/condition_variables/condition_variable_posix.hpp b/include/boost/sync/detail/condition_variables/condition_variable_posix.hpp
index a2078c6..fa4ff7e 100644
--- a/include/boost/sync/detail/condition_variables/condition_variable_posix.hpp
+++ b/include/boost/sync/detail/condition_variables/condition_variable_posix.hpp
@@ -45,8 +45,12 @@ namespace sync {
 
 BOOST_SYNC_DETAIL_OPEN_ABI_NAMESPACE {
 
+class condition_variable_any;
+
 class condition_variable
 {
+    friend class condition_variable_any;
+
 public:
     typedef pthread_cond_t* native_handle_type;
 
-- 
2.43.0


From 581a0b847877378f7da6a5af20b3914bfa366776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:25 +0000
Subject: [PATCH 11/34] fix: data races between threads that store or destroy
 thread-specific values and threads that create or delete keys

The growth of a thread's storage and the cleanup of its values at exit are
now synchronized with new_key and delete_key.
---
 src/tss_manager.hpp | 40 +++++++++++++++++++++++++++-------------
 src/tss_pthread.cpp |  2 +-
 src/tss_windows.cpp |  2 +-
 3 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/tss_manager.hpp b/src/tss_manager.hpp
index 6cd7648..4fab35c 100644
--- a/src/tss_manager.hpp
+++ b/src/tss_manager.hpp
@@ -79,13 +79,6 @@ public:
                 return NULL;
         }
 
-        void set_value(thread_specific_key key, void* value)
-        {
-            if (key >= m_storage.size())
-                m_storage.resize(key + 1, static_cast< void* >(NULL));
-            m_storage[key] = value;
-        }
-
         void add_at_exit_entry(at_thread_exit_callback callback, void* context)
         {
             at_exit_entry entry;
@@ -162,21 +155,31 @@ public:
         }
 
         // Destroy TLS
-        while (!p->m_storage.empty())
+        bool has_values;
+        do
         {
-            std::vector< void* > storage;
-            storage.swap(p->m_storage);
-            for (thread_specific_key key = 0, n = static_cast< thread_specific_key >(storage.size()); key < n; ++key)
+            has_values = false;
+            for (thread_specific_key key = 0; key < p->m_storage.size(); ++key)
             {
-                void* const value = storage[key];
+                void* value;
+                at_thread_exit_callback cleanup;
+                {
+                    // Other threads may be creating or deleting keys
+                    sync::lock_guard< mutex_type > lock(m_mutex);
+                    value = p->m_storage[key];
+                    p->m_storage[key] = NULL;
+                    cleanup = m_storage_cleanup[key].cleanup;
+                }
+
                 if (value)
                 {
-                    const at_thread_exit_callback cleanup = m_storage_cleanup[key].cleanup;
+                    has_values = true;
                     if (cleanup)
                         cleanup(value);
                 }
             }
         }
+        while (has_values);
 
         // Notify about thread termination. This must be performed last, after all TLS variables are destroyed.
         for (std::vector< thread_context::notify_at_exit_entry >::const_iterator it = p->m_notify_at_exit.begin(), end = p->m_notify_at_exit.end(); it != end; ++it)
@@ -193,6 +196,17 @@ public:
         delete p;
     }
 
+    void set_value(thread_context* p, thread_specific_key key, void* value)
+    {
+        if (key >= p->m_storage.size())
+        {
+            // The storage can be accessed by other threads in delete_key
+            sync::lock_guard< mutex_type > lock(m_mutex);
+            p->m_storage.resize(key + 1, static_cast< void* >(NULL));
+        }
+        p->m_storage[key] = value;
+    }
+
     thread_specific_key new_key(at_thread_exit_callback cleanup, bool cleanup_at_delete)
     {
         sync::lock_guard< mutex_type > lock(m_mutex);
diff --git a/src/tss_pthread.cpp b/src/tss_pthread.cpp
index 29d57ca..c1b2c78 100644
--- a/src/tss_pthread.cpp
+++ b/src/tss_pthread.cpp
@@ -160,7 +160,7 @@ BOOST_SYNC_API void set_thread_specific(thread_specific_key key, void* p)
         set_thread_context(ctx);
     }
 
-    ctx->set_value(key, p);
+    tss_mgr->set_value(ctx, key, p);
 }
 
 } // namespace detail
diff --git a/src/tss_windows.cpp b/src/tss_windows.cpp
index 23bf218..480ee2e 100644
--- a/src/tss_windows.cpp
+++ b/src/tss_windows.cpp
@@ -230,7 +230,7 @@ BOOST_SYNC_API void set_thread_specific(thread_specific_key key, void* p)
         set_thread_context(ctx);
     }
 
-    ctx->set_value(key, p);
+    tss_mgr->set_value(ctx, key, p);
 }
 
 } // namespace detail
-- 
2.43.0


From d90ea305763dc278275c457800ed14ca76ba5071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:38 +0000
Subject: [PATCH 12/34] fix: thread-specific values and exit callbacks were
 never cleaned up on POSIX with BOOST_SYNC_USE_COMPILER_TLS

---
 src/tss_pthread.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/tss_pthread.cpp b/src/tss_pthread.cpp
index c1b2c78..0a8f7ca 100644
--- a/src/tss_pthread.cpp
+++ b/src/tss_pthread.cpp
@@ -37,9 +37,9 @@ static pthread_once_t init_tss_once_flag = PTHREAD_ONCE_INIT;
 static tss_manager* tss_mgr = NULL;
 #if defined(BOOST_SYNC_DETAIL_TLS)
 static BOOST_SYNC_DETAIL_TLS tss_manager::thread_context* tss_context = NULL;
-#else
-static pthread_key_t tss_key;
 #endif
+// The key is also needed when compiler TLS is used, its destructor detects thread termination
+static pthread_key_t tss_key;
 
 extern "C" {
 
@@ -62,10 +62,8 @@ static void init_tss()
         std::abort();
     }
 
-#if !defined(BOOST_SYNC_DETAIL_TLS)
     if (pthread_key_create(&tss_key, &tss_cleanup) != 0)
         std::abort();
-#endif
 }
 
 } // extern "C"
@@ -78,6 +76,7 @@ BOOST_FORCEINLINE tss_manager::thread_context* get_thread_context() BOOST_NOEXCE
 }
 BOOST_FORCEINLINE void set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
 {
+    pthread_setspecific(tss_key, p);
     tss_context = p;
 }
 
-- 
2.43.0


From fad4f0263e1daf919fe53abea552e521adad3d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:23 +0000
Subject: [PATCH 13/34] fix: values were unreadable and registrations lost in
 thread exit and cleanup functions

The thread context remains accessible while the functions run, so that
thread-specific values can be read and everything that the functions register
or store is run and cleaned up, too. The Windows implementation already keeps
the context accessible.
---
 src/tss_manager.hpp | 27 ++++++++++++-----------
 src/tss_pthread.cpp | 53 ++++++++++++++++++++++++---------------------
 2 files changed, 42 insertions(+), 38 deletions(-)

diff --git a/src/tss_manager.hpp b/src/tss_manager.hpp
index 4fab35c..5f34540 100644
--- a/src/tss_manager.hpp
+++ b/src/tss_manager.hpp
@@ -142,22 +142,23 @@ public:
 
     void destroy_thread_context(thread_context* p) BOOST_NOEXCEPT
     {
-        // Run cleanup functions
-        while (!p->m_at_exit_functions.empty())
+        // Cleanup functions may register exit functions and vice versa, repeat until there are none left
+        bool has_values;
+        do
         {
-            std::vector< thread_context::at_exit_entry > at_exit_functions;
-            at_exit_functions.swap(p->m_at_exit_functions);
-
-            for (std::vector< thread_context::at_exit_entry >::reverse_iterator it = at_exit_functions.rbegin(), end = at_exit_functions.rend(); it != end; ++it)
+            // Run exit functions
+            while (!p->m_at_exit_functions.empty())
             {
-                it->callback(it->context);
+                std::vector< thread_context::at_exit_entry > at_exit_functions;
+                at_exit_functions.swap(p->m_at_exit_functions);
+
+                for (std::vector< thread_context::at_exit_entry >::reverse_iterator it = at_exit_functions.rbegin(), end = at_exit_functions.rend(); it != end; ++it)
+                {
+                    it->callback(it->context);
+                }
             }
-        }
 
-        // Destroy TLS
-        bool has_values;
-        do
-        {
+            // Destroy TLS
             has_values = false;
             for (thread_specific_key key = 0; key < p->m_storage.size(); ++key)
             {
@@ -179,7 +180,7 @@ public:
                 }
             }
         }
-        while (has_values);
+        while (has_values || !p->m_at_exit_functions.empty());
 
         // Notify about thread termination. This must be performed last, after all TLS variables are destroyed.
         for (std::vector< thread_context::notify_at_exit_entry >::const_iterator it = p->m_notify_at_exit.begin(), end = p->m_notify_at_exit.end(); it != end; ++it)
diff --git a/src/tss_pthread.cpp b/src/tss_pthread.cpp
index 0a8f7ca..5c8a49f 100644
--- a/src/tss_pthread.cpp
+++ b/src/tss_pthread.cpp
@@ -41,13 +41,41 @@ static BOOST_SYNC_DETAIL_TLS tss_manager::thread_context* tss_context = NULL;
 // The key is also needed when compiler TLS is used, its destructor detects thread termination
 static pthread_key_t tss_key;
 
+#if defined(BOOST_SYNC_DETAIL_TLS)
+
+BOOST_FORCEINLINE tss_manager::thread_context* get_thread_context() BOOST_NOEXCEPT
+{
+    return tss_context;
+}
+BOOST_FORCEINLINE void set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
+{
+    pthread_setspecific(tss_key, p);
+    tss_context = p;
+}
+
+#else // defined(BOOST_SYNC_DETAIL_TLS)
+
+BOOST_FORCEINLINE tss_manager::thread_context* get_thread_context() BOOST_NOEXCEPT
+{
+    return static_cast< tss_manager::thread_context* >(pthread_getspecific(tss_key));
+}
+BOOST_FORCEINLINE void set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
+{
+    pthread_setspecific(tss_key, p);
+}
+
+#endif // defined(BOOST_SYNC_DETAIL_TLS)
+
 extern "C" {
 
 static void tss_cleanup(void* p)
 {
     if (tss_manager::thread_context* ctx = static_cast< tss_manager::thread_context* >(p))
     {
+        // Let the exit and cleanup functions access the thread context.
+        set_thread_context(ctx);
         tss_mgr->destroy_thread_context(ctx);
+        set_thread_context(NULL);
     }
 }
 
@@ -68,31 +96,6 @@ static void init_tss()
 
 } // extern "C"
 
-#if defined(BOOST_SYNC_DETAIL_TLS)
-
-BOOST_FORCEINLINE tss_manager::thread_context* get_thread_context() BOOST_NOEXCEPT
-{
-    return tss_context;
-}
-BOOST_FORCEINLINE void set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
-{
-    pthread_setspecific(tss_key, p);
-    tss_context = p;
-}
-
-#else // defined(BOOST_SYNC_DETAIL_TLS)
-
-BOOST_FORCEINLINE tss_manager::thread_context* get_thread_context() BOOST_NOEXCEPT
-{
-    return static_cast< tss_manager::thread_context* >(pthread_getspecific(tss_key));
-}
-BOOST_FORCEINLINE void set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
-{
-    pthread_setspecific(tss_key, p);
-}
-
-#endif // defined(BOOST_SYNC_DETAIL_TLS)
-
 } // namespace
 
 BOOST_SYNC_API void add_thread_exit_notify_entry(sync::mutex& mtx, sync::condition_variable& cond)
-- 
2.43.0


From 82f22fe12885d3d6511c5d1a42ba857d72940599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:23 +0000
Subject: [PATCH 14/34] fix: notify_all_at_thread_exit used the condition
 variable after releasing the mutex

A waiter that had seen the condition and destroyed the condition variable raced
with the notification.
---
 src/tss_manager.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tss_manager.hpp b/src/tss_manager.hpp
index 5f34540..a407d02 100644
--- a/src/tss_manager.hpp
+++ b/src/tss_manager.hpp
@@ -185,8 +185,9 @@ public:
         // Notify about thread termination. This must be performed last, after all TLS variables are destroyed.
         for (std::vector< thread_context::notify_at_exit_entry >::const_iterator it = p->m_notify_at_exit.begin(), end = p->m_notify_at_exit.end(); it != end; ++it)
         {
-            it->mtx->unlock();
+            // The waiter may destroy the condition variable and the mutex as soon as it acquires the lock
             it->cond->notify_all();
+            it->mtx->unlock();
         }
 
         // Destroy the context
-- 
2.43.0


From 72b6ff8706b3404a609eb6e4b37f1f15ae70c9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:03 +0000
Subject: [PATCH 15/34] fix: a failure to store the thread context was ignored

The exit callbacks and values were never cleaned up in this case, and the
context leaked with every further call.
---
 src/tss_pthread.cpp | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/tss_pthread.cpp b/src/tss_pthread.cpp
index 5c8a49f..cffc45f 100644
--- a/src/tss_pthread.cpp
+++ b/src/tss_pthread.cpp
@@ -20,7 +20,9 @@
 #include <cstddef>
 #include <cstdlib>
 #include <pthread.h>
+#include <boost/sync/detail/throw_exception.hpp>
 #include <boost/sync/detail/tss.hpp>
+#include <boost/sync/exceptions/resource_error.hpp>
 #include <boost/sync/condition_variables/notify_all_at_thread_exit.hpp>
 #include "tss_manager.hpp"
 #include <boost/sync/detail/header.hpp>
@@ -47,10 +49,12 @@ BOOST_FORCEINLINE tss_manager::thread_context* get_thread_context() BOOST_NOEXCE
 {
     return tss_context;
 }
-BOOST_FORCEINLINE void set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
+BOOST_FORCEINLINE int set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
 {
-    pthread_setspecific(tss_key, p);
-    tss_context = p;
+    const int err = pthread_setspecific(tss_key, p);
+    if (err == 0)
+        tss_context = p;
+    return err;
 }
 
 #else // defined(BOOST_SYNC_DETAIL_TLS)
@@ -59,9 +63,9 @@ BOOST_FORCEINLINE tss_manager::thread_context* get_thread_context() BOOST_NOEXCE
 {
     return static_cast< tss_manager::thread_context* >(pthread_getspecific(tss_key));
 }
-BOOST_FORCEINLINE void set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
+BOOST_FORCEINLINE int set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
 {
-    pthread_setspecific(tss_key, p);
+    return pthread_setspecific(tss_key, p);
 }
 
 #endif // defined(BOOST_SYNC_DETAIL_TLS)
@@ -96,6 +100,19 @@ static void init_tss()
 
 } // extern "C"
 
+//! Creates the context of the calling thread
+tss_manager::thread_context* create_thread_context()
+{
+    tss_manager::thread_context* ctx = tss_mgr->create_thread_context();
+    const int err = set_thread_context(ctx);
+    if (BOOST_UNLIKELY(err != 0))
+    {
+        tss_mgr->destroy_thread_context(ctx);
+        BOOST_SYNC_DETAIL_THROW(resource_error, (err)("failed to store the thread context in TLS"));
+    }
+    return ctx;
+}
+
 } // namespace
 
 BOOST_SYNC_API void add_thread_exit_notify_entry(sync::mutex& mtx, sync::condition_variable& cond)
@@ -104,10 +121,7 @@ BOOST_SYNC_API void add_thread_exit_notify_entry(sync::mutex& mtx, sync::conditi
     tss_manager::thread_context* ctx = get_thread_context();
 
     if (!ctx)
-    {
-        ctx = tss_mgr->create_thread_context();
-        set_thread_context(ctx);
-    }
+        ctx = create_thread_context();
 
     ctx->add_notify_at_exit_entry(&mtx, &cond);
 }
@@ -118,10 +132,7 @@ BOOST_SYNC_API void add_thread_exit_callback(at_thread_exit_callback callback, v
     tss_manager::thread_context* ctx = get_thread_context();
 
     if (!ctx)
-    {
-        ctx = tss_mgr->create_thread_context();
-        set_thread_context(ctx);
-    }
+        ctx = create_thread_context();
 
     ctx->add_at_exit_entry(callback, context);
 }
@@ -157,10 +168,7 @@ BOOST_SYNC_API void set_thread_specific(thread_specific_key key, void* p)
     tss_manager::thread_context* ctx = get_thread_context();
 
     if (!ctx)
-    {
-        ctx = tss_mgr->create_thread_context();
-        set_thread_context(ctx);
-    }
+        ctx = create_thread_context();
 
     tss_mgr->set_value(ctx, key, p);
 }
-- 
2.43.0


From 4569f497eb9eab74df402ff112b2f383b7955b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:52 +0000
Subject: [PATCH 16/34] fix: conversions between lock kinds did not compile

The converting constructors accessed private members of the other lock class.
---
 include/boost/sync/locks/shared_lock.hpp  | 4 ++--
 include/boost/sync/locks/unique_lock.hpp  | 2 +-
 include/boost/sync/locks/upgrade_lock.hpp | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/sync/locks/shared_lock.hpp b/include/boost/sync/locks/shared_lock.hpp
index b825433..f034cc0 100644
--- a/include/boost/sync/locks/shared_lock.hpp
+++ b/include/boost/sync/locks/shared_lock.hpp
@@ -104,7 +104,7 @@ public:
 
     // Conversion from unique locking
     explicit shared_lock(BOOST_RV_REF(unique_lock< mutex_type >) that) :
-        m_mutex(that.m_mutex), m_is_locked(that.m_is_locked)
+        m_mutex(that.mutex()), m_is_locked(that.owns_lock())
     {
         if (m_is_locked)
             m_mutex->unlock_and_lock_shared();
@@ -112,7 +112,7 @@ public:
     }
 
     explicit shared_lock(BOOST_RV_REF(upgrade_lock< mutex_type >) that) :
-        m_mutex(that.m_mutex), m_is_locked(that.m_is_locked)
+        m_mutex(that.mutex()), m_is_locked(that.owns_lock())
     {
         if (m_is_locked)
             m_mutex->unlock_upgrade_and_lock_shared();
diff --git a/include/boost/sync/locks/unique_lock.hpp b/include/boost/sync/locks/unique_lock.hpp
index 98bd74a..4844d90 100644
--- a/include/boost/sync/locks/unique_lock.hpp
+++ b/include/boost/sync/locks/unique_lock.hpp
@@ -103,7 +103,7 @@ public:
     }
 
     explicit unique_lock(BOOST_RV_REF(upgrade_lock< mutex_type >) that) :
-        m_mutex(that.m_mutex), m_is_locked(that.m_is_locked)
+        m_mutex(that.mutex()), m_is_locked(that.owns_lock())
     {
         if (m_is_locked)
             m_mutex->unlock_upgrade_and_lock();
diff --git a/include/boost/sync/locks/upgrade_lock.hpp b/include/boost/sync/locks/upgrade_lock.hpp
index 765fe24..8fe0645 100644
--- a/include/boost/sync/locks/upgrade_lock.hpp
+++ b/include/boost/sync/locks/upgrade_lock.hpp
@@ -103,7 +103,7 @@ public:
     }
 
     explicit upgrade_lock(BOOST_RV_REF(unique_lock< mutex_type >) that) :
-        m_mutex(that.m_mutex), m_is_locked(that.m_is_locked)
+        m_mutex(that.mutex()), m_is_locked(that.owns_lock())
     {
         if (m_is_locked)
             m_mutex->unlock_and_lock_upgrade();
-- 
2.43.0


From 479be7072777a72678a268769a346c45693cf767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:42 +0000
Subject: [PATCH 17/34] fix: deadlines of steady clocks with a coarser duration
 type did not compile

The current time of the clock was converted to the time_point type of the
deadline, which is a narrowing conversion unless the deadline has at least the
resolution of the clock.
---
 .../basic_condition_variable_windows.hpp                  | 8 +++-----
 .../condition_variables/condition_variable_posix.hpp      | 8 +++-----
 .../boost/sync/detail/events/auto_reset_event_futex.hpp   | 8 +++-----
 include/boost/sync/detail/events/basic_event_windows.hpp  | 8 +++-----
 .../boost/sync/detail/events/manual_reset_event_futex.hpp | 8 +++-----
 include/boost/sync/detail/mutexes/timed_mutex_posix.hpp   | 8 +++-----
 include/boost/sync/detail/mutexes/timed_mutex_windows.hpp | 8 +++-----
 .../boost/sync/detail/semaphore/basic_semaphore_mach.hpp  | 8 +++-----
 .../boost/sync/detail/semaphore/semaphore_dispatch.hpp    | 8 +++-----
 include/boost/sync/detail/semaphore/semaphore_posix.hpp   | 8 +++-----
 include/boost/sync/detail/semaphore/semaphore_windows.hpp | 8 +++-----
 include/boost/sync/detail/time_traits.hpp                 | 6 ++++++
 12 files changed, 39 insertions(+), 55 deletions(-)

diff --git a/include/boost/sync/detail/condition_variables/basic_condition_variable_windows.hpp b/include/boost/sync/detail/condition_variables/basic_condition_variable_windows.hpp
index c6d8789..7ae1f6d 100644
--- a/include/boost/sync/detail/condition_variables/basic_condition_variable_windows.hpp
+++ b/include/boost/sync/detail/condition_variables/basic_condition_variable_windows.hpp
@@ -239,13 +239,11 @@ public:
     template< typename Lockable, typename TimePoint >
     sync::cv_status timed_wait(Lockable& lock, sync::detail::chrono_time_point< TimePoint > const& t)
     {
-        typedef TimePoint time_point;
-        typedef typename time_point::clock clock;
-        typedef typename time_point::duration duration;
-        time_point now = clock::now();
+        typedef typename TimePoint::clock clock;
+        typename clock::time_point now = clock::now();
         while (now < t.get())
         {
-            if (timed_wait(lock, sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)) == sync::cv_status::no_timeout)
+            if (timed_wait(lock, sync::detail::to_sync_unit(t.get() - now)) == sync::cv_status::no_timeout)
                 return sync::cv_status::no_timeout;
             now = clock::now();
         }
diff --git a/include/boost/sync/detail/condition_variables/condition_variable_posix.hpp b/include/boost/sync/detail/condition_variables/condition_variable_posix.hpp
index fa4ff7e..cdf2ebc 100644
--- a/include/boost/sync/detail/condition_variables/condition_variable_posix.hpp
+++ b/include/boost/sync/detail/condition_variables/condition_variable_posix.hpp
@@ -234,13 +234,11 @@ private:
     template< typename Mutex, typename TimePoint >
     sync::cv_status priv_timed_wait(unique_lock< Mutex >& lock, sync::detail::chrono_time_point< TimePoint > const& t)
     {
-        typedef TimePoint time_point;
-        typedef typename time_point::clock clock;
-        typedef typename time_point::duration duration;
-        time_point now = clock::now();
+        typedef typename TimePoint::clock clock;
+        typename clock::time_point now = clock::now();
         while (now < t.get())
         {
-            if (priv_timed_wait(lock, sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)) == sync::cv_status::no_timeout)
+            if (priv_timed_wait(lock, sync::detail::to_sync_unit(t.get() - now)) == sync::cv_status::no_timeout)
                 return sync::cv_status::no_timeout;
             now = clock::now();
         }
diff --git a/include/boost/sync/detail/events/auto_reset_event_futex.hpp b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
index 6226635..4a5b028 100644
--- a/include/boost/sync/detail/events/auto_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
@@ -280,13 +280,11 @@ private:
     template< typename TimePoint >
     bool priv_timed_wait(sync::detail::chrono_time_point< TimePoint > const& t)
     {
-        typedef TimePoint time_point;
-        typedef typename time_point::clock clock;
-        typedef typename time_point::duration duration;
-        time_point now = clock::now();
+        typedef typename TimePoint::clock clock;
+        typename clock::time_point now = clock::now();
         do
         {
-            if (priv_timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
+            if (priv_timed_wait(sync::detail::to_sync_unit(t.get() - now)))
                 return true;
             now = clock::now();
         }
diff --git a/include/boost/sync/detail/events/basic_event_windows.hpp b/include/boost/sync/detail/events/basic_event_windows.hpp
index 0a78185..323c82f 100644
--- a/include/boost/sync/detail/events/basic_event_windows.hpp
+++ b/include/boost/sync/detail/events/basic_event_windows.hpp
@@ -171,13 +171,11 @@ public:
     template< typename TimePoint >
     bool timed_wait(sync::detail::chrono_time_point< TimePoint > const& t)
     {
-        typedef TimePoint time_point;
-        typedef typename time_point::clock clock;
-        typedef typename time_point::duration duration;
-        time_point now = clock::now();
+        typedef typename TimePoint::clock clock;
+        typename clock::time_point now = clock::now();
         do
         {
-            if (timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
+            if (timed_wait(sync::detail::to_sync_unit(t.get() - now)))
                 return true;
             now = clock::now();
         }
diff --git a/include/boost/sync/detail/events/manual_reset_event_futex.hpp b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
index 44334f0..ffa45d0 100644
--- a/include/boost/sync/detail/events/manual_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
@@ -180,13 +180,11 @@ private:
     template< typename TimePoint >
     bool priv_timed_wait(sync::detail::chrono_time_point< TimePoint > const& t)
     {
-        typedef TimePoint time_point;
-        typedef typename time_point::clock clock;
-        typedef typename time_point::duration duration;
-        time_point now = clock::now();
+        typedef typename TimePoint::clock clock;
+        typename clock::time_point now = clock::now();
         do
         {
-            if (priv_timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
+            if (priv_timed_wait(sync::detail::to_sync_unit(t.get() - now)))
                 return true;
             now = clock::now();
         }
diff --git a/include/boost/sync/detail/mutexes/timed_mutex_posix.hpp b/include/boost/sync/detail/mutexes/timed_mutex_posix.hpp
index 13c0ac4..7b6f4c2 100644
--- a/include/boost/sync/detail/mutexes/timed_mutex_posix.hpp
+++ b/include/boost/sync/detail/mutexes/timed_mutex_posix.hpp
@@ -249,13 +249,11 @@ private:
         if (try_lock())
             return true;
 
-        typedef TimePoint time_point;
-        typedef typename time_point::clock clock;
-        typedef typename time_point::duration duration;
-        time_point now = clock::now();
+        typedef typename TimePoint::clock clock;
+        typename clock::time_point now = clock::now();
         while (now < t.get())
         {
-            if (priv_timed_lock(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
+            if (priv_timed_lock(sync::detail::to_sync_unit(t.get() - now)))
                 return true;
             now = clock::now();
         }
diff --git a/include/boost/sync/detail/mutexes/timed_mutex_windows.hpp b/include/boost/sync/detail/mutexes/timed_mutex_windows.hpp
index de549e9..751b894 100644
--- a/include/boost/sync/detail/mutexes/timed_mutex_windows.hpp
+++ b/include/boost/sync/detail/mutexes/timed_mutex_windows.hpp
@@ -210,13 +210,11 @@ private:
     template< typename TimePoint >
     bool priv_timed_lock(sync::detail::chrono_time_point< TimePoint > const& t)
     {
-        typedef TimePoint time_point;
-        typedef typename time_point::clock clock;
-        typedef typename time_point::duration duration;
-        time_point now = clock::now();
+        typedef typename TimePoint::clock clock;
+        typename clock::time_point now = clock::now();
         while (now < t.get())
         {
-            if (priv_timed_lock(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
+            if (priv_timed_lock(sync::detail::to_sync_unit(t.get() - now)))
                 return true;
             now = clock::now();
         }
diff --git a/include/boost/sync/detail/semaphore/basic_semaphore_mach.hpp b/include/boost/sync/detail/semaphore/basic_semaphore_mach.hpp
index 19ee1e0..af698f5 100644
--- a/include/boost/sync/detail/semaphore/basic_semaphore_mach.hpp
+++ b/include/boost/sync/detail/semaphore/basic_semaphore_mach.hpp
@@ -134,13 +134,11 @@ public:
     template< typename TimePoint >
     bool timed_wait(sync::detail::chrono_time_point< TimePoint > const& t)
     {
-        typedef TimePoint time_point;
-        typedef typename time_point::clock clock;
-        typedef typename time_point::duration duration;
-        time_point now = clock::now();
+        typedef typename TimePoint::clock clock;
+        typename clock::time_point now = clock::now();
         while (now < t.get())
         {
-            if (timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
+            if (timed_wait(sync::detail::to_sync_unit(t.get() - now)))
                 return true;
             now = clock::now();
         }
diff --git a/include/boost/sync/detail/semaphore/semaphore_dispatch.hpp b/include/boost/sync/detail/semaphore/semaphore_dispatch.hpp
index fad42d7..40123be 100644
--- a/include/boost/sync/detail/semaphore/semaphore_dispatch.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_dispatch.hpp
@@ -126,13 +126,11 @@ private:
     template< typename TimePoint >
     bool priv_timed_wait(sync::detail::chrono_time_point< TimePoint > const& t)
     {
-        typedef TimePoint time_point;
-        typedef typename time_point::clock clock;
-        typedef typename time_point::duration duration;
-        time_point now = clock::now();
+        typedef typename TimePoint::clock clock;
+        typename clock::time_point now = clock::now();
         do
         {
-            if (priv_timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
+            if (priv_timed_wait(sync::detail::to_sync_unit(t.get() - now)))
                 return true;
             now = clock::now();
         } while (now < t.get());
diff --git a/include/boost/sync/detail/semaphore/semaphore_posix.hpp b/include/boost/sync/detail/semaphore/semaphore_posix.hpp
index bb47380..3a8db1a 100644
--- a/include/boost/sync/detail/semaphore/semaphore_posix.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_posix.hpp
@@ -174,13 +174,11 @@ private:
     template< typename TimePoint >
     bool priv_timed_wait(sync::detail::chrono_time_point< TimePoint > const& t)
     {
-        typedef TimePoint time_point;
-        typedef typename time_point::clock clock;
-        typedef typename time_point::duration duration;
-        time_point now = clock::now();
+        typedef typename TimePoint::clock clock;
+        typename clock::time_point now = clock::now();
         do
         {
-            if (priv_timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
+            if (priv_timed_wait(sync::detail::to_sync_unit(t.get() - now)))
                 return true;
             now = clock::now();
         } while (now < t.get());
diff --git a/include/boost/sync/detail/semaphore/semaphore_windows.hpp b/include/boost/sync/detail/semaphore/semaphore_windows.hpp
index 657afce..956cd0f 100644
--- a/include/boost/sync/detail/semaphore/semaphore_windows.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_windows.hpp
@@ -179,13 +179,11 @@ private:
     template< typename TimePoint >
     bool priv_timed_wait(sync::detail::chrono_time_point< TimePoint > const& t)
     {
-        typedef TimePoint time_point;
-        typedef typename time_point::clock clock;
-        typedef typename time_point::duration duration;
-        time_point now = clock::now();
+        typedef typename TimePoint::clock clock;
+        typename clock::time_point now = clock::now();
         do
         {
-            if (priv_timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
+            if (priv_timed_wait(sync::detail::to_sync_unit(t.get() - now)))
                 return true;
             now = clock::now();
         }
diff --git a/include/boost/sync/detail/time_traits.hpp b/include/boost/sync/detail/time_traits.hpp
index 90b4f18..62e342e 100644
--- a/include/boost/sync/detail/time_traits.hpp
+++ b/include/boost/sync/detail/time_traits.hpp
@@ -56,6 +56,12 @@ struct is_time_tag_of : mpl::false_ {};
 template< typename T >
 struct is_time_tag_of< T, typename time_traits< T >::tag > : mpl::true_ {};
 
+template< typename T >
+inline typename time_traits< T >::unit_type to_sync_unit(T const& t)
+{
+    return time_traits< T >::to_sync_unit(t);
+}
+
 } // namespace detail
 
 } // namespace sync
-- 
2.43.0


From a115cf4f1c72f6f87e2d2d9136df475403850d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:29 +0000
Subject: [PATCH 18/34] fix: waits until the earliest time of a clock blocked
 instead of timing out

The time left was computed before checking that the deadline is still ahead,
so that the subtraction overflowed and became a huge positive duration.
---
 include/boost/sync/detail/events/auto_reset_event_futex.hpp | 5 ++---
 include/boost/sync/detail/events/basic_event_windows.hpp    | 5 ++---
 .../boost/sync/detail/events/manual_reset_event_futex.hpp   | 5 ++---
 include/boost/sync/detail/semaphore/semaphore_dispatch.hpp  | 6 +++---
 include/boost/sync/detail/semaphore/semaphore_posix.hpp     | 6 +++---
 include/boost/sync/detail/semaphore/semaphore_windows.hpp   | 5 ++---
 6 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_futex.hpp b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
index 4a5b028..0560be5 100644
--- a/include/boost/sync/detail/events/auto_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
@@ -282,15 +282,14 @@ private:
     {
         typedef typename TimePoint::clock clock;
         typename clock::time_point now = clock::now();
-        do
+        while (now < t.get())
         {
             if (priv_timed_wait(sync::detail::to_sync_unit(t.get() - now)))
                 return true;
             now = clock::now();
         }
-        while (now < t.get());
 
-        return false;
+        return try_wait();
     }
 
     bool on_wait_timed_out()
diff --git a/include/boost/sync/detail/events/basic_event_windows.hpp b/include/boost/sync/detail/events/basic_event_windows.hpp
index 323c82f..a850d6f 100644
--- a/include/boost/sync/detail/events/basic_event_windows.hpp
+++ b/include/boost/sync/detail/events/basic_event_windows.hpp
@@ -173,15 +173,14 @@ public:
     {
         typedef typename TimePoint::clock clock;
         typename clock::time_point now = clock::now();
-        do
+        while (now < t.get())
         {
             if (timed_wait(sync::detail::to_sync_unit(t.get() - now)))
                 return true;
             now = clock::now();
         }
-        while (now < t.get());
 
-        return false;
+        return try_wait();
     }
 
 private:
diff --git a/include/boost/sync/detail/events/manual_reset_event_futex.hpp b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
index ffa45d0..49aeaaa 100644
--- a/include/boost/sync/detail/events/manual_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
@@ -182,15 +182,14 @@ private:
     {
         typedef typename TimePoint::clock clock;
         typename clock::time_point now = clock::now();
-        do
+        while (now < t.get())
         {
             if (priv_timed_wait(sync::detail::to_sync_unit(t.get() - now)))
                 return true;
             now = clock::now();
         }
-        while (now < t.get());
 
-        return false;
+        return try_wait();
     }
 
 private:
diff --git a/include/boost/sync/detail/semaphore/semaphore_dispatch.hpp b/include/boost/sync/detail/semaphore/semaphore_dispatch.hpp
index 40123be..d6190a1 100644
--- a/include/boost/sync/detail/semaphore/semaphore_dispatch.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_dispatch.hpp
@@ -128,13 +128,13 @@ private:
     {
         typedef typename TimePoint::clock clock;
         typename clock::time_point now = clock::now();
-        do
+        while (now < t.get())
         {
             if (priv_timed_wait(sync::detail::to_sync_unit(t.get() - now)))
                 return true;
             now = clock::now();
-        } while (now < t.get());
-        return false;
+        }
+        return try_wait();
     }
 
 private:
diff --git a/include/boost/sync/detail/semaphore/semaphore_posix.hpp b/include/boost/sync/detail/semaphore/semaphore_posix.hpp
index 3a8db1a..18c7f7d 100644
--- a/include/boost/sync/detail/semaphore/semaphore_posix.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_posix.hpp
@@ -176,13 +176,13 @@ private:
     {
         typedef typename TimePoint::clock clock;
         typename clock::time_point now = clock::now();
-        do
+        while (now < t.get())
         {
             if (priv_timed_wait(sync::detail::to_sync_unit(t.get() - now)))
                 return true;
             now = clock::now();
-        } while (now < t.get());
-        return false;
+        }
+        return try_wait();
     }
 
 private:
diff --git a/include/boost/sync/detail/semaphore/semaphore_windows.hpp b/include/boost/sync/detail/semaphore/semaphore_windows.hpp
index 956cd0f..d78efb0 100644
--- a/include/boost/sync/detail/semaphore/semaphore_windows.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_windows.hpp
@@ -181,15 +181,14 @@ private:
     {
         typedef typename TimePoint::clock clock;
         typename clock::time_point now = clock::now();
-        do
+        while (now < t.get())
         {
             if (priv_timed_wait(sync::detail::to_sync_unit(t.get() - now)))
                 return true;
             now = clock::now();
         }
-        while (now < t.get());
 
-        return false;
+        return try_wait();
     }
 
 private:
-- 
2.43.0


From 7ad961252198efbf26fd3b0cae13f040f748a436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:12 +0000
Subject: [PATCH 19/34] fix: lock objects did not compile with
 BOOST_SYNC_USE_STD_SYSTEM_ERROR

std::errc is a scoped enumeration and does not convert to int.
---
 include/boost/sync/exceptions/lock_error.hpp     | 4 ++++
 include/boost/sync/exceptions/resource_error.hpp | 4 ++++
 include/boost/sync/exceptions/wait_error.hpp     | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/include/boost/sync/exceptions/lock_error.hpp b/include/boost/sync/exceptions/lock_error.hpp
index 0bd7042..e7ff402 100644
--- a/include/boost/sync/exceptions/lock_error.hpp
+++ b/include/boost/sync/exceptions/lock_error.hpp
@@ -44,6 +44,10 @@ public:
     {
     }
 
+    lock_error(sync::detail::errc_t err, const char* what) : runtime_exception(static_cast< int >(err), what)
+    {
+    }
+
     ~lock_error() BOOST_NOEXCEPT_OR_NOTHROW
     {
     }
diff --git a/include/boost/sync/exceptions/resource_error.hpp b/include/boost/sync/exceptions/resource_error.hpp
index d1a5747..3a02001 100644
--- a/include/boost/sync/exceptions/resource_error.hpp
+++ b/include/boost/sync/exceptions/resource_error.hpp
@@ -54,6 +54,10 @@ public:
     {
     }
 
+    resource_error(sync::detail::errc_t err, const char* what) : runtime_exception(static_cast< int >(err), what)
+    {
+    }
+
     ~resource_error() BOOST_NOEXCEPT_OR_NOTHROW
     {
     }
diff --git a/include/boost/sync/exceptions/wait_error.hpp b/include/boost/sync/exceptions/wait_error.hpp
index 170acf3..cb6212b 100644
--- a/include/boost/sync/exceptions/wait_error.hpp
+++ b/include/boost/sync/exceptions/wait_error.hpp
@@ -44,6 +44,10 @@ public:
     {
     }
 
+    wait_error(sync::detail::errc_t err, const char* what) : runtime_exception(static_cast< int >(err), what)
+    {
+    }
+
     ~wait_error() BOOST_NOEXCEPT_OR_NOTHROW
     {
     }
-- 
2.43.0


From 727329614d263d5391e39729396f56efed9c104b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:54 +0000
Subject: [PATCH 20/34] fix: timed_mutex constructor leaked the mutex when
 pthread_cond_init failed

---
 include/boost/sync/detail/mutexes/timed_mutex_posix.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/sync/detail/mutexes/timed_mutex_posix.hpp b/include/boost/sync/detail/mutexes/timed_mutex_posix.hpp
index 7b6f4c2..f8f2b35 100644
--- a/include/boost/sync/detail/mutexes/timed_mutex_posix.hpp
+++ b/include/boost/sync/detail/mutexes/timed_mutex_posix.hpp
@@ -104,7 +104,10 @@ public:
 #if !defined(BOOST_SYNC_DETAIL_PTHREAD_HAS_TIMEDLOCK)
         res = pthread_cond_init(&m_cond, NULL);
         if (BOOST_UNLIKELY(res != 0))
+        {
+            BOOST_VERIFY(sync::detail::posix::pthread_mutex_destroy(&m_mutex) == 0);
             BOOST_SYNC_DETAIL_THROW(resource_error, (res)("timed_mutex constructor failed in pthread_cond_init"));
+        }
         m_is_locked = false;
 #endif
     }
-- 
2.43.0


From f6f9cad4de6631629ef9bc78d95c888ede928b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:25 +0000
Subject: [PATCH 21/34] fix: shared_spin_mutex.hpp did not compile on its own

The spin mutex headers use BOOST_ASSERT without including its header.
---
 include/boost/sync/detail/mutexes/shared_spin_mutex.hpp | 1 +
 include/boost/sync/detail/mutexes/spin_mutex.hpp        | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/include/boost/sync/detail/mutexes/shared_spin_mutex.hpp b/include/boost/sync/detail/mutexes/shared_spin_mutex.hpp
index c096aca..686163b 100644
--- a/include/boost/sync/detail/mutexes/shared_spin_mutex.hpp
+++ b/include/boost/sync/detail/mutexes/shared_spin_mutex.hpp
@@ -19,6 +19,7 @@
 #ifndef BOOST_SYNC_DETAIL_MUTEXES_SHARED_SPIN_MUTEX_HPP_INCLUDED_
 #define BOOST_SYNC_DETAIL_MUTEXES_SHARED_SPIN_MUTEX_HPP_INCLUDED_
 
+#include <boost/assert.hpp>
 #include <boost/cstdint.hpp>
 
 #include <boost/sync/detail/atomic.hpp>
diff --git a/include/boost/sync/detail/mutexes/spin_mutex.hpp b/include/boost/sync/detail/mutexes/spin_mutex.hpp
index 2c42527..bb5d5ee 100644
--- a/include/boost/sync/detail/mutexes/spin_mutex.hpp
+++ b/include/boost/sync/detail/mutexes/spin_mutex.hpp
@@ -16,6 +16,8 @@
 #ifndef BOOST_SYNC_DETAIL_MUTEXES_SPIN_MUTEX_HPP_INCLUDED_
 #define BOOST_SYNC_DETAIL_MUTEXES_SPIN_MUTEX_HPP_INCLUDED_
 
+#include <boost/assert.hpp>
+
 #include <boost/sync/detail/atomic.hpp>
 #include <boost/sync/detail/pause.hpp>
 
-- 
2.43.0


From d7178a6bc34001330898089de215aa673758f95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:24 +0000
Subject: [PATCH 22/34] fix: semaphore based auto_reset_event lost posts after
 a timed wait failed with an exception

---
 .../events/auto_reset_event_semaphore.hpp     | 58 ++++++++++++++-----
 1 file changed, 45 insertions(+), 13 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp b/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
index ad01c26..9788b72 100644
--- a/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
@@ -32,6 +32,27 @@ BOOST_SYNC_DETAIL_OPEN_ABI_NAMESPACE {
 
 class auto_reset_event
 {
+private:
+    //! Unregisters the waiter if the wait fails with an exception (e.g. thrown by the clock)
+    class waiter_guard
+    {
+        auto_reset_event* m_event;
+
+    public:
+        explicit waiter_guard(auto_reset_event& event) BOOST_NOEXCEPT : m_event(&event) {}
+        ~waiter_guard()
+        {
+            // If there is a post for this waiter, it must not be lost
+            if (m_event && !m_event->priv_unregister_waiter())
+                m_event->post();
+        }
+        void dismiss() BOOST_NOEXCEPT { m_event = NULL; }
+
+        BOOST_DELETED_FUNCTION(waiter_guard(waiter_guard const&));
+        BOOST_DELETED_FUNCTION(waiter_guard& operator= (waiter_guard const&));
+    };
+    friend class waiter_guard;
+
     BOOST_DELETED_FUNCTION(auto_reset_event(auto_reset_event const&))
     BOOST_DELETED_FUNCTION(auto_reset_event& operator= (auto_reset_event const&));
 
@@ -88,21 +109,14 @@ public:
     {
         m_state.fetch_add(1, detail::atomic_ns::memory_order_acquire);
 
-        if (m_sem.timed_wait(timeout))
-            return true;
-
-        int32_t old_state = m_state.load(detail::atomic_ns::memory_order_relaxed);
-        while (old_state > 0)
-        {
-            if (m_state.compare_exchange_weak(old_state, old_state - 1, detail::atomic_ns::memory_order_relaxed, detail::atomic_ns::memory_order_relaxed))
-                return false;
+        waiter_guard guard(*this);
+        const bool acquired = m_sem.timed_wait(timeout);
+        guard.dismiss();
 
-            detail::pause();
-        }
+        if (acquired || !priv_unregister_waiter())
+            return true;
 
-        // There is a post for every registered waiter, including this one, so the semaphore is released or about to be released
-        m_sem.wait();
-        return true;
+        return false;
     }
 
     template< typename Duration >
@@ -117,6 +131,24 @@ public:
         return timed_wait(abs_time);
     }
 
+private:
+    //! Unregisters the waiter. Returns \c false if there is a post for it, in which case the post is consumed.
+    bool priv_unregister_waiter()
+    {
+        int32_t old_state = m_state.load(detail::atomic_ns::memory_order_relaxed);
+        while (old_state > 0)
+        {
+            if (m_state.compare_exchange_weak(old_state, old_state - 1, detail::atomic_ns::memory_order_relaxed, detail::atomic_ns::memory_order_relaxed))
+                return true;
+
+            detail::pause();
+        }
+
+        // There is a post for every registered waiter, including this one, so the semaphore is released or about to be released
+        m_sem.wait();
+        return false;
+    }
+
 private:
     semaphore m_sem;
     detail::atomic_ns::atomic< int32_t > m_state;
-- 
2.43.0


From 92d3b999c4c87ccc371e37808f876d3ca5a04412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:49 +0000
Subject: [PATCH 23/34] fix: futex based auto_reset_event lost posts with more
 than 1023 blocked threads

The post counter had only 10 bits and overflowed, which discarded all outstanding posts.
---
 include/boost/sync/detail/events/auto_reset_event_futex.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_futex.hpp b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
index 0560be5..74496ac 100644
--- a/include/boost/sync/detail/events/auto_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
@@ -42,9 +42,10 @@ class auto_reset_event
 private:
     // State bits are divided into post count and waiter count. Post counter is needed to wake
     // the correct number of threads blocked on the event in case if multiple concurrent posts are made.
+    // There can be as many outstanding posts as there are waiters (plus one), so both counters need the same range.
     enum
     {
-        wait_count_bits = 22u,
+        wait_count_bits = 16u,
         post_count_one = 1u << wait_count_bits,
         post_count_mask = 0u - post_count_one,
         wait_count_mask = post_count_one - 1u
-- 
2.43.0


From 48fc0ccda022f1279bfe352879d83e167e97ff11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:43 +0000
Subject: [PATCH 24/34] fix: try_wait and timed waits of the semaphore based
 auto_reset_event could block forever if another thread consumed the post

---
 .../events/auto_reset_event_semaphore.hpp     | 30 +++++++++++--------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp b/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
index 9788b72..d7832b5 100644
--- a/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
@@ -86,18 +86,17 @@ public:
 
     bool try_wait()
     {
-        // Only register as a waiter if there is a signal to consume. A failing attempt must not be visible to concurrent post() calls,
-        // or they would release the semaphore for a thread that is not going to wait on it.
-        int32_t old_state = m_state.load(detail::atomic_ns::memory_order_relaxed);
-        while (old_state < 0)
+        // A failing attempt must not be visible to concurrent post() calls, or they would release the semaphore for a thread that is not
+        // going to wait on it. So the signal is taken from the semaphore first, and then the state is updated.
+        while (m_state.load(detail::atomic_ns::memory_order_relaxed) < 0)
         {
-            if (m_state.compare_exchange_weak(old_state, old_state + 1, detail::atomic_ns::memory_order_acquire, detail::atomic_ns::memory_order_relaxed))
+            if (m_sem.try_wait())
             {
-                // The semaphore is released or about to be released by the post() that signalled the event
-                m_sem.wait();
+                m_state.fetch_add(1, detail::atomic_ns::memory_order_acquire);
                 return true;
             }
 
+            // Either the semaphore is about to be released by a post() or the state is about to be updated by the thread that consumed the signal
             detail::pause();
         }
 
@@ -135,17 +134,22 @@ private:
     //! Unregisters the waiter. Returns \c false if there is a post for it, in which case the post is consumed.
     bool priv_unregister_waiter()
     {
-        int32_t old_state = m_state.load(detail::atomic_ns::memory_order_relaxed);
-        while (old_state > 0)
+        // Note that this must not block on the semaphore as the post can be consumed by another thread that starts waiting in the meantime
+        while (!m_sem.try_wait())
         {
-            if (m_state.compare_exchange_weak(old_state, old_state - 1, detail::atomic_ns::memory_order_relaxed, detail::atomic_ns::memory_order_relaxed))
-                return true;
+            int32_t old_state = m_state.load(detail::atomic_ns::memory_order_relaxed);
+            while (old_state > 0)
+            {
+                if (m_state.compare_exchange_weak(old_state, old_state - 1, detail::atomic_ns::memory_order_relaxed, detail::atomic_ns::memory_order_relaxed))
+                    return true;
 
+                detail::pause();
+            }
+
+            // There is a post for every registered waiter, including this one, so the semaphore is about to be released
             detail::pause();
         }
 
-        // There is a post for every registered waiter, including this one, so the semaphore is released or about to be released
-        m_sem.wait();
         return false;
     }
 
-- 
2.43.0


From 770437fe497590bb68bbdc03d633f99b4cafbbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:46 +0000
Subject: [PATCH 25/34] fix: reset of the futex based manual_reset_event could
 miss a preceding coalesced set on weakly ordered machines

---
 include/boost/sync/detail/events/manual_reset_event_futex.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/sync/detail/events/manual_reset_event_futex.hpp b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
index 49aeaaa..dc161f5 100644
--- a/include/boost/sync/detail/events/manual_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
@@ -62,7 +62,8 @@ public:
 
     void reset() BOOST_NOEXCEPT
     {
-        m_state.opaque_and(wait_count_mask, boost::memory_order_relaxed);
+        // A set() preceding this reset may have found the event already signalled. Synchronize with it so that its effects are not missed.
+        m_state.opaque_and(wait_count_mask, boost::memory_order_acquire);
     }
 
     void wait() BOOST_NOEXCEPT
-- 
2.43.0


From 93f11634079cafd0dbaf9fb3a4498d99de717323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:08 +0000
Subject: [PATCH 26/34] fix: destroying a thread_specific_ptr allocated memory
 and terminated the program when there was none

---
 src/tss_manager.hpp | 56 ++++++++++++++++++++++++++++++---------------
 1 file changed, 38 insertions(+), 18 deletions(-)

diff --git a/src/tss_manager.hpp b/src/tss_manager.hpp
index a407d02..d2628e3 100644
--- a/src/tss_manager.hpp
+++ b/src/tss_manager.hpp
@@ -15,7 +15,6 @@
 #ifndef BOOST_SYNC_IMPL_TSS_MANAGER_HPP_INCLUDED_
 #define BOOST_SYNC_IMPL_TSS_MANAGER_HPP_INCLUDED_
 
-#include <stack>
 #include <vector>
 #include <boost/assert.hpp>
 #include <boost/intrusive/options.hpp>
@@ -119,7 +118,7 @@ private:
     //! The list of cleanup functions for TLS
     std::vector< cleanup_info > m_storage_cleanup;
     //! The list of TLS keys released
-    std::stack< thread_specific_key > m_freed_keys;
+    std::vector< thread_specific_key > m_freed_keys;
 
 public:
     BOOST_DEFAULTED_FUNCTION(tss_manager(), {})
@@ -217,8 +216,8 @@ public:
         thread_specific_key key;
         if (!m_freed_keys.empty())
         {
-            key = m_freed_keys.top();
-            m_freed_keys.pop();
+            key = m_freed_keys.back();
+            m_freed_keys.pop_back();
             cleanup_info& info = m_storage_cleanup[key];
             info.cleanup = cleanup;
             info.cleanup_at_delete = cleanup_at_delete;
@@ -226,6 +225,11 @@ public:
         else
         {
             key = static_cast< thread_specific_key >(m_storage_cleanup.size());
+
+            // Make sure the key can be deleted without allocating memory
+            if (m_freed_keys.capacity() <= key)
+                m_freed_keys.reserve(key * 2u + 1u);
+
             cleanup_info info;
             info.cleanup = cleanup;
             info.cleanup_at_delete = cleanup_at_delete;
@@ -244,29 +248,45 @@ public:
         cleanup_info& info = m_storage_cleanup[key];
         if (info.cleanup_at_delete)
         {
-            std::vector< void* > storage;
             const at_thread_exit_callback cleanup = info.cleanup;
-            info.cleanup = NULL;
 
-            for (thread_context_list::iterator it = m_thread_contexts.begin(), end = m_thread_contexts.end(); it != end; ++it)
+            // This function must not fail, so no memory can be allocated to collect the values. Process them in small portions.
+            bool completed;
+            do
             {
-                if (it->m_storage.size() > key && it->m_storage[key] != NULL)
+                void* storage[4];
+                unsigned int count = 0u;
+
+                thread_context_list::iterator it = m_thread_contexts.begin(), end = m_thread_contexts.end();
+                for (; it != end && count < sizeof(storage) / sizeof(*storage); ++it)
                 {
-                    if (cleanup)
-                        storage.push_back(it->m_storage[key]);
-                    it->m_storage[key] = NULL;
+                    if (it->m_storage.size() > key && it->m_storage[key] != NULL)
+                    {
+                        if (cleanup)
+                            storage[count++] = it->m_storage[key];
+                        it->m_storage[key] = NULL;
+                    }
                 }
-            }
 
-            m_freed_keys.push(key);
+                completed = it == end;
+                if (completed)
+                {
+                    m_storage_cleanup[key].cleanup = NULL;
+                    m_freed_keys.push_back(key);
+                }
 
-            lock.unlock();
+                lock.unlock();
 
-            // Run cleanup routines while the lock is released
-            for (std::vector< void* >::iterator it = storage.begin(), end = storage.end(); it != end; ++it)
-            {
-                cleanup(*it);
+                // Run cleanup routines while the lock is released
+                for (unsigned int i = 0u; i < count; ++i)
+                {
+                    cleanup(storage[i]);
+                }
+
+                if (!completed)
+                    lock.lock();
             }
+            while (!completed);
         }
     }
 
-- 
2.43.0


From b59ae40bb33cd58e5fd6b7e20a529ff064087011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:47 +0000
Subject: [PATCH 27/34] fix: the slow path of the Windows mutexes acquired the
 lock without acquire semantics

---
 include/boost/sync/detail/mutexes/basic_mutex_windows.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/sync/detail/mutexes/basic_mutex_windows.hpp b/include/boost/sync/detail/mutexes/basic_mutex_windows.hpp
index 0146dc2..7722974 100644
--- a/include/boost/sync/detail/mutexes/basic_mutex_windows.hpp
+++ b/include/boost/sync/detail/mutexes/basic_mutex_windows.hpp
@@ -131,7 +131,7 @@ public:
         {
             const boost::uint32_t was_locked = (old_count & lock_flag_value);
             const boost::uint32_t new_count = was_locked ? (old_count + 1u) : (old_count | lock_flag_value);
-            if (m_active_count.compare_exchange_weak(old_count, new_count, boost::memory_order_relaxed, boost::memory_order_relaxed))
+            if (m_active_count.compare_exchange_weak(old_count, new_count, boost::memory_order_acquire, boost::memory_order_relaxed))
             {
                 if (was_locked)
                     old_count = new_count;
@@ -147,7 +147,7 @@ public:
         while (true)
         {
             const boost::uint32_t new_count = ((old_count & lock_flag_value) ? old_count : ((old_count - 1u) | lock_flag_value)) & ~static_cast< boost::uint32_t >(event_set_flag_value);
-            if (m_active_count.compare_exchange_weak(old_count, new_count, boost::memory_order_relaxed, boost::memory_order_relaxed))
+            if (m_active_count.compare_exchange_weak(old_count, new_count, boost::memory_order_acquire, boost::memory_order_relaxed))
                 break;
         }
     }
-- 
2.43.0


From e9d4d1a42f32a50335a6ee0f1db371a69416d823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:47 +0000
Subject: [PATCH 28/34] fix: unlock of the Windows mutexes accessed the mutex
 after releasing it and could throw

---
 .../detail/mutexes/basic_mutex_windows.hpp    | 24 +++++++++++++------
 .../detail/mutexes/timed_mutex_windows.hpp    |  8 ++++---
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/include/boost/sync/detail/mutexes/basic_mutex_windows.hpp b/include/boost/sync/detail/mutexes/basic_mutex_windows.hpp
index 7722974..5105c07 100644
--- a/include/boost/sync/detail/mutexes/basic_mutex_windows.hpp
+++ b/include/boost/sync/detail/mutexes/basic_mutex_windows.hpp
@@ -81,15 +81,24 @@ public:
 
     void unlock() BOOST_NOEXCEPT
     {
-        BOOST_CONSTEXPR_OR_CONST boost::uint32_t offset = lock_flag_value;
-        const boost::uint32_t old_count = m_active_count.fetch_add(offset, boost::memory_order_release);
-        if ((old_count & event_set_flag_value) == 0u && (old_count > offset))
+        boost::uint32_t old_count = m_active_count.load(boost::memory_order_acquire), new_count;
+        boost::winapi::HANDLE_ event;
+        do
         {
-            if (!m_active_count.bit_test_and_set(event_set_flag_bit, boost::memory_order_relaxed))
+            new_count = old_count & ~static_cast< boost::uint32_t >(lock_flag_value);
+            event = NULL;
+            if ((new_count & event_set_flag_value) == 0u && new_count > 0u)
             {
-                boost::winapi::SetEvent(get_event());
+                // Note: The event has been created by the waiting thread. The handle has to be obtained before the mutex is unlocked because
+                // the next owner may destroy the mutex.
+                new_count |= event_set_flag_value;
+                event = reinterpret_cast< boost::winapi::HANDLE_ >(m_event.load(boost::memory_order_relaxed));
             }
         }
+        while (!m_active_count.compare_exchange_weak(old_count, new_count, boost::memory_order_release, boost::memory_order_acquire));
+
+        if (event)
+            BOOST_VERIFY(boost::winapi::SetEvent(event) != 0);
     }
 
     bool try_lock()
@@ -125,13 +134,14 @@ public:
         return reinterpret_cast< boost::winapi::HANDLE_ >(event);
     }
 
+    //! Either locks the mutex or registers the calling thread as a waiting one. The event has to be created before that, see unlock().
     void mark_waiting_and_try_lock(boost::uint32_t& old_count)
     {
         while (true)
         {
             const boost::uint32_t was_locked = (old_count & lock_flag_value);
             const boost::uint32_t new_count = was_locked ? (old_count + 1u) : (old_count | lock_flag_value);
-            if (m_active_count.compare_exchange_weak(old_count, new_count, boost::memory_order_acquire, boost::memory_order_relaxed))
+            if (m_active_count.compare_exchange_weak(old_count, new_count, boost::memory_order_acq_rel, boost::memory_order_relaxed))
             {
                 if (was_locked)
                     old_count = new_count;
@@ -158,12 +168,12 @@ public:
 private:
     void priv_lock()
     {
+        boost::winapi::HANDLE_ const evt = get_event();
         boost::uint32_t old_count = m_active_count.load(boost::memory_order_acquire);
         mark_waiting_and_try_lock(old_count);
 
         if (old_count & lock_flag_value) try
         {
-            boost::winapi::HANDLE_ const evt = get_event();
             do
             {
                 const boost::winapi::DWORD_ retval = boost::winapi::WaitForSingleObject(evt, boost::winapi::infinite);
diff --git a/include/boost/sync/detail/mutexes/timed_mutex_windows.hpp b/include/boost/sync/detail/mutexes/timed_mutex_windows.hpp
index 751b894..ed2ae2d 100644
--- a/include/boost/sync/detail/mutexes/timed_mutex_windows.hpp
+++ b/include/boost/sync/detail/mutexes/timed_mutex_windows.hpp
@@ -110,6 +110,9 @@ public:
 private:
     bool priv_timed_lock(sync::detail::system_time_point const& t)
     {
+        boost::winapi::HANDLE_ handles[2];
+        handles[0] = m_mutex.get_event();
+
         boost::uint32_t old_count = m_mutex.m_active_count.load(boost::memory_order_acquire);
         m_mutex.mark_waiting_and_try_lock(old_count);
         if ((old_count & sync::detail::windows::basic_mutex::lock_flag_value) == 0u)
@@ -117,8 +120,6 @@ private:
 
         try
         {
-            boost::winapi::HANDLE_ handles[2];
-            handles[0] = m_mutex.get_event();
             handles[1] = sync::detail::windows::get_waitable_timer();
 
             if (BOOST_UNLIKELY(!boost::winapi::SetWaitableTimer(handles[1], reinterpret_cast< const boost::winapi::LARGE_INTEGER_* >(&t.get()), 0, NULL, NULL, false)))
@@ -162,6 +163,8 @@ private:
 
     bool priv_timed_lock(sync::detail::system_duration t)
     {
+        const boost::winapi::HANDLE_ evt = m_mutex.get_event();
+
         boost::uint32_t old_count = m_mutex.m_active_count.load(boost::memory_order_acquire);
         m_mutex.mark_waiting_and_try_lock(old_count);
         if ((old_count & sync::detail::windows::basic_mutex::lock_flag_value) == 0u)
@@ -169,7 +172,6 @@ private:
 
         try
         {
-            const boost::winapi::HANDLE_ evt = m_mutex.get_event();
             sync::detail::system_duration::native_type time_left = t.get();
             while (time_left > 0)
             {
-- 
2.43.0


From bfbb767a58a0f0b975288a0f3afef23a2476e74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:47 +0000
Subject: [PATCH 29/34] fix: unsynchronized read of the initialization state of
 the Windows waitable timers

---
 include/boost/sync/detail/waitable_timer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/sync/detail/waitable_timer.hpp b/include/boost/sync/detail/waitable_timer.hpp
index 64cb8e1..3c5328f 100644
--- a/include/boost/sync/detail/waitable_timer.hpp
+++ b/include/boost/sync/detail/waitable_timer.hpp
@@ -302,7 +302,8 @@ inline boost::winapi::HANDLE_ get_waitable_timer()
 {
     waitable_timer_state& state = weak_linkage< waitable_timer_state >::value;
 
-    if (state.initialized != waitable_timer_state::st_initialized)
+    // Note: the read has to be synchronized with the thread that initializes the state
+    if (BOOST_INTERLOCKED_COMPARE_EXCHANGE(&state.initialized, waitable_timer_state::st_initialized, waitable_timer_state::st_initialized) != waitable_timer_state::st_initialized)
         state.init();
 
     waitable_timer_state::thread_local_context* p =
-- 
2.43.0


From efa51276e655352e6a6578252742958f8d9c07d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:47 +0000
Subject: [PATCH 30/34] fix: timed waits of the Windows semaphore reported
 errors as lock_error

---
 include/boost/sync/detail/semaphore/semaphore_windows.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/sync/detail/semaphore/semaphore_windows.hpp b/include/boost/sync/detail/semaphore/semaphore_windows.hpp
index d78efb0..8fbd288 100644
--- a/include/boost/sync/detail/semaphore/semaphore_windows.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_windows.hpp
@@ -171,7 +171,7 @@ private:
         case boost::winapi::wait_failed:
             {
                 const boost::winapi::DWORD_ err = boost::winapi::GetLastError();
-                BOOST_SYNC_DETAIL_THROW(lock_error, (err)("semaphore::timed_wait failed in WaitForMultipleObjects"));
+                BOOST_SYNC_DETAIL_THROW(wait_error, (err)("semaphore::timed_wait failed in WaitForMultipleObjects"));
             }
         }
     }
-- 
2.43.0


From d9b8b1f9dc55a649555eb620c4927f40826a651c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:47 +0000
Subject: [PATCH 31/34] fix: unsynchronized read of the initialization flag of
 thread-specific storage on Windows XP

---
 src/tss_windows.cpp | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/tss_windows.cpp b/src/tss_windows.cpp
index 480ee2e..af55459 100644
--- a/src/tss_windows.cpp
+++ b/src/tss_windows.cpp
@@ -84,21 +84,19 @@ BOOST_FORCEINLINE void init_tss_once()
 
 BOOST_FORCEINLINE void init_tss_once() BOOST_NOEXCEPT
 {
-    if (const_cast< long volatile& >(init_tss_once_flag) != 2)
+    while (true)
     {
-        while (true)
+        // Note: the flag has to be read with synchronization, the calling thread is going to use what another thread has initialized
+        long old_val = BOOST_INTERLOCKED_COMPARE_EXCHANGE(&init_tss_once_flag, 1, 0);
+        if (old_val == 2)
+            break;
+        else if (old_val == 1)
+            SwitchToThread();
+        else
         {
-            long old_val = BOOST_INTERLOCKED_COMPARE_EXCHANGE(&init_tss_once_flag, 1, 0);
-            if (old_val == 2)
-                break;
-            else if (old_val == 1)
-                SwitchToThread();
-            else
-            {
-                init_tss(NULL, NULL, NULL);
-                BOOST_INTERLOCKED_EXCHANGE(&init_tss_once_flag, 2);
-                break;
-            }
+            init_tss(NULL, NULL, NULL);
+            BOOST_INTERLOCKED_EXCHANGE(&init_tss_once_flag, 2);
+            break;
         }
     }
 }
-- 
2.43.0


From b9f92967e93d47ead5585ffac578e58d28ab3f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:47 +0000
Subject: [PATCH 32/34] fix: timed operations with a duration of the Windows
 timed_mutex and condition variables restarted the duration after a wakeup

---
 .../basic_condition_variable_windows.hpp      | 87 ++++---------------
 .../detail/mutexes/timed_mutex_windows.hpp    | 62 +++----------
 include/boost/sync/detail/waitable_timer.hpp  |  9 ++
 3 files changed, 39 insertions(+), 119 deletions(-)

diff --git a/include/boost/sync/detail/condition_variables/basic_condition_variable_windows.hpp b/include/boost/sync/detail/condition_variables/basic_condition_variable_windows.hpp
index 7ae1f6d..323c8a7 100644
--- a/include/boost/sync/detail/condition_variables/basic_condition_variable_windows.hpp
+++ b/include/boost/sync/detail/condition_variables/basic_condition_variable_windows.hpp
@@ -207,33 +207,15 @@ public:
     template< typename Lockable >
     sync::cv_status timed_wait(Lockable& lock, sync::detail::system_duration t)
     {
-        relocker< Lockable > unlocker(lock);
-
-        waiter_state* const state = initiate_wait();
-
-        unlocker.unlock();
-
-        return priv_timed_wait(state, t);
+        // Note: The duration must not be restarted when the thread is woken up but there is no notification
+        const int64_t due_time = sync::detail::windows::get_relative_due_time(t);
+        return priv_timed_wait(lock, reinterpret_cast< const boost::winapi::LARGE_INTEGER_* >(&due_time));
     }
 
     template< typename Lockable >
     sync::cv_status timed_wait(Lockable& lock, sync::detail::system_time_point const& t)
     {
-        relocker< Lockable > unlocker(lock);
-
-        const boost::winapi::HANDLE_ waitable_timer = sync::detail::windows::get_waitable_timer();
-
-        if (BOOST_UNLIKELY(!boost::winapi::SetWaitableTimer(waitable_timer, reinterpret_cast< const boost::winapi::LARGE_INTEGER_* >(&t.get()), 0, NULL, NULL, false)))
-        {
-            const boost::winapi::DWORD_ err = boost::winapi::GetLastError();
-            BOOST_SYNC_DETAIL_THROW(wait_error, (err)("condition_variable timed_wait failed to set a timeout"));
-        }
-
-        waiter_state* const state = initiate_wait();
-
-        unlocker.unlock();
-
-        return priv_timed_wait(state, waitable_timer);
+        return priv_timed_wait(lock, reinterpret_cast< const boost::winapi::LARGE_INTEGER_* >(&t.get()));
     }
 
     template< typename Lockable, typename TimePoint >
@@ -352,59 +334,24 @@ private:
         }
     }
 
-    sync::cv_status priv_timed_wait(waiter_state* state, sync::detail::system_duration t)
+    template< typename Lockable >
+    sync::cv_status priv_timed_wait(Lockable& lock, const boost::winapi::LARGE_INTEGER_* due_time)
     {
-        sync::detail::system_duration::native_type time_left = t.get();
-        while (time_left > 0)
-        {
-            const boost::winapi::DWORD_ dur = time_left > boost::winapi::max_non_infinite_wait ?
-                boost::winapi::max_non_infinite_wait : static_cast< boost::winapi::DWORD_ >(time_left);
-            const boost::winapi::DWORD_ res = boost::winapi::WaitForSingleObject(state->m_semaphore, dur);
-            switch (res)
-            {
-            case boost::winapi::wait_object_0: // condition variable was signalled
-                {
-                    boost::sync::lock_guard< mutex_type > internal_lock(m_internal_mutex);
-                    if (state->m_notify_count > 0u)
-                    {
-                        // Total waiter count is already actual here (see wake_waiters)
-                        --state->m_notify_count;
-                        --state->m_waiter_count;
-                        return sync::cv_status::no_timeout;
-                    }
-                }
-                break;
-
-            case boost::winapi::wait_timeout: // timeout expired
-                time_left -= dur;
-                break;
+        relocker< Lockable > unlocker(lock);
 
-            default: // error occurred
-                {
-                    const boost::winapi::DWORD_ err = boost::winapi::GetLastError();
-                    {
-                        boost::sync::lock_guard< mutex_type > internal_lock(m_internal_mutex);
-                        --state->m_waiter_count;
-                        if (state->m_notify_count > 0u)
-                            --state->m_notify_count;
-                        else
-                            m_total_waiter_count.opaque_sub(1u, boost::memory_order_relaxed);
-                    }
-                    BOOST_SYNC_DETAIL_THROW(wait_error, (err)("condition_variable timed_wait failed in WaitForSingleObject"));
-                }
-            }
-        }
+        const boost::winapi::HANDLE_ waitable_timer = sync::detail::windows::get_waitable_timer();
 
-        boost::sync::lock_guard< mutex_type > internal_lock(m_internal_mutex);
-        --state->m_waiter_count;
-        if (state->m_notify_count > 0u)
+        if (BOOST_UNLIKELY(!boost::winapi::SetWaitableTimer(waitable_timer, due_time, 0, NULL, NULL, false)))
         {
-            // Total waiter count is already actual here (see wake_waiters)
-            --state->m_notify_count;
-            return sync::cv_status::no_timeout;
+            const boost::winapi::DWORD_ err = boost::winapi::GetLastError();
+            BOOST_SYNC_DETAIL_THROW(wait_error, (err)("condition_variable timed_wait failed to set a timeout"));
         }
-        m_total_waiter_count.opaque_sub(1u, boost::memory_order_relaxed);
-        return sync::cv_status::timeout;
+
+        waiter_state* const state = initiate_wait();
+
+        unlocker.unlock();
+
+        return priv_timed_wait(state, waitable_timer);
     }
 
     sync::cv_status priv_timed_wait(waiter_state* state, boost::winapi::HANDLE_ waitable_timer)
diff --git a/include/boost/sync/detail/mutexes/timed_mutex_windows.hpp b/include/boost/sync/detail/mutexes/timed_mutex_windows.hpp
index ed2ae2d..fbfbe00 100644
--- a/include/boost/sync/detail/mutexes/timed_mutex_windows.hpp
+++ b/include/boost/sync/detail/mutexes/timed_mutex_windows.hpp
@@ -109,6 +109,18 @@ public:
 
 private:
     bool priv_timed_lock(sync::detail::system_time_point const& t)
+    {
+        return priv_timed_lock(reinterpret_cast< const boost::winapi::LARGE_INTEGER_* >(&t.get()));
+    }
+
+    bool priv_timed_lock(sync::detail::system_duration t)
+    {
+        // Note: The duration must not be restarted when the thread is woken up but fails to lock the mutex
+        const int64_t due_time = sync::detail::windows::get_relative_due_time(t);
+        return priv_timed_lock(reinterpret_cast< const boost::winapi::LARGE_INTEGER_* >(&due_time));
+    }
+
+    bool priv_timed_lock(const boost::winapi::LARGE_INTEGER_* due_time)
     {
         boost::winapi::HANDLE_ handles[2];
         handles[0] = m_mutex.get_event();
@@ -122,7 +134,7 @@ private:
         {
             handles[1] = sync::detail::windows::get_waitable_timer();
 
-            if (BOOST_UNLIKELY(!boost::winapi::SetWaitableTimer(handles[1], reinterpret_cast< const boost::winapi::LARGE_INTEGER_* >(&t.get()), 0, NULL, NULL, false)))
+            if (BOOST_UNLIKELY(!boost::winapi::SetWaitableTimer(handles[1], due_time, 0, NULL, NULL, false)))
             {
                 const boost::winapi::DWORD_ err = boost::winapi::GetLastError();
                 BOOST_SYNC_DETAIL_THROW(lock_error, (err)("timed_mutex::timed_lock failed to set a timeout"));
@@ -161,54 +173,6 @@ private:
         }
     }
 
-    bool priv_timed_lock(sync::detail::system_duration t)
-    {
-        const boost::winapi::HANDLE_ evt = m_mutex.get_event();
-
-        boost::uint32_t old_count = m_mutex.m_active_count.load(boost::memory_order_acquire);
-        m_mutex.mark_waiting_and_try_lock(old_count);
-        if ((old_count & sync::detail::windows::basic_mutex::lock_flag_value) == 0u)
-            return true;
-
-        try
-        {
-            sync::detail::system_duration::native_type time_left = t.get();
-            while (time_left > 0)
-            {
-                const boost::winapi::DWORD_ dur = time_left > boost::winapi::max_non_infinite_wait ?
-                    boost::winapi::max_non_infinite_wait : static_cast< boost::winapi::DWORD_ >(time_left);
-                const boost::winapi::DWORD_ res = boost::winapi::WaitForSingleObject(evt, dur);
-                switch (res)
-                {
-                case boost::winapi::wait_object_0:
-                    m_mutex.clear_waiting_and_try_lock(old_count);
-                    if ((old_count & sync::detail::windows::basic_mutex::lock_flag_value) == 0)
-                        return true;
-                    break;
-
-                case boost::winapi::wait_timeout:
-                    time_left -= dur;
-                    break;
-
-                default:
-                    {
-                        const boost::winapi::DWORD_ err = boost::winapi::GetLastError();
-                        BOOST_SYNC_DETAIL_THROW(lock_error, (err)("timed_mutex::timed_lock failed in WaitForSingleObject"));
-                    }
-                }
-            }
-
-            m_mutex.m_active_count.opaque_sub(1u, boost::memory_order_relaxed);
-
-            return false;
-        }
-        catch (...)
-        {
-            m_mutex.m_active_count.opaque_sub(1u, boost::memory_order_relaxed);
-            throw;
-        }
-    }
-
     template< typename TimePoint >
     bool priv_timed_lock(sync::detail::chrono_time_point< TimePoint > const& t)
     {
diff --git a/include/boost/sync/detail/waitable_timer.hpp b/include/boost/sync/detail/waitable_timer.hpp
index 3c5328f..98c4e12 100644
--- a/include/boost/sync/detail/waitable_timer.hpp
+++ b/include/boost/sync/detail/waitable_timer.hpp
@@ -36,6 +36,7 @@
 #include <boost/sync/detail/config.hpp>
 #include <boost/sync/detail/weak_linkage.hpp>
 #include <boost/sync/detail/throw_exception.hpp>
+#include <boost/sync/detail/time_units.hpp>
 #include <boost/sync/exceptions/resource_error.hpp>
 #include <boost/sync/detail/header.hpp>
 
@@ -318,6 +319,14 @@ inline boost::winapi::HANDLE_ get_waitable_timer()
     return p->waitable_timer;
 }
 
+//! Returns the due time for a waitable timer that expires after the specified duration. Negative due times are relative.
+inline int64_t get_relative_due_time(sync::detail::system_duration dur) BOOST_NOEXCEPT
+{
+    const sync::detail::system_duration::native_type time_left = dur.get();
+    const sync::detail::system_duration::native_type max_time_left = static_cast< sync::detail::system_duration::native_type >(0x7FFFFFFFFFFFFFFFll / 10000);
+    return time_left <= 0 ? 0 : (time_left < max_time_left ? time_left : max_time_left) * -10000;
+}
+
 } // namespace windows
 
 } // namespace detail
-- 
2.43.0


From 9a8e772a5c82b45185368f683824f35e659a353f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:58 +0000
Subject: [PATCH 33/34] fix: on Windows, the end of a thread terminated the
 program when memory was short and thread-specific storage was not in use

---
 src/tss_windows.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/tss_windows.cpp b/src/tss_windows.cpp
index af55459..8765878 100644
--- a/src/tss_windows.cpp
+++ b/src/tss_windows.cpp
@@ -80,6 +80,12 @@ BOOST_FORCEINLINE void init_tss_once()
     InitOnceExecuteOnce(&init_tss_once_flag, (PINIT_ONCE_FN)&init_tss, NULL, NULL);
 }
 
+BOOST_FORCEINLINE bool is_tss_initialized() BOOST_NOEXCEPT
+{
+    BOOL pending = FALSE;
+    return InitOnceBeginInitialize(&init_tss_once_flag, INIT_ONCE_CHECK_ONLY, &pending, NULL) != FALSE;
+}
+
 #else // BOOST_USE_WINAPI_VERSION >= BOOST_WINAPI_VERSION_WIN6
 
 BOOST_FORCEINLINE void init_tss_once() BOOST_NOEXCEPT
@@ -101,6 +107,11 @@ BOOST_FORCEINLINE void init_tss_once() BOOST_NOEXCEPT
     }
 }
 
+BOOST_FORCEINLINE bool is_tss_initialized() BOOST_NOEXCEPT
+{
+    return BOOST_INTERLOCKED_COMPARE_EXCHANGE(&init_tss_once_flag, 2, 2) == 2;
+}
+
 #endif // BOOST_USE_WINAPI_VERSION >= BOOST_WINAPI_VERSION_WIN6
 
 #if defined(BOOST_SYNC_DETAIL_TLS)
@@ -153,8 +164,10 @@ void on_thread_enter()
 
 void on_thread_exit()
 {
-    // This callback may be called before tss manager is initialized
-    init_tss_once();
+    // This callback may be called before tss manager is initialized. In this case there is nothing to clean up.
+    if (!is_tss_initialized())
+        return;
+
     if (tss_manager::thread_context* ctx = get_thread_context())
     {
         tss_mgr->destroy_thread_context(ctx);
-- 
2.43.0


From cf6e5dac7bf53288d5400fc6f4dbcbc2f6fb5b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:13 +0000
Subject: [PATCH 34/34] fix: waiting on a Grand Central Dispatch semaphore
 until a time point at or before the epoch blocked forever

---
 include/boost/sync/detail/semaphore/semaphore_dispatch.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/sync/detail/semaphore/semaphore_dispatch.hpp b/include/boost/sync/detail/semaphore/semaphore_dispatch.hpp
index d6190a1..b99d01a 100644
--- a/include/boost/sync/detail/semaphore/semaphore_dispatch.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_dispatch.hpp
@@ -119,7 +119,12 @@ private:
     bool priv_timed_wait(sync::detail::system_time_point const& t)
     {
         struct timespec timespec_timeout = t.get();
-        dispatch_time_t timeout = dispatch_walltime( &timespec_timeout, 0 );
+
+        // Note: dispatch_walltime converts time points not later than 1 ns after the epoch to DISPATCH_TIME_FOREVER
+        dispatch_time_t timeout = DISPATCH_TIME_NOW;
+        if (timespec_timeout.tv_sec > 0 || (timespec_timeout.tv_sec == 0 && timespec_timeout.tv_nsec > 1))
+            timeout = dispatch_walltime( &timespec_timeout, 0 );
+
         return dispatch_semaphore_wait(m_sem, timeout) == 0;
     }
 
-- 
2.43.0

