From e386842c65d5186f3548c6001094fb01ef96304e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:55 +0000
Subject: [PATCH 01/35] fix: use signed arithmetic when offsetting POSIX time
 points by a duration

A negative duration (or a time point before the epoch) was converted through
an unsigned type and became a point centuries in the future, so timed waits
with negative timeouts blocked forever.
---
 include/boost/sync/detail/time_units.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/boost/sync/detail/time_units.hpp b/include/boost/sync/detail/time_units.hpp
index e7fe6fe..f64d3da 100644
--- a/include/boost/sync/detail/time_units.hpp
+++ b/include/boost/sync/detail/time_units.hpp
@@ -172,8 +172,9 @@ public:
     //! Creates time point from duration since 1970-Jan-01
     explicit system_time_point(system_duration dur) BOOST_NOEXCEPT
     {
-        m_value.tv_sec = static_cast< ::time_t >(dur.get() / subsecond_fraction);
-        m_value.tv_nsec = dur.get() % subsecond_fraction;
+        m_value.tv_sec = 0;
+        m_value.tv_nsec = 0;
+        operator+= (dur);
     }
 
     native_type const& get() const BOOST_NOEXCEPT { return m_value; }
@@ -195,15 +196,21 @@ public:
 
     system_time_point& operator+= (system_duration const& dur) BOOST_NOEXCEPT
     {
-        int64_t nsec = static_cast< int64_t >(m_value.tv_nsec) + dur.get();
-        int64_t tv_nsec = nsec % system_duration::subsecond_fraction;
+        // Note: The duration may be negative, so all arithmetics must be signed
+        const int64_t fraction = static_cast< int64_t >(subsecond_fraction);
+        int64_t tv_nsec = static_cast< int64_t >(m_value.tv_nsec) + dur.get() % fraction;
+        m_value.tv_sec += static_cast< ::time_t >(dur.get() / fraction);
         if (tv_nsec < 0)
         {
-            tv_nsec += subsecond_fraction;
+            tv_nsec += fraction;
             --m_value.tv_sec;
         }
+        else if (tv_nsec >= fraction)
+        {
+            tv_nsec -= fraction;
+            ++m_value.tv_sec;
+        }
         m_value.tv_nsec = static_cast< long >(tv_nsec);
-        m_value.tv_sec += nsec / system_duration::subsecond_fraction;
 
         return *this;
     }
-- 
2.43.0


From d3e0e4b65b7606e93717ec63e64c16f7e6870be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:55 +0000
Subject: [PATCH 02/35] fix: saturate the difference of distant POSIX time
 points

The multiplication overflowed for deadlines more than 292 years away, making
an event wait with such a deadline time out immediately.
---
 include/boost/sync/detail/time_units.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/sync/detail/time_units.hpp b/include/boost/sync/detail/time_units.hpp
index f64d3da..6e8e38b 100644
--- a/include/boost/sync/detail/time_units.hpp
+++ b/include/boost/sync/detail/time_units.hpp
@@ -234,7 +234,13 @@ public:
     {
         int64_t seconds = static_cast< int64_t >(left.m_value.tv_sec) - static_cast< int64_t >(right.m_value.tv_sec);
         int64_t nseconds = static_cast< int64_t >(left.m_value.tv_nsec) - static_cast< int64_t >(right.m_value.tv_nsec);
-        return system_duration(seconds * system_duration::subsecond_fraction + nseconds);
+        // Saturate the result if the difference is not representable in nanoseconds (about 292 years)
+        const int64_t max_seconds = 9223372035;
+        if (seconds > max_seconds)
+            seconds = max_seconds;
+        else if (seconds < -max_seconds)
+            seconds = -max_seconds;
+        return system_duration(seconds * static_cast< int64_t >(system_duration::subsecond_fraction) + nseconds);
     }
 };
 
-- 
2.43.0


From a89face88c797713f6c95d893db5a45621a760b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:55 +0000
Subject: [PATCH 03/35] fix: make manual_reset_event wait with non-system
 clocks compile on Linux

---
 include/boost/sync/detail/events/manual_reset_event_futex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/sync/detail/events/manual_reset_event_futex.hpp b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
index cb8b5c6..362a7d2 100644
--- a/include/boost/sync/detail/events/manual_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
@@ -193,7 +193,7 @@ private:
         time_point now = clock::now();
         do
         {
-            if (timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
+            if (priv_timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
                 return true;
             now = clock::now();
         }
-- 
2.43.0


From c23e4596af9f8bbadf890fd14e0c4920733371c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:01 +0000
Subject: [PATCH 04/35] fix: make conversions between lock types compile

The converting constructors accessed private members of unrelated classes.
---
 include/boost/sync/locks/shared_lock.hpp  | 4 ++--
 include/boost/sync/locks/unique_lock.hpp  | 2 +-
 include/boost/sync/locks/upgrade_lock.hpp | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/sync/locks/shared_lock.hpp b/include/boost/sync/locks/shared_lock.hpp
index b825433..f034cc0 100644
--- a/include/boost/sync/locks/shared_lock.hpp
+++ b/include/boost/sync/locks/shared_lock.hpp
@@ -104,7 +104,7 @@ public:
 
     // Conversion from unique locking
     explicit shared_lock(BOOST_RV_REF(unique_lock< mutex_type >) that) :
-        m_mutex(that.m_mutex), m_is_locked(that.m_is_locked)
+        m_mutex(that.mutex()), m_is_locked(that.owns_lock())
     {
         if (m_is_locked)
             m_mutex->unlock_and_lock_shared();
@@ -112,7 +112,7 @@ public:
     }
 
     explicit shared_lock(BOOST_RV_REF(upgrade_lock< mutex_type >) that) :
-        m_mutex(that.m_mutex), m_is_locked(that.m_is_locked)
+        m_mutex(that.mutex()), m_is_locked(that.owns_lock())
     {
         if (m_is_locked)
             m_mutex->unlock_upgrade_and_lock_shared();
diff --git a/include/boost/sync/locks/unique_lock.hpp b/include/boost/sync/locks/unique_lock.hpp
index 98bd74a..4844d90 100644
--- a/include/boost/sync/locks/unique_lock.hpp
+++ b/include/boost/sync/locks/unique_lock.hpp
@@ -103,7 +103,7 @@ public:
     }
 
     explicit unique_lock(BOOST_RV_REF(upgrade_lock< mutex_type >) that) :
-        m_mutex(that.m_mutex), m_is_locked(that.m_is_locked)
+        m_mutex(that.mutex()), m_is_locked(that.owns_lock())
     {
         if (m_is_locked)
             m_mutex->unlock_upgrade_and_lock();
diff --git a/include/boost/sync/locks/upgrade_lock.hpp b/include/boost/sync/locks/upgrade_lock.hpp
index 765fe24..8fe0645 100644
--- a/include/boost/sync/locks/upgrade_lock.hpp
+++ b/include/boost/sync/locks/upgrade_lock.hpp
@@ -103,7 +103,7 @@ public:
     }
 
     explicit upgrade_lock(BOOST_RV_REF(unique_lock< mutex_type >) that) :
-        m_mutex(that.m_mutex), m_is_locked(that.m_is_locked)
+        m_mutex(that.mutex()), m_is_locked(that.owns_lock())
     {
         if (m_is_locked)
             m_mutex->unlock_and_lock_upgrade();
-- 
2.43.0


From e9c2e3dbbbf938f74c894d97e1ffac904f0211ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:28 +0000
Subject: [PATCH 05/35] fix: don't restart relative timeouts of futex-based
 events on every wakeup

Signals, posts consumed by other threads and waiter count changes made the
wait start over with the full duration, so it could last indefinitely.
---
 .../detail/events/auto_reset_event_futex.hpp  | 54 +------------------
 .../events/manual_reset_event_futex.hpp       | 39 +-------------
 2 files changed, 4 insertions(+), 89 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_futex.hpp b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
index 1ca2db1..1fe2994 100644
--- a/include/boost/sync/detail/events/auto_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
@@ -219,58 +219,8 @@ private:
 
     bool priv_timed_wait(sync::detail::system_duration dur)
     {
-        // Try the fast path first
-        if (this->try_wait())
-            return true;
-
-        sync::detail::system_duration::native_type time_left = dur.get();
-        if (time_left <= 0)
-            return false;
-
-        // Add one waiter
-        unsigned int old_state = m_state.fetch_add(1, detail::atomic_ns::memory_order_relaxed);
-        while (true)
-        {
-            unsigned int posts = old_state >> wait_count_bits;
-            if (posts == 0)
-            {
-                ++old_state; // account for the waiter added above
-
-                while (true)
-                {
-                    const int status = sync::detail::linux_::futex_timedwait(reinterpret_cast< int* >(&m_state), old_state, time_left);
-                    if (status != 0)
-                    {
-                        const int err = errno;
-                        switch (err)
-                        {
-                        case ETIMEDOUT:
-                            return on_wait_timed_out();
-
-                        case EINTR:       // signal received
-                        case EWOULDBLOCK: // another thread changed the state
-                            break;
-
-                        default:
-                            BOOST_ASSERT(false);
-                        }
-                    }
-
-                    old_state = m_state.load(detail::atomic_ns::memory_order_relaxed);
-                    posts = old_state >> wait_count_bits;
-                    if (BOOST_LIKELY(posts > 0))
-                        break;
-                }
-            }
-
-            // Remove one post and one waiter from the counters
-            if (BOOST_LIKELY(m_state.compare_exchange_weak(old_state, old_state - (post_count_one + 1u), detail::atomic_ns::memory_order_acquire, detail::atomic_ns::memory_order_relaxed)))
-                break;
-
-            detail::pause();
-        }
-
-        return true;
+        // Wait until a fixed point in time, so that the timeout is not restarted on every wakeup
+        return priv_timed_wait(sync::detail::system_time_point::now() + dur);
     }
 
     template< typename TimePoint >
diff --git a/include/boost/sync/detail/events/manual_reset_event_futex.hpp b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
index 362a7d2..144bfa9 100644
--- a/include/boost/sync/detail/events/manual_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
@@ -145,43 +145,8 @@ private:
 
     bool priv_timed_wait(sync::detail::system_duration dur)
     {
-        // Try the fast path first
-        if (this->try_wait())
-            return true;
-
-        unsigned int old_state = m_state.add(wait_count_one, boost::memory_order_relaxed);
-        while ((old_state & post_bit) == 0u)
-        {
-            sync::detail::system_duration::native_type time_left = dur.get();
-            if (time_left <= 0)
-            {
-                m_state.opaque_sub(wait_count_one, boost::memory_order_relaxed);
-                return false;
-            }
-
-            // Check that system time resolution is nanoseconds
-            BOOST_STATIC_ASSERT(sync::detail::system_duration::subsecond_fraction == 1000000000u);
-            do
-            {
-                const int status = sync::detail::linux_::futex_timedwait(reinterpret_cast< int* >(&m_state.value()), old_state, time_left);
-                if (status != 0)
-                {
-                    const int err = errno;
-                    if (BOOST_LIKELY(err == ETIMEDOUT))
-                    {
-                        m_state.opaque_sub(wait_count_one, boost::memory_order_relaxed);
-                        return false;
-                    }
-                }
-
-                old_state = m_state.load(boost::memory_order_relaxed);
-            }
-            while ((old_state & post_bit) == 0u);
-        }
-
-        m_state.opaque_sub(wait_count_one, boost::memory_order_acquire);
-
-        return true;
+        // Wait until a fixed point in time, so that the timeout is not restarted on every wakeup
+        return priv_timed_wait(sync::detail::system_time_point::now() + dur);
     }
 
     template< typename TimePoint >
-- 
2.43.0


From fbf0740fbbf3cc1a0a8d40226c00f87f423f2ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:04 +0000
Subject: [PATCH 06/35] fix: don't restart relative timeouts of
 condition_variable_any predicate waits

As documented, a relative timeout denotes a deadline computed once on entry.
Notifications that don't satisfy the predicate must not extend the wait.
---
 .../condition_variable_any_generic.hpp        | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/include/boost/sync/detail/condition_variables/condition_variable_any_generic.hpp b/include/boost/sync/detail/condition_variables/condition_variable_any_generic.hpp
index 30fe69e..04e5175 100644
--- a/include/boost/sync/detail/condition_variables/condition_variable_any_generic.hpp
+++ b/include/boost/sync/detail/condition_variables/condition_variable_any_generic.hpp
@@ -21,6 +21,8 @@
 #include <boost/core/enable_if.hpp>
 #include <boost/sync/detail/config.hpp>
 #include <boost/sync/detail/time_traits.hpp>
+#include <boost/sync/detail/time_units.hpp>
+#include <boost/sync/support/posix_time.hpp>
 #include <boost/sync/locks/lock_guard.hpp>
 #include <boost/sync/locks/unique_lock.hpp>
 #include <boost/sync/mutexes/mutex.hpp>
@@ -113,9 +115,16 @@ public:
         return m_cond.timed_wait(internal_lock, t);
     }
 
-    template< typename Lock, typename Time, typename Predicate >
-    typename enable_if_c< sync::detail::time_traits< Time >::is_specialized, bool >::type
-    timed_wait(Lock& lock, Time const& t, Predicate pred)
+    template< typename Lock, typename Duration, typename Predicate >
+    typename detail::enable_if_tag< Duration, detail::time_duration_tag, bool >::type
+    timed_wait(Lock& lock, Duration const& t, Predicate pred)
+    {
+        return this->wait_for(lock, t, pred);
+    }
+
+    template< typename Lock, typename TimePoint, typename Predicate >
+    typename detail::enable_if_tag< TimePoint, detail::time_point_tag, bool >::type
+    timed_wait(Lock& lock, TimePoint const& t, Predicate pred)
     {
         while (!pred())
         {
@@ -161,12 +170,8 @@ public:
     typename detail::enable_if_tag< Duration, detail::time_duration_tag, bool >::type
     wait_for(Lock& lock, Duration const& rel_time, Predicate pred)
     {
-        while (!pred())
-        {
-            if (this->wait_for(lock, rel_time) != sync::cv_status::no_timeout)
-                return pred();
-        }
-        return true;
+        const sync::detail::system_time_point abs_timeout = sync::detail::system_time_point::now() + sync::detail::time_traits< Duration >::to_sync_unit(rel_time);
+        return this->wait_until(lock, abs_timeout.get(), pred);
     }
 
     BOOST_DELETED_FUNCTION(condition_variable_any(condition_variable_any const&))
-- 
2.43.0


From e1b003c5080d35eb4370f8af60b2a870cb1e0bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:04 +0000
Subject: [PATCH 07/35] fix: don't restart relative timeouts of emulated events
 and semaphore on every wakeup

---
 .../events/auto_reset_event_emulation.hpp     | 22 ++++++++++---------
 .../events/manual_reset_event_emulation.hpp   | 22 ++++++++++---------
 .../detail/semaphore/semaphore_emulation.hpp  | 22 ++++++++++---------
 3 files changed, 36 insertions(+), 30 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_emulation.hpp b/include/boost/sync/detail/events/auto_reset_event_emulation.hpp
index 358e368..399a074 100644
--- a/include/boost/sync/detail/events/auto_reset_event_emulation.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_emulation.hpp
@@ -36,6 +36,16 @@ class auto_reset_event
     BOOST_DELETED_FUNCTION(auto_reset_event(auto_reset_event const&));
     BOOST_DELETED_FUNCTION(auto_reset_event& operator= (auto_reset_event const&));
 
+private:
+    //! Wait condition, must be evaluated with the mutex locked
+    struct is_signalled
+    {
+        auto_reset_event const& m_this;
+
+        explicit is_signalled(auto_reset_event const& that) : m_this(that) {}
+        bool operator() () const { return m_this.m_is_set; }
+    };
+
 public:
     auto_reset_event() : m_is_set(false)
     {
@@ -75,16 +85,8 @@ public:
     typename enable_if_c< sync::detail::time_traits< Time >::is_specialized, bool >::type timed_wait(Time const& timeout)
     {
         sync::unique_lock< sync::mutex > lock(m_mutex);
-        while (!m_is_set)
-        {
-            if (!m_cond.timed_wait(lock, timeout))
-            {
-                if (!m_is_set)
-                    return false;
-                else
-                    break;
-            }
-        }
+        if (!m_cond.timed_wait(lock, timeout, is_signalled(*this)))
+            return false;
 
         m_is_set = false;
         return true;
diff --git a/include/boost/sync/detail/events/manual_reset_event_emulation.hpp b/include/boost/sync/detail/events/manual_reset_event_emulation.hpp
index b6183af..d8740ed 100644
--- a/include/boost/sync/detail/events/manual_reset_event_emulation.hpp
+++ b/include/boost/sync/detail/events/manual_reset_event_emulation.hpp
@@ -36,6 +36,16 @@ class manual_reset_event
     BOOST_DELETED_FUNCTION(manual_reset_event(manual_reset_event const&));
     BOOST_DELETED_FUNCTION(manual_reset_event& operator= (manual_reset_event const&));
 
+private:
+    //! Wait condition, must be evaluated with the mutex locked
+    struct is_signalled
+    {
+        manual_reset_event const& m_this;
+
+        explicit is_signalled(manual_reset_event const& that) : m_this(that) {}
+        bool operator() () const { return m_this.m_is_set; }
+    };
+
 public:
     manual_reset_event() : m_is_set(false)
     {
@@ -76,16 +86,8 @@ public:
     typename enable_if_c< sync::detail::time_traits< Time >::is_specialized, bool >::type timed_wait(Time const& timeout)
     {
         sync::unique_lock< sync::mutex > lock(m_mutex);
-        while (!m_is_set)
-        {
-            if (!m_cond.timed_wait(lock, timeout))
-            {
-                if (!m_is_set)
-                    return false;
-                else
-                    break;
-            }
-        }
+        if (!m_cond.timed_wait(lock, timeout, is_signalled(*this)))
+            return false;
 
         return true;
     }
diff --git a/include/boost/sync/detail/semaphore/semaphore_emulation.hpp b/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
index db69570..ec449e4 100644
--- a/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
@@ -36,6 +36,16 @@ class semaphore
     BOOST_DELETED_FUNCTION(semaphore(semaphore const&))
     BOOST_DELETED_FUNCTION(semaphore& operator=(semaphore const&))
 
+private:
+    //! Wait condition, must be evaluated with the mutex locked
+    struct is_signalled
+    {
+        semaphore const& m_this;
+
+        explicit is_signalled(semaphore const& that) : m_this(that) {}
+        bool operator() () const { return m_this.m_count > 0; }
+    };
+
 public:
     explicit semaphore(unsigned int i = 0) : m_count(i)
     {
@@ -71,16 +81,8 @@ public:
     typename enable_if_c< sync::detail::time_traits< Time >::is_specialized, bool >::type timed_wait(Time const& timeout)
     {
         sync::unique_lock< sync::mutex > lock(m_mutex);
-        while (m_count == 0)
-        {
-            if (!m_cond.timed_wait(lock, timeout))
-            {
-                if (m_count == 0)
-                    return false;
-                else
-                    break;
-            }
-        }
+        if (!m_cond.timed_wait(lock, timeout, is_signalled(*this)))
+            return false;
 
         --m_count;
         return true;
-- 
2.43.0


From 58519ae65ba3ce6516b54bd07e02219a3cfca6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:04 +0000
Subject: [PATCH 08/35] fix: make redundant auto_reset_event posts synchronize
 with the waiter

A release fence that is not followed by an atomic store doesn't synchronize
with anything: the data published before posting an already signalled event
could be invisible to the thread that consumed the signal.
---
 .../detail/events/auto_reset_event_futex.hpp  |  8 +++++--
 .../events/auto_reset_event_semaphore.hpp     | 22 ++++++++-----------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_futex.hpp b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
index 1fe2994..5c08a86 100644
--- a/include/boost/sync/detail/events/auto_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
@@ -72,8 +72,12 @@ public:
             }
             else
             {
-                detail::atomic_ns::atomic_thread_fence(detail::atomic_ns::memory_order_release);
-                return; // the event is already set (enough times so that all waiters are released and the event is still left signalled)
+                // The event is already set (enough times so that all waiters are released and the event is still left signalled).
+                // We still have to write the state for the waiter to synchronize with this thread.
+                if (m_state.compare_exchange_weak(old_state, old_state, detail::atomic_ns::memory_order_release, detail::atomic_ns::memory_order_relaxed))
+                    return;
+
+                detail::pause();
             }
         }
 
diff --git a/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp b/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
index ec8a449..66531b4 100644
--- a/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
@@ -43,24 +43,20 @@ public:
     void post() BOOST_NOEXCEPT
     {
         int32_t old_state = m_state.load(detail::atomic_ns::memory_order_relaxed);
-        if (old_state >= 0)
+        for (;;)
         {
-            for (;;)
+            // If someone else has set the auto_reset_event with no waiters, the state does not change. We still have to write it
+            // for the waiter to synchronize with this thread.
+            const int32_t new_state = old_state >= 0 ? old_state - 1 : old_state;
+            if (m_state.compare_exchange_weak(old_state, new_state, detail::atomic_ns::memory_order_release, detail::atomic_ns::memory_order_relaxed))
             {
-                if (m_state.compare_exchange_weak(old_state, old_state - 1, detail::atomic_ns::memory_order_release, detail::atomic_ns::memory_order_relaxed))
-                {
+                if (old_state >= 0)
                     m_sem.post();
-                    return; // avoid unnecessary fence
-                }
-
-                if (old_state < 0)
-                    break; // someone else has set the auto_reset_event with no waiters
-
-                detail::pause();
+                return;
             }
-        }
 
-        detail::atomic_ns::atomic_thread_fence(detail::atomic_ns::memory_order_release);
+            detail::pause();
+        }
     }
 
     void wait()
-- 
2.43.0


From 45dd488391591e739b339d3e11382be0b42ea73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:04 +0000
Subject: [PATCH 09/35] fix: don't let a failed wait on the semaphore-based
 auto_reset_event leave an extra signal

If the event was posted twice while a timed wait was giving up, the state was
decremented below the signalled state and two subsequent waits succeeded.
---
 .../events/auto_reset_event_semaphore.hpp     | 31 ++++++++++++++-----
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp b/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
index 66531b4..398bf61 100644
--- a/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
@@ -67,13 +67,19 @@ public:
 
     bool try_wait()
     {
-        m_state.fetch_add(1, detail::atomic_ns::memory_order_acquire);
+        int32_t old_state = m_state.load(detail::atomic_ns::memory_order_relaxed);
+        while (old_state < 0)
+        {
+            if (m_state.compare_exchange_weak(old_state, old_state + 1, detail::atomic_ns::memory_order_acquire, detail::atomic_ns::memory_order_relaxed))
+            {
+                // The semaphore has been posted or is about to be
+                m_sem.wait();
+                return true;
+            }
 
-        const bool wait_successful = m_sem.try_wait();
-        if (wait_successful)
-            return true;
+            detail::pause();
+        }
 
-        m_state.fetch_add(-1, detail::atomic_ns::memory_order_relaxed);
         return false;
     }
 
@@ -86,8 +92,19 @@ public:
         if (wait_successful)
             return true;
 
-        m_state.fetch_add(-1, detail::atomic_ns::memory_order_relaxed);
-        return false;
+        // Remove this thread from the waiters, unless a concurrent post has already released it
+        int32_t old_state = m_state.load(detail::atomic_ns::memory_order_relaxed);
+        while (old_state > 0)
+        {
+            if (m_state.compare_exchange_weak(old_state, old_state - 1, detail::atomic_ns::memory_order_relaxed, detail::atomic_ns::memory_order_relaxed))
+                return false;
+
+            detail::pause();
+        }
+
+        // The semaphore has been posted or is about to be
+        m_sem.wait();
+        return true;
     }
 
     template< typename Duration >
-- 
2.43.0


From 534f7cf20f8f391fd26cfb04cddbf5775490a3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:32 +0000
Subject: [PATCH 10/35] fix: synchronize thread-specific storage cleanup with
 creation and destruction of keys

A terminating thread accessed the list of cleanup functions without locking the
mutex and detached its values from the list that is visited when a key is deleted,
and the storage of a thread was resized while another thread deleting a key could
iterate over it. Values could be leaked, destroyed twice or destroyed by the
cleanup function of an unrelated key, if the process didn't crash.
---
 src/tss_manager.hpp | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/tss_manager.hpp b/src/tss_manager.hpp
index 6cd7648..3456d73 100644
--- a/src/tss_manager.hpp
+++ b/src/tss_manager.hpp
@@ -66,11 +66,17 @@ public:
         };
 
     private:
+        //! The mutex of the manager, protects the size of the storage and the values that are being destroyed
+        sync::mutex& m_manager_mutex;
         std::vector< void* > m_storage;
         std::vector< at_exit_entry > m_at_exit_functions;
         std::vector< notify_at_exit_entry > m_notify_at_exit;
 
     public:
+        explicit thread_context(sync::mutex& manager_mutex) : m_manager_mutex(manager_mutex)
+        {
+        }
+
         void* get_value(thread_specific_key key) const BOOST_NOEXCEPT
         {
             if (key < m_storage.size())
@@ -82,7 +88,11 @@ public:
         void set_value(thread_specific_key key, void* value)
         {
             if (key >= m_storage.size())
+            {
+                // The storage may be concurrently accessed by other threads destroying keys
+                sync::lock_guard< sync::mutex > lock(m_manager_mutex);
                 m_storage.resize(key + 1, static_cast< void* >(NULL));
+            }
             m_storage[key] = value;
         }
 
@@ -139,7 +149,7 @@ public:
 
     thread_context* create_thread_context()
     {
-        thread_context* p = new thread_context();
+        thread_context* p = new thread_context(m_mutex);
 
         sync::lock_guard< mutex_type > lock(m_mutex);
         m_thread_contexts.push_back(*p);
@@ -162,21 +172,33 @@ public:
         }
 
         // Destroy TLS
-        while (!p->m_storage.empty())
+        bool has_values;
+        do
         {
-            std::vector< void* > storage;
-            storage.swap(p->m_storage);
-            for (thread_specific_key key = 0, n = static_cast< thread_specific_key >(storage.size()); key < n; ++key)
+            has_values = false;
+            for (thread_specific_key key = 0; key < p->m_storage.size(); ++key)
             {
-                void* const value = storage[key];
-                if (value)
+                void* value;
+                at_thread_exit_callback cleanup = NULL;
                 {
-                    const at_thread_exit_callback cleanup = m_storage_cleanup[key].cleanup;
-                    if (cleanup)
-                        cleanup(value);
+                    // The key may be concurrently deleted by another thread, which will also destroy the value
+                    sync::lock_guard< mutex_type > lock(m_mutex);
+                    value = p->m_storage[key];
+                    if (value)
+                    {
+                        p->m_storage[key] = NULL;
+                        cleanup = m_storage_cleanup[key].cleanup;
+                    }
+                }
+
+                if (cleanup)
+                {
+                    has_values = true;
+                    cleanup(value);
                 }
             }
         }
+        while (has_values);
 
         // Notify about thread termination. This must be performed last, after all TLS variables are destroyed.
         for (std::vector< thread_context::notify_at_exit_entry >::const_iterator it = p->m_notify_at_exit.begin(), end = p->m_notify_at_exit.end(); it != end; ++it)
-- 
2.43.0


From 35bd977dc4bf59e6f459bbf11c17e7b3d7291261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:31 +0000
Subject: [PATCH 11/35] fix: keep the thread context available to cleanup
 functions at thread exit

POSIX resets the thread-specific value before calling its destructor, so functions
registered with at_thread_exit couldn't access thread_specific_ptr values, and values
and functions they added ended up in a new context, after notify_all_at_thread_exit
notifications had been sent. Also, functions registered by destructors of values that
are already in the same context were never called.
---
 src/tss_manager.hpp | 25 +++++++++++-----------
 src/tss_pthread.cpp | 52 ++++++++++++++++++++++++---------------------
 2 files changed, 41 insertions(+), 36 deletions(-)

diff --git a/src/tss_manager.hpp b/src/tss_manager.hpp
index 3456d73..3c01676 100644
--- a/src/tss_manager.hpp
+++ b/src/tss_manager.hpp
@@ -159,22 +159,23 @@ public:
 
     void destroy_thread_context(thread_context* p) BOOST_NOEXCEPT
     {
-        // Run cleanup functions
-        while (!p->m_at_exit_functions.empty())
+        // Cleanup functions and destructors of TLS values may register other cleanup functions and set TLS values
+        bool has_values;
+        do
         {
-            std::vector< thread_context::at_exit_entry > at_exit_functions;
-            at_exit_functions.swap(p->m_at_exit_functions);
-
-            for (std::vector< thread_context::at_exit_entry >::reverse_iterator it = at_exit_functions.rbegin(), end = at_exit_functions.rend(); it != end; ++it)
+            // Run cleanup functions
+            while (!p->m_at_exit_functions.empty())
             {
-                it->callback(it->context);
+                std::vector< thread_context::at_exit_entry > at_exit_functions;
+                at_exit_functions.swap(p->m_at_exit_functions);
+
+                for (std::vector< thread_context::at_exit_entry >::reverse_iterator it = at_exit_functions.rbegin(), end = at_exit_functions.rend(); it != end; ++it)
+                {
+                    it->callback(it->context);
+                }
             }
-        }
 
-        // Destroy TLS
-        bool has_values;
-        do
-        {
+            // Destroy TLS
             has_values = false;
             for (thread_specific_key key = 0; key < p->m_storage.size(); ++key)
             {
diff --git a/src/tss_pthread.cpp b/src/tss_pthread.cpp
index 29d57ca..479eb07 100644
--- a/src/tss_pthread.cpp
+++ b/src/tss_pthread.cpp
@@ -41,13 +41,41 @@ static BOOST_SYNC_DETAIL_TLS tss_manager::thread_context* tss_context = NULL;
 static pthread_key_t tss_key;
 #endif
 
+#if defined(BOOST_SYNC_DETAIL_TLS)
+
+BOOST_FORCEINLINE tss_manager::thread_context* get_thread_context() BOOST_NOEXCEPT
+{
+    return tss_context;
+}
+BOOST_FORCEINLINE void set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
+{
+    tss_context = p;
+}
+
+#else // defined(BOOST_SYNC_DETAIL_TLS)
+
+BOOST_FORCEINLINE tss_manager::thread_context* get_thread_context() BOOST_NOEXCEPT
+{
+    return static_cast< tss_manager::thread_context* >(pthread_getspecific(tss_key));
+}
+BOOST_FORCEINLINE void set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
+{
+    pthread_setspecific(tss_key, p);
+}
+
+#endif // defined(BOOST_SYNC_DETAIL_TLS)
+
 extern "C" {
 
 static void tss_cleanup(void* p)
 {
     if (tss_manager::thread_context* ctx = static_cast< tss_manager::thread_context* >(p))
     {
+        // By this point the context has been detached from the thread. Restore it for the duration of the cleanup so that
+        // cleanup functions are able to access TLS values and register other cleanup functions.
+        set_thread_context(ctx);
         tss_mgr->destroy_thread_context(ctx);
+        set_thread_context(NULL);
     }
 }
 
@@ -70,30 +98,6 @@ static void init_tss()
 
 } // extern "C"
 
-#if defined(BOOST_SYNC_DETAIL_TLS)
-
-BOOST_FORCEINLINE tss_manager::thread_context* get_thread_context() BOOST_NOEXCEPT
-{
-    return tss_context;
-}
-BOOST_FORCEINLINE void set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
-{
-    tss_context = p;
-}
-
-#else // defined(BOOST_SYNC_DETAIL_TLS)
-
-BOOST_FORCEINLINE tss_manager::thread_context* get_thread_context() BOOST_NOEXCEPT
-{
-    return static_cast< tss_manager::thread_context* >(pthread_getspecific(tss_key));
-}
-BOOST_FORCEINLINE void set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
-{
-    pthread_setspecific(tss_key, p);
-}
-
-#endif // defined(BOOST_SYNC_DETAIL_TLS)
-
 } // namespace
 
 BOOST_SYNC_API void add_thread_exit_notify_entry(sync::mutex& mtx, sync::condition_variable& cond)
-- 
2.43.0


From 100e65666107deaed8e60a09fee95e107ed7c870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:14 +0000
Subject: [PATCH 12/35] fix: run thread exit cleanup when compiler TLS is used
 on POSIX systems

With BOOST_SYNC_USE_COMPILER_TLS nothing invoked the cleanup at thread exit.
---
 src/tss_pthread.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/tss_pthread.cpp b/src/tss_pthread.cpp
index 479eb07..153b907 100644
--- a/src/tss_pthread.cpp
+++ b/src/tss_pthread.cpp
@@ -37,9 +37,9 @@ static pthread_once_t init_tss_once_flag = PTHREAD_ONCE_INIT;
 static tss_manager* tss_mgr = NULL;
 #if defined(BOOST_SYNC_DETAIL_TLS)
 static BOOST_SYNC_DETAIL_TLS tss_manager::thread_context* tss_context = NULL;
-#else
-static pthread_key_t tss_key;
 #endif
+// Note: The key is needed even when compiler TLS is used, to be able to run cleanup at thread exit
+static pthread_key_t tss_key;
 
 #if defined(BOOST_SYNC_DETAIL_TLS)
 
@@ -50,6 +50,7 @@ BOOST_FORCEINLINE tss_manager::thread_context* get_thread_context() BOOST_NOEXCE
 BOOST_FORCEINLINE void set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
 {
     tss_context = p;
+    pthread_setspecific(tss_key, p);
 }
 
 #else // defined(BOOST_SYNC_DETAIL_TLS)
@@ -90,10 +91,8 @@ static void init_tss()
         std::abort();
     }
 
-#if !defined(BOOST_SYNC_DETAIL_TLS)
     if (pthread_key_create(&tss_key, &tss_cleanup) != 0)
         std::abort();
-#endif
 }
 
 } // extern "C"
-- 
2.43.0


From c1e4bc6e23e0749fa7b325169e405b5295f5b00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:10 +0000
Subject: [PATCH 13/35] fix: report failure to attach thread-specific data to
 the thread

If pthread_setspecific failed, the error was ignored, the values and thread exit
functions were silently lost and never cleaned up.
---
 src/tss_pthread.cpp | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/tss_pthread.cpp b/src/tss_pthread.cpp
index 153b907..6f4cb88 100644
--- a/src/tss_pthread.cpp
+++ b/src/tss_pthread.cpp
@@ -20,6 +20,8 @@
 #include <cstddef>
 #include <cstdlib>
 #include <pthread.h>
+#include <boost/sync/exceptions/resource_error.hpp>
+#include <boost/sync/detail/throw_exception.hpp>
 #include <boost/sync/detail/tss.hpp>
 #include <boost/sync/condition_variables/notify_all_at_thread_exit.hpp>
 #include "tss_manager.hpp"
@@ -47,10 +49,12 @@ BOOST_FORCEINLINE tss_manager::thread_context* get_thread_context() BOOST_NOEXCE
 {
     return tss_context;
 }
-BOOST_FORCEINLINE void set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
+BOOST_FORCEINLINE int set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
 {
-    tss_context = p;
-    pthread_setspecific(tss_key, p);
+    const int err = pthread_setspecific(tss_key, p);
+    if (err == 0)
+        tss_context = p;
+    return err;
 }
 
 #else // defined(BOOST_SYNC_DETAIL_TLS)
@@ -59,9 +63,9 @@ BOOST_FORCEINLINE tss_manager::thread_context* get_thread_context() BOOST_NOEXCE
 {
     return static_cast< tss_manager::thread_context* >(pthread_getspecific(tss_key));
 }
-BOOST_FORCEINLINE void set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
+BOOST_FORCEINLINE int set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
 {
-    pthread_setspecific(tss_key, p);
+    return pthread_setspecific(tss_key, p);
 }
 
 #endif // defined(BOOST_SYNC_DETAIL_TLS)
@@ -97,6 +101,18 @@ static void init_tss()
 
 } // extern "C"
 
+tss_manager::thread_context* create_thread_context()
+{
+    tss_manager::thread_context* const ctx = tss_mgr->create_thread_context();
+    const int err = set_thread_context(ctx);
+    if (BOOST_UNLIKELY(err != 0))
+    {
+        tss_mgr->destroy_thread_context(ctx);
+        BOOST_SYNC_DETAIL_THROW(resource_error, (err)("failed to set thread-specific value in pthread_setspecific"));
+    }
+    return ctx;
+}
+
 } // namespace
 
 BOOST_SYNC_API void add_thread_exit_notify_entry(sync::mutex& mtx, sync::condition_variable& cond)
@@ -106,8 +122,7 @@ BOOST_SYNC_API void add_thread_exit_notify_entry(sync::mutex& mtx, sync::conditi
 
     if (!ctx)
     {
-        ctx = tss_mgr->create_thread_context();
-        set_thread_context(ctx);
+        ctx = create_thread_context();
     }
 
     ctx->add_notify_at_exit_entry(&mtx, &cond);
@@ -120,8 +135,7 @@ BOOST_SYNC_API void add_thread_exit_callback(at_thread_exit_callback callback, v
 
     if (!ctx)
     {
-        ctx = tss_mgr->create_thread_context();
-        set_thread_context(ctx);
+        ctx = create_thread_context();
     }
 
     ctx->add_at_exit_entry(callback, context);
@@ -159,8 +173,7 @@ BOOST_SYNC_API void set_thread_specific(thread_specific_key key, void* p)
 
     if (!ctx)
     {
-        ctx = tss_mgr->create_thread_context();
-        set_thread_context(ctx);
+        ctx = create_thread_context();
     }
 
     ctx->set_value(key, p);
-- 
2.43.0


From c46aed310cf70025e0618e1b94c813b657d51635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:56 +0000
Subject: [PATCH 14/35] fix: use the semaphore of auto_reset_event only to
 release registered waiters

A thread that was about to block could take the semaphore token that belonged to
a concurrent try_wait or to a timed wait that was giving up, so that try_wait
blocked and the timed wait missed its deadline. A signal with no waiters is now
only kept in the state, the semaphore is only posted to release a waiter.
---
 .../events/auto_reset_event_semaphore.hpp     | 41 ++++++++++---------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp b/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
index 398bf61..8893a45 100644
--- a/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
@@ -50,7 +50,7 @@ public:
             const int32_t new_state = old_state >= 0 ? old_state - 1 : old_state;
             if (m_state.compare_exchange_weak(old_state, new_state, detail::atomic_ns::memory_order_release, detail::atomic_ns::memory_order_relaxed))
             {
-                if (old_state >= 0)
+                if (old_state > 0)
                     m_sem.post();
                 return;
             }
@@ -61,8 +61,8 @@ public:
 
     void wait()
     {
-        m_state.fetch_add(1, detail::atomic_ns::memory_order_acquire);
-        m_sem.wait();
+        if (m_state.fetch_add(1, detail::atomic_ns::memory_order_acquire) >= 0)
+            m_sem.wait();
     }
 
     bool try_wait()
@@ -71,11 +71,7 @@ public:
         while (old_state < 0)
         {
             if (m_state.compare_exchange_weak(old_state, old_state + 1, detail::atomic_ns::memory_order_acquire, detail::atomic_ns::memory_order_relaxed))
-            {
-                // The semaphore has been posted or is about to be
-                m_sem.wait();
                 return true;
-            }
 
             detail::pause();
         }
@@ -86,25 +82,30 @@ public:
     template< typename Time >
     typename enable_if_c< sync::detail::time_traits< Time >::is_specialized, bool >::type timed_wait(Time const& timeout)
     {
-        m_state.fetch_add(1, detail::atomic_ns::memory_order_acquire);
+        if (m_state.fetch_add(1, detail::atomic_ns::memory_order_acquire) < 0)
+            return true;
 
-        const bool wait_successful = m_sem.timed_wait(timeout);
-        if (wait_successful)
+        if (m_sem.timed_wait(timeout))
             return true;
 
-        // Remove this thread from the waiters, unless a concurrent post has already released it
-        int32_t old_state = m_state.load(detail::atomic_ns::memory_order_relaxed);
-        while (old_state > 0)
+        for (;;)
         {
-            if (m_state.compare_exchange_weak(old_state, old_state - 1, detail::atomic_ns::memory_order_relaxed, detail::atomic_ns::memory_order_relaxed))
-                return false;
+            // Remove this thread from the waiters, unless all of them have already been released by concurrent posts
+            int32_t old_state = m_state.load(detail::atomic_ns::memory_order_relaxed);
+            while (old_state > 0)
+            {
+                if (m_state.compare_exchange_weak(old_state, old_state - 1, detail::atomic_ns::memory_order_relaxed, detail::atomic_ns::memory_order_relaxed))
+                    return false;
+
+                detail::pause();
+            }
+
+            // The semaphore has been posted or is about to be
+            if (m_sem.try_wait())
+                return true;
 
             detail::pause();
         }
-
-        // The semaphore has been posted or is about to be
-        m_sem.wait();
-        return true;
     }
 
     template< typename Duration >
@@ -120,7 +121,9 @@ public:
     }
 
 private:
+    //! Used to block and release the waiters
     semaphore m_sem;
+    //! The number of the waiters that are not released yet or, if there are none, -1 if the event is signalled
     detail::atomic_ns::atomic< int32_t > m_state;
 };
 
-- 
2.43.0


From e6f9750c1f0b0d23239823832dbbf8cbdc970f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:56 +0000
Subject: [PATCH 15/35] fix: release one waiter with every post of the emulated
 auto_reset_event

Two posts made before the first released thread resumed released only one of
two blocked threads.
---
 .../events/auto_reset_event_emulation.hpp     | 34 +++++++++++++------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_emulation.hpp b/include/boost/sync/detail/events/auto_reset_event_emulation.hpp
index 399a074..554e089 100644
--- a/include/boost/sync/detail/events/auto_reset_event_emulation.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_emulation.hpp
@@ -43,21 +43,30 @@ private:
         auto_reset_event const& m_this;
 
         explicit is_signalled(auto_reset_event const& that) : m_this(that) {}
-        bool operator() () const { return m_this.m_is_set; }
+        bool operator() () const { return m_this.m_post_count > 0u; }
+    };
+
+    //! Registers a waiter, must be used with the mutex locked
+    struct waiter
+    {
+        unsigned int& m_wait_count;
+
+        explicit waiter(auto_reset_event& that) : m_wait_count(that.m_wait_count) { ++m_wait_count; }
+        ~waiter() { --m_wait_count; }
     };
 
 public:
-    auto_reset_event() : m_is_set(false)
+    auto_reset_event() : m_post_count(0u), m_wait_count(0u)
     {
     }
 
     void post()
     {
         sync::lock_guard< sync::mutex > lock(m_mutex);
-        const bool already_signaled = m_is_set;
-        if (!already_signaled)
+        // Every blocked thread has to be released by its own post, even if the previously released threads have not resumed yet
+        if (m_post_count <= m_wait_count)
         {
-            m_is_set = true;
+            ++m_post_count;
             m_cond.notify_one();
         }
     }
@@ -65,19 +74,20 @@ public:
     void wait()
     {
         sync::unique_lock< sync::mutex > lock(m_mutex);
+        waiter registration(*this);
 
-        while (!m_is_set)
+        while (m_post_count == 0u)
             m_cond.wait(lock);
 
-        m_is_set = false;
+        --m_post_count;
     }
 
     bool try_wait()
     {
         sync::lock_guard< sync::mutex > lock(m_mutex);
-        const bool res = m_is_set;
+        const bool res = m_post_count > 0u;
         if (res)
-            m_is_set = false;
+            --m_post_count;
         return res;
     }
 
@@ -85,10 +95,11 @@ public:
     typename enable_if_c< sync::detail::time_traits< Time >::is_specialized, bool >::type timed_wait(Time const& timeout)
     {
         sync::unique_lock< sync::mutex > lock(m_mutex);
+        waiter registration(*this);
         if (!m_cond.timed_wait(lock, timeout, is_signalled(*this)))
             return false;
 
-        m_is_set = false;
+        --m_post_count;
         return true;
     }
 
@@ -107,7 +118,8 @@ public:
 private:
     sync::mutex m_mutex;
     sync::condition_variable m_cond;
-    bool m_is_set;
+    unsigned int m_post_count;
+    unsigned int m_wait_count;
 };
 
 } // namespace abi
-- 
2.43.0


From ae612a8fceb56bb0bb5bd8cb1a0315633148db75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:56 +0000
Subject: [PATCH 16/35] fix: don't overflow the post counter of the futex-based
 auto_reset_event

With more than 1023 blocked threads the 10-bit post counter wrapped around and
1024 signals were lost. There can be as many posts as there are waiters, so give
both counters the same number of bits.
---
 include/boost/sync/detail/events/auto_reset_event_futex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_futex.hpp b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
index 5c08a86..b9d630f 100644
--- a/include/boost/sync/detail/events/auto_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
@@ -44,7 +44,7 @@ private:
     // the correct number of threads blocked on the event in case if multiple concurrent posts are made.
     enum
     {
-        wait_count_bits = 22u,
+        wait_count_bits = 16u,
         post_count_one = 1u << wait_count_bits,
         post_count_mask = 0u - post_count_one,
         wait_count_mask = post_count_one - 1u
-- 
2.43.0


From 3b66014b1e25f0b1f1f522824f25210b2c4e92f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:07 +0000
Subject: [PATCH 17/35] fix: saturate conversion of large durations and time
 points

Durations and time points beyond +-292 years (for example, ptime(max_date_time) or
std::chrono::hours::max() used as an infinite timeout) overflowed the 64-bit nanosecond
counter, so that the timed operation could time out immediately.
---
 include/boost/sync/detail/time_units.hpp       | 10 +++++++++-
 include/boost/sync/support/boost_chrono.hpp    |  6 ++++++
 include/boost/sync/support/boost_date_time.hpp |  6 ++++++
 include/boost/sync/support/std_chrono.hpp      |  6 ++++++
 4 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/include/boost/sync/detail/time_units.hpp b/include/boost/sync/detail/time_units.hpp
index 6e8e38b..030e154 100644
--- a/include/boost/sync/detail/time_units.hpp
+++ b/include/boost/sync/detail/time_units.hpp
@@ -49,6 +49,9 @@ public:
     static BOOST_CONSTEXPR_OR_CONST uint64_t subsecond_fraction = 1000000000u;
 #endif
 
+    // Durations are limited to about 292 years in either direction
+    static BOOST_CONSTEXPR_OR_CONST int64_t max_seconds = 9223372035;
+
 private:
     native_type m_value;
 
@@ -58,6 +61,11 @@ public:
 
     native_type get() const BOOST_NOEXCEPT { return m_value; }
 
+    static system_duration (max)() BOOST_NOEXCEPT
+    {
+        return system_duration(static_cast< native_type >(max_seconds) * static_cast< native_type >(subsecond_fraction));
+    }
+
     system_duration& operator+= (system_duration const& that) BOOST_NOEXCEPT
     {
         m_value += that.m_value;
@@ -235,7 +243,7 @@ public:
         int64_t seconds = static_cast< int64_t >(left.m_value.tv_sec) - static_cast< int64_t >(right.m_value.tv_sec);
         int64_t nseconds = static_cast< int64_t >(left.m_value.tv_nsec) - static_cast< int64_t >(right.m_value.tv_nsec);
         // Saturate the result if the difference is not representable in nanoseconds (about 292 years)
-        const int64_t max_seconds = 9223372035;
+        const int64_t max_seconds = system_duration::max_seconds;
         if (seconds > max_seconds)
             seconds = max_seconds;
         else if (seconds < -max_seconds)
diff --git a/include/boost/sync/support/boost_chrono.hpp b/include/boost/sync/support/boost_chrono.hpp
index 7c275a6..26c214e 100644
--- a/include/boost/sync/support/boost_chrono.hpp
+++ b/include/boost/sync/support/boost_chrono.hpp
@@ -43,6 +43,12 @@ struct time_traits< boost::chrono::duration< Rep, Period > >
     static system_duration to_sync_unit(boost::chrono::duration< Rep, Period > const& dur) BOOST_NOEXCEPT
     {
         typedef boost::chrono::duration< system_duration::native_type, boost::ratio< 1, system_duration::subsecond_fraction > > system_chrono_duration;
+        // Saturate the result if the duration is not representable
+        const double seconds = boost::chrono::duration< double >(dur).count();
+        if (seconds >= static_cast< double >(system_duration::max_seconds))
+            return (system_duration::max)();
+        if (seconds <= -static_cast< double >(system_duration::max_seconds))
+            return -(system_duration::max)();
         return system_duration(boost::chrono::duration_cast< system_chrono_duration >(dur).count());
     }
 };
diff --git a/include/boost/sync/support/boost_date_time.hpp b/include/boost/sync/support/boost_date_time.hpp
index 68611aa..239f32c 100644
--- a/include/boost/sync/support/boost_date_time.hpp
+++ b/include/boost/sync/support/boost_date_time.hpp
@@ -50,6 +50,12 @@ struct time_traits< T, typename T::_is_boost_date_time_duration >
                 traits_type::ticks_per_second / system_duration::subsecond_fraction :
                 system_duration::subsecond_fraction / traits_type::ticks_per_second
         };
+        // Saturate the result if the duration is not representable
+        const int64_t seconds = dur.ticks() / traits_type::ticks_per_second;
+        if (seconds >= system_duration::max_seconds)
+            return (system_duration::max)();
+        if (seconds <= -system_duration::max_seconds)
+            return -(system_duration::max)();
         return system_duration(static_cast< uint64_t >(traits_type::ticks_per_second) >= system_duration::subsecond_fraction ?
             dur.ticks() / conversion_ratio : dur.ticks() * conversion_ratio);
     }
diff --git a/include/boost/sync/support/std_chrono.hpp b/include/boost/sync/support/std_chrono.hpp
index 8b81a63..d81ad03 100644
--- a/include/boost/sync/support/std_chrono.hpp
+++ b/include/boost/sync/support/std_chrono.hpp
@@ -41,6 +41,12 @@ struct time_traits< std::chrono::duration< Rep, Period > >
     static system_duration to_sync_unit(std::chrono::duration< Rep, Period > const& dur) BOOST_NOEXCEPT
     {
         typedef std::chrono::duration< system_duration::native_type, std::ratio< 1, system_duration::subsecond_fraction > > system_chrono_duration;
+        // Saturate the result if the duration is not representable
+        const double seconds = std::chrono::duration< double >(dur).count();
+        if (seconds >= static_cast< double >(system_duration::max_seconds))
+            return (system_duration::max)();
+        if (seconds <= -static_cast< double >(system_duration::max_seconds))
+            return -(system_duration::max)();
         return system_duration(std::chrono::duration_cast< system_chrono_duration >(dur).count());
     }
 };
-- 
2.43.0


From 6188b7bc97a2ac1aa35474b782b737a673e69979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:47 +0000
Subject: [PATCH 18/35] fix: don't leak the thread context if the manager can't
 be locked

---
 src/tss_manager.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tss_manager.hpp b/src/tss_manager.hpp
index 3c01676..019dc49 100644
--- a/src/tss_manager.hpp
+++ b/src/tss_manager.hpp
@@ -149,9 +149,8 @@ public:
 
     thread_context* create_thread_context()
     {
-        thread_context* p = new thread_context(m_mutex);
-
         sync::lock_guard< mutex_type > lock(m_mutex);
+        thread_context* p = new thread_context(m_mutex);
         m_thread_contexts.push_back(*p);
 
         return p;
-- 
2.43.0


From 608e5d6934041d5e9a2d43c47728f88abf3fa8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:18 +0000
Subject: [PATCH 19/35] fix: report overflow of the emulated semaphore

---
 include/boost/sync/detail/semaphore/semaphore_emulation.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/sync/detail/semaphore/semaphore_emulation.hpp b/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
index ec449e4..ecc8bec 100644
--- a/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
@@ -10,9 +10,13 @@
 #ifndef BOOST_SYNC_DETAIL_SEMAPHORE_SEMAPHORE_EMULATION_HPP_INCLUDED_
 #define BOOST_SYNC_DETAIL_SEMAPHORE_SEMAPHORE_EMULATION_HPP_INCLUDED_
 
+#include <limits>
 #include <boost/core/enable_if.hpp>
 #include <boost/sync/detail/config.hpp>
+#include <boost/sync/detail/system_error.hpp>
+#include <boost/sync/detail/throw_exception.hpp>
 #include <boost/sync/detail/time_traits.hpp>
+#include <boost/sync/exceptions/overflow_error.hpp>
 #include <boost/sync/locks/lock_guard.hpp>
 #include <boost/sync/locks/unique_lock.hpp>
 #include <boost/sync/mutexes/mutex.hpp>
@@ -54,6 +58,8 @@ public:
     void post()
     {
         sync::lock_guard< sync::mutex > lock(m_mutex);
+        if (BOOST_UNLIKELY(m_count == (std::numeric_limits< unsigned int >::max)()))
+            BOOST_SYNC_DETAIL_THROW(overflow_error, (static_cast< int >(sync::detail::system_ns::errc::value_too_large))("semaphore post failed: semaphore counter overflow"));
         ++m_count;
         m_cond.notify_one();
     }
-- 
2.43.0


From 2d03da5e2d9f7b00cec6725a683f59121cb2f8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:18 +0000
Subject: [PATCH 20/35] fix: destroy the mutex if the constructor of the
 emulated timed_mutex fails

---
 include/boost/sync/detail/mutexes/timed_mutex_posix.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/sync/detail/mutexes/timed_mutex_posix.hpp b/include/boost/sync/detail/mutexes/timed_mutex_posix.hpp
index 13c0ac4..1c6d9cd 100644
--- a/include/boost/sync/detail/mutexes/timed_mutex_posix.hpp
+++ b/include/boost/sync/detail/mutexes/timed_mutex_posix.hpp
@@ -104,7 +104,10 @@ public:
 #if !defined(BOOST_SYNC_DETAIL_PTHREAD_HAS_TIMEDLOCK)
         res = pthread_cond_init(&m_cond, NULL);
         if (BOOST_UNLIKELY(res != 0))
+        {
+            BOOST_VERIFY(sync::detail::posix::pthread_mutex_destroy(&m_mutex) == 0);
             BOOST_SYNC_DETAIL_THROW(resource_error, (res)("timed_mutex constructor failed in pthread_cond_init"));
+        }
         m_is_locked = false;
 #endif
     }
-- 
2.43.0


From 379dc6eac46d9208877a457726b5fe14e9fba2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:37 +0000
Subject: [PATCH 21/35] fix: wait_until with a time point of a non-system clock
 in the distant past blocked instead of timing out

Subtracting the current time from e.g. steady_clock::time_point::min() overflows, and the wait was performed with the
resulting positive duration. Check that the time point is in the future first, as timed_mutex and condition_variable do.
---
 .../boost/sync/detail/events/auto_reset_event_futex.hpp   | 7 +++++--
 .../boost/sync/detail/events/manual_reset_event_futex.hpp | 7 +++++--
 include/boost/sync/detail/semaphore/semaphore_posix.hpp   | 8 ++++++--
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_futex.hpp b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
index b9d630f..f30d0b7 100644
--- a/include/boost/sync/detail/events/auto_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
@@ -230,17 +230,20 @@ private:
     template< typename TimePoint >
     bool priv_timed_wait(sync::detail::chrono_time_point< TimePoint > const& t)
     {
+        // Try the fast path first. Also, the time point may be too far in the past to subtract the current time from it.
+        if (this->try_wait())
+            return true;
+
         typedef TimePoint time_point;
         typedef typename time_point::clock clock;
         typedef typename time_point::duration duration;
         time_point now = clock::now();
-        do
+        while (now < t.get())
         {
             if (priv_timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
                 return true;
             now = clock::now();
         }
-        while (now < t.get());
 
         return false;
     }
diff --git a/include/boost/sync/detail/events/manual_reset_event_futex.hpp b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
index 144bfa9..a2836de 100644
--- a/include/boost/sync/detail/events/manual_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
@@ -152,17 +152,20 @@ private:
     template< typename TimePoint >
     bool priv_timed_wait(sync::detail::chrono_time_point< TimePoint > const& t)
     {
+        // Try the fast path first. Also, the time point may be too far in the past to subtract the current time from it.
+        if (this->try_wait())
+            return true;
+
         typedef TimePoint time_point;
         typedef typename time_point::clock clock;
         typedef typename time_point::duration duration;
         time_point now = clock::now();
-        do
+        while (now < t.get())
         {
             if (priv_timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
                 return true;
             now = clock::now();
         }
-        while (now < t.get());
 
         return false;
     }
diff --git a/include/boost/sync/detail/semaphore/semaphore_posix.hpp b/include/boost/sync/detail/semaphore/semaphore_posix.hpp
index 53b525e..d94d364 100644
--- a/include/boost/sync/detail/semaphore/semaphore_posix.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_posix.hpp
@@ -169,16 +169,20 @@ private:
     template< typename TimePoint >
     bool priv_timed_wait(sync::detail::chrono_time_point< TimePoint > const& t)
     {
+        // Try the fast path first. Also, the time point may be too far in the past to subtract the current time from it.
+        if (try_wait())
+            return true;
+
         typedef TimePoint time_point;
         typedef typename time_point::clock clock;
         typedef typename time_point::duration duration;
         time_point now = clock::now();
-        do
+        while (now < t.get())
         {
             if (priv_timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
                 return true;
             now = clock::now();
-        } while (now < t.get());
+        }
         return false;
     }
 
-- 
2.43.0


From 4aa515b278b47bf2ed9adf1fa4f4b0dc1c790271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:45 +0000
Subject: [PATCH 22/35] fix: synchronize with the unlocking thread when the
 Windows mutex is acquired after blocking

The lock was taken with relaxed ordering on the paths that register the waiter or wake up from the wait,
so writes made by the previous owner were not guaranteed to be visible to the new one.
---
 include/boost/sync/detail/mutexes/basic_mutex_windows.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/sync/detail/mutexes/basic_mutex_windows.hpp b/include/boost/sync/detail/mutexes/basic_mutex_windows.hpp
index 0146dc2..7722974 100644
--- a/include/boost/sync/detail/mutexes/basic_mutex_windows.hpp
+++ b/include/boost/sync/detail/mutexes/basic_mutex_windows.hpp
@@ -131,7 +131,7 @@ public:
         {
             const boost::uint32_t was_locked = (old_count & lock_flag_value);
             const boost::uint32_t new_count = was_locked ? (old_count + 1u) : (old_count | lock_flag_value);
-            if (m_active_count.compare_exchange_weak(old_count, new_count, boost::memory_order_relaxed, boost::memory_order_relaxed))
+            if (m_active_count.compare_exchange_weak(old_count, new_count, boost::memory_order_acquire, boost::memory_order_relaxed))
             {
                 if (was_locked)
                     old_count = new_count;
@@ -147,7 +147,7 @@ public:
         while (true)
         {
             const boost::uint32_t new_count = ((old_count & lock_flag_value) ? old_count : ((old_count - 1u) | lock_flag_value)) & ~static_cast< boost::uint32_t >(event_set_flag_value);
-            if (m_active_count.compare_exchange_weak(old_count, new_count, boost::memory_order_relaxed, boost::memory_order_relaxed))
+            if (m_active_count.compare_exchange_weak(old_count, new_count, boost::memory_order_acquire, boost::memory_order_relaxed))
                 break;
         }
     }
-- 
2.43.0


From b155b562987e9b80f955f3ce027f4c733a65c62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:45 +0000
Subject: [PATCH 23/35] fix: don't time out early because of the native time
 resolution on Windows

Durations were truncated to milliseconds and time points of POSIX timespec to 100 ns, so that timed operations
could return up to a unit too early. Round up instead.
---
 include/boost/sync/support/boost_chrono.hpp    | 8 +++++++-
 include/boost/sync/support/boost_date_time.hpp | 3 ++-
 include/boost/sync/support/posix_time.hpp      | 2 +-
 include/boost/sync/support/std_chrono.hpp      | 8 +++++++-
 4 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/boost/sync/support/boost_chrono.hpp b/include/boost/sync/support/boost_chrono.hpp
index 26c214e..901b620 100644
--- a/include/boost/sync/support/boost_chrono.hpp
+++ b/include/boost/sync/support/boost_chrono.hpp
@@ -49,7 +49,13 @@ struct time_traits< boost::chrono::duration< Rep, Period > >
             return (system_duration::max)();
         if (seconds <= -static_cast< double >(system_duration::max_seconds))
             return -(system_duration::max)();
-        return system_duration(boost::chrono::duration_cast< system_chrono_duration >(dur).count());
+        system_chrono_duration system_dur = boost::chrono::duration_cast< system_chrono_duration >(dur);
+#if defined(BOOST_SYNC_DETAIL_PLATFORM_WINAPI)
+        // The native resolution is coarse, round up to make sure timed operations don't time out early
+        if (system_dur < dur)
+            ++system_dur;
+#endif
+        return system_duration(system_dur.count());
     }
 };
 
diff --git a/include/boost/sync/support/boost_date_time.hpp b/include/boost/sync/support/boost_date_time.hpp
index 239f32c..6f9b53f 100644
--- a/include/boost/sync/support/boost_date_time.hpp
+++ b/include/boost/sync/support/boost_date_time.hpp
@@ -56,8 +56,9 @@ struct time_traits< T, typename T::_is_boost_date_time_duration >
             return (system_duration::max)();
         if (seconds <= -system_duration::max_seconds)
             return -(system_duration::max)();
+        // If the native resolution is coarser, round up to make sure timed operations don't time out early
         return system_duration(static_cast< uint64_t >(traits_type::ticks_per_second) >= system_duration::subsecond_fraction ?
-            dur.ticks() / conversion_ratio : dur.ticks() * conversion_ratio);
+            dur.ticks() / conversion_ratio + (dur.ticks() % conversion_ratio > 0) : dur.ticks() * conversion_ratio);
     }
 };
 
diff --git a/include/boost/sync/support/posix_time.hpp b/include/boost/sync/support/posix_time.hpp
index afeb4d5..43b9639 100644
--- a/include/boost/sync/support/posix_time.hpp
+++ b/include/boost/sync/support/posix_time.hpp
@@ -47,7 +47,7 @@ struct time_traits< struct ::timespec >
                 system_time_point::subsecond_fraction / nanoseconds_fraction :
                 nanoseconds_fraction / system_time_point::subsecond_fraction
         };
-        return system_time_point(point.tv_sec, (system_time_point::subsecond_fraction < nanoseconds_fraction ? point.tv_nsec / conversion_ratio : point.tv_nsec * conversion_ratio));
+        return system_time_point(point.tv_sec, (system_time_point::subsecond_fraction < nanoseconds_fraction ? (point.tv_nsec + conversion_ratio - 1) / conversion_ratio : point.tv_nsec * conversion_ratio));
     }
 };
 
diff --git a/include/boost/sync/support/std_chrono.hpp b/include/boost/sync/support/std_chrono.hpp
index d81ad03..b7f5d4e 100644
--- a/include/boost/sync/support/std_chrono.hpp
+++ b/include/boost/sync/support/std_chrono.hpp
@@ -47,7 +47,13 @@ struct time_traits< std::chrono::duration< Rep, Period > >
             return (system_duration::max)();
         if (seconds <= -static_cast< double >(system_duration::max_seconds))
             return -(system_duration::max)();
-        return system_duration(std::chrono::duration_cast< system_chrono_duration >(dur).count());
+        system_chrono_duration system_dur = std::chrono::duration_cast< system_chrono_duration >(dur);
+#if defined(BOOST_SYNC_DETAIL_PLATFORM_WINAPI)
+        // The native resolution is coarse, round up to make sure timed operations don't time out early
+        if (system_dur < dur)
+            ++system_dur;
+#endif
+        return system_duration(system_dur.count());
     }
 };
 
-- 
2.43.0


From 07b9c37a1de707ad8d733a06ac5517fe781dbfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:45 +0000
Subject: [PATCH 24/35] fix: saturate time points not representable in FILETIME
 on Windows

Time points before 1601 had the most significant bit set, and the system interpreted them as relative timeouts.
---
 include/boost/sync/detail/time_units.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/boost/sync/detail/time_units.hpp b/include/boost/sync/detail/time_units.hpp
index 030e154..3d8de4e 100644
--- a/include/boost/sync/detail/time_units.hpp
+++ b/include/boost/sync/detail/time_units.hpp
@@ -109,8 +109,16 @@ private:
 public:
     BOOST_CONSTEXPR system_time_point() BOOST_NOEXCEPT : m_value(0) {}
     explicit system_time_point(time_t t, unsigned int subsecond = 0) BOOST_NOEXCEPT :
-        m_value(static_cast< uint64_t >(t) * subsecond_fraction + subsecond + 116444736000000000ull)
+        m_value(0u)
     {
+        // Saturate the result if the time point is not representable in FILETIME. Note that the values with the most significant bit set
+        // are interpreted by the system as relative timeouts.
+        const int64_t min_seconds = -11644473600, max_seconds = 910692730085;
+        int64_t seconds = t;
+        if (seconds > max_seconds)
+            seconds = max_seconds;
+        if (seconds >= min_seconds)
+            m_value = static_cast< uint64_t >(seconds - min_seconds) * subsecond_fraction + subsecond;
     }
 
     //! Creates time point from duration since 1970-Jan-01
-- 
2.43.0


From 7003abd22df0cb9c3b2f4dc213b09710f7b66bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:45 +0000
Subject: [PATCH 25/35] fix: don't restart relative timeouts of Windows
 timed_mutex and condition variables on every wakeup

---
 .../basic_condition_variable_windows.hpp                 | 9 +++++++++
 .../boost/sync/detail/mutexes/timed_mutex_windows.hpp    | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/include/boost/sync/detail/condition_variables/basic_condition_variable_windows.hpp b/include/boost/sync/detail/condition_variables/basic_condition_variable_windows.hpp
index c6d8789..2e41d0e 100644
--- a/include/boost/sync/detail/condition_variables/basic_condition_variable_windows.hpp
+++ b/include/boost/sync/detail/condition_variables/basic_condition_variable_windows.hpp
@@ -24,6 +24,7 @@
 #include <boost/atomic/atomic.hpp>
 #include <boost/winapi/get_last_error.hpp>
 #include <boost/winapi/semaphore.hpp>
+#include <boost/winapi/time.hpp>
 #include <boost/winapi/wait.hpp>
 #include <boost/winapi/waitable_timer.hpp>
 #include <boost/sync/detail/config.hpp>
@@ -357,6 +358,7 @@ private:
     sync::cv_status priv_timed_wait(waiter_state* state, sync::detail::system_duration t)
     {
         sync::detail::system_duration::native_type time_left = t.get();
+        boost::winapi::DWORD_ last_tick_count = boost::winapi::GetTickCount();
         while (time_left > 0)
         {
             const boost::winapi::DWORD_ dur = time_left > boost::winapi::max_non_infinite_wait ?
@@ -375,10 +377,17 @@ private:
                         return sync::cv_status::no_timeout;
                     }
                 }
+                {
+                    // The thread was not notified, only wait for the rest of the timeout
+                    const boost::winapi::DWORD_ tick_count = boost::winapi::GetTickCount();
+                    time_left -= static_cast< boost::winapi::DWORD_ >(tick_count - last_tick_count);
+                    last_tick_count = tick_count;
+                }
                 break;
 
             case boost::winapi::wait_timeout: // timeout expired
                 time_left -= dur;
+                last_tick_count += dur;
                 break;
 
             default: // error occurred
diff --git a/include/boost/sync/detail/mutexes/timed_mutex_windows.hpp b/include/boost/sync/detail/mutexes/timed_mutex_windows.hpp
index de549e9..c04dc19 100644
--- a/include/boost/sync/detail/mutexes/timed_mutex_windows.hpp
+++ b/include/boost/sync/detail/mutexes/timed_mutex_windows.hpp
@@ -23,6 +23,7 @@
 #include <boost/memory_order.hpp>
 #include <boost/atomic/atomic.hpp>
 #include <boost/core/enable_if.hpp>
+#include <boost/winapi/time.hpp>
 #include <boost/winapi/wait.hpp>
 #include <boost/winapi/waitable_timer.hpp>
 #include <boost/sync/exceptions/lock_error.hpp>
@@ -171,6 +172,7 @@ private:
         {
             const boost::winapi::HANDLE_ evt = m_mutex.get_event();
             sync::detail::system_duration::native_type time_left = t.get();
+            boost::winapi::DWORD_ last_tick_count = boost::winapi::GetTickCount();
             while (time_left > 0)
             {
                 const boost::winapi::DWORD_ dur = time_left > boost::winapi::max_non_infinite_wait ?
@@ -182,10 +184,17 @@ private:
                     m_mutex.clear_waiting_and_try_lock(old_count);
                     if ((old_count & sync::detail::windows::basic_mutex::lock_flag_value) == 0)
                         return true;
+                    {
+                        // Another thread has locked the mutex, only wait for the rest of the timeout
+                        const boost::winapi::DWORD_ tick_count = boost::winapi::GetTickCount();
+                        time_left -= static_cast< boost::winapi::DWORD_ >(tick_count - last_tick_count);
+                        last_tick_count = tick_count;
+                    }
                     break;
 
                 case boost::winapi::wait_timeout:
                     time_left -= dur;
+                    last_tick_count += dur;
                     break;
 
                 default:
-- 
2.43.0


From ee73f43c212a7b24e0826ae377975a6f1432b41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:45 +0000
Subject: [PATCH 26/35] fix: wait_until with a non-system clock time point in
 the distant past blocked on Windows

Subtracting the current time from e.g. steady_clock::time_point::min() overflows, and the wait was performed with the
resulting positive duration.
---
 include/boost/sync/detail/events/basic_event_windows.hpp  | 7 +++++--
 include/boost/sync/detail/semaphore/semaphore_windows.hpp | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/boost/sync/detail/events/basic_event_windows.hpp b/include/boost/sync/detail/events/basic_event_windows.hpp
index 0a78185..037a534 100644
--- a/include/boost/sync/detail/events/basic_event_windows.hpp
+++ b/include/boost/sync/detail/events/basic_event_windows.hpp
@@ -171,17 +171,20 @@ public:
     template< typename TimePoint >
     bool timed_wait(sync::detail::chrono_time_point< TimePoint > const& t)
     {
+        // Try the fast path first. Also, the time point may be too far in the past to subtract the current time from it.
+        if (try_wait())
+            return true;
+
         typedef TimePoint time_point;
         typedef typename time_point::clock clock;
         typedef typename time_point::duration duration;
         time_point now = clock::now();
-        do
+        while (now < t.get())
         {
             if (timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
                 return true;
             now = clock::now();
         }
-        while (now < t.get());
 
         return false;
     }
diff --git a/include/boost/sync/detail/semaphore/semaphore_windows.hpp b/include/boost/sync/detail/semaphore/semaphore_windows.hpp
index 657afce..1df4470 100644
--- a/include/boost/sync/detail/semaphore/semaphore_windows.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_windows.hpp
@@ -179,17 +179,20 @@ private:
     template< typename TimePoint >
     bool priv_timed_wait(sync::detail::chrono_time_point< TimePoint > const& t)
     {
+        // Try the fast path first. Also, the time point may be too far in the past to subtract the current time from it.
+        if (try_wait())
+            return true;
+
         typedef TimePoint time_point;
         typedef typename time_point::clock clock;
         typedef typename time_point::duration duration;
         time_point now = clock::now();
-        do
+        while (now < t.get())
         {
             if (priv_timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
                 return true;
             now = clock::now();
         }
-        while (now < t.get());
 
         return false;
     }
-- 
2.43.0


From 071bfa414924e703a384f6db9a5868295fef0f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:45 +0000
Subject: [PATCH 27/35] fix: report a failed timed wait of the Windows
 semaphore as wait_error, as all other waits

---
 include/boost/sync/detail/semaphore/semaphore_windows.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/boost/sync/detail/semaphore/semaphore_windows.hpp b/include/boost/sync/detail/semaphore/semaphore_windows.hpp
index 1df4470..c5e5440 100644
--- a/include/boost/sync/detail/semaphore/semaphore_windows.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_windows.hpp
@@ -21,7 +21,6 @@
 #include <boost/winapi/handles.hpp>
 #include <boost/sync/detail/config.hpp>
 #include <boost/sync/detail/throw_exception.hpp>
-#include <boost/sync/exceptions/lock_error.hpp>
 #include <boost/sync/exceptions/overflow_error.hpp>
 #include <boost/sync/exceptions/resource_error.hpp>
 #include <boost/sync/exceptions/wait_error.hpp>
@@ -171,7 +170,7 @@ private:
         case boost::winapi::wait_failed:
             {
                 const boost::winapi::DWORD_ err = boost::winapi::GetLastError();
-                BOOST_SYNC_DETAIL_THROW(lock_error, (err)("semaphore::timed_wait failed in WaitForMultipleObjects"));
+                BOOST_SYNC_DETAIL_THROW(wait_error, (err)("semaphore::timed_wait failed in WaitForMultipleObjects"));
             }
         }
     }
-- 
2.43.0


From e12e7a3e43dcc8e68e988d89b5b5c77b21171343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:35 +0000
Subject: [PATCH 28/35] fix: don't time out early after an unsuccessful wakeup
 on Windows

The system tick count is too coarse to measure how much of the timeout has elapsed, use the performance counter.
---
 .../basic_condition_variable_windows.hpp      | 16 ++---
 .../sync/detail/elapsed_timer_windows.hpp     | 67 +++++++++++++++++++
 .../detail/mutexes/timed_mutex_windows.hpp    | 16 ++---
 3 files changed, 79 insertions(+), 20 deletions(-)
 create mode 100644 include/boost/sync/detail/elapsed_timer_windows.hpp

diff --git a/include/boost/sync/detail/condition_variables/basic_condition_variable_windows.hpp b/include/boost/sync/detail/condition_variables/basic_condition_variable_windows.hpp
index 2e41d0e..4c5b5d3 100644
--- a/include/boost/sync/detail/condition_variables/basic_condition_variable_windows.hpp
+++ b/include/boost/sync/detail/condition_variables/basic_condition_variable_windows.hpp
@@ -24,7 +24,6 @@
 #include <boost/atomic/atomic.hpp>
 #include <boost/winapi/get_last_error.hpp>
 #include <boost/winapi/semaphore.hpp>
-#include <boost/winapi/time.hpp>
 #include <boost/winapi/wait.hpp>
 #include <boost/winapi/waitable_timer.hpp>
 #include <boost/sync/detail/config.hpp>
@@ -33,6 +32,7 @@
 #include <boost/sync/detail/throw_exception.hpp>
 #include <boost/sync/detail/time_traits.hpp>
 #include <boost/sync/detail/time_units.hpp>
+#include <boost/sync/detail/elapsed_timer_windows.hpp>
 #include <boost/sync/detail/waitable_timer.hpp>
 #include <boost/sync/locks/unique_lock_fwd.hpp>
 #include <boost/sync/locks/lock_guard.hpp>
@@ -357,8 +357,9 @@ private:
 
     sync::cv_status priv_timed_wait(waiter_state* state, sync::detail::system_duration t)
     {
-        sync::detail::system_duration::native_type time_left = t.get();
-        boost::winapi::DWORD_ last_tick_count = boost::winapi::GetTickCount();
+        const sync::detail::system_duration::native_type timeout = t.get();
+        sync::detail::system_duration::native_type time_left = timeout;
+        const sync::detail::windows::elapsed_timer timer;
         while (time_left > 0)
         {
             const boost::winapi::DWORD_ dur = time_left > boost::winapi::max_non_infinite_wait ?
@@ -377,17 +378,12 @@ private:
                         return sync::cv_status::no_timeout;
                     }
                 }
-                {
-                    // The thread was not notified, only wait for the rest of the timeout
-                    const boost::winapi::DWORD_ tick_count = boost::winapi::GetTickCount();
-                    time_left -= static_cast< boost::winapi::DWORD_ >(tick_count - last_tick_count);
-                    last_tick_count = tick_count;
-                }
+                // The thread was not notified, only wait for the rest of the timeout
+                time_left = timeout - timer.elapsed();
                 break;
 
             case boost::winapi::wait_timeout: // timeout expired
                 time_left -= dur;
-                last_tick_count += dur;
                 break;
 
             default: // error occurred
diff --git a/include/boost/sync/detail/elapsed_timer_windows.hpp b/include/boost/sync/detail/elapsed_timer_windows.hpp
new file mode 100644
index 0000000..2913b15
--- /dev/null
+++ b/include/boost/sync/detail/elapsed_timer_windows.hpp
@@ -0,0 +1,67 @@
+/*
+ * Distributed under the Boost Software License, Version 1.0.
+ *    (See accompanying file LICENSE_1_0.txt or copy at
+ *          http://www.boost.org/LICENSE_1_0.txt)
+ */
+/*!
+ * \file   elapsed_timer_windows.hpp
+ *
+ * \brief  This header is the Boost.Sync library implementation, see the library documentation
+ *         at http://www.boost.org/doc/libs/release/libs/sync/doc/html/index.html.
+ */
+
+#ifndef BOOST_SYNC_DETAIL_ELAPSED_TIMER_WINDOWS_HPP_INCLUDED_
+#define BOOST_SYNC_DETAIL_ELAPSED_TIMER_WINDOWS_HPP_INCLUDED_
+
+#include <boost/winapi/basic_types.hpp>
+#include <boost/winapi/timers.hpp>
+#include <boost/sync/detail/config.hpp>
+#include <boost/sync/detail/time_units.hpp>
+#include <boost/sync/detail/header.hpp>
+
+#ifdef BOOST_HAS_PRAGMA_ONCE
+#pragma once
+#endif
+
+namespace boost {
+
+namespace sync {
+
+namespace detail {
+
+namespace windows {
+
+//! Measures the time since the timer creation
+class elapsed_timer
+{
+private:
+    boost::winapi::LARGE_INTEGER_ m_start;
+
+public:
+    elapsed_timer() BOOST_NOEXCEPT
+    {
+        boost::winapi::QueryPerformanceCounter(&m_start);
+    }
+
+    //! Returns the number of whole milliseconds elapsed
+    sync::detail::system_duration::native_type elapsed() const BOOST_NOEXCEPT
+    {
+        boost::winapi::LARGE_INTEGER_ now, freq;
+        boost::winapi::QueryPerformanceFrequency(&freq);
+        boost::winapi::QueryPerformanceCounter(&now);
+        const boost::winapi::LONGLONG_ ticks = now.QuadPart - m_start.QuadPart;
+        return static_cast< sync::detail::system_duration::native_type >(ticks / freq.QuadPart * 1000 + ticks % freq.QuadPart * 1000 / freq.QuadPart);
+    }
+};
+
+} // namespace windows
+
+} // namespace detail
+
+} // namespace sync
+
+} // namespace boost
+
+#include <boost/sync/detail/footer.hpp>
+
+#endif // BOOST_SYNC_DETAIL_ELAPSED_TIMER_WINDOWS_HPP_INCLUDED_
diff --git a/include/boost/sync/detail/mutexes/timed_mutex_windows.hpp b/include/boost/sync/detail/mutexes/timed_mutex_windows.hpp
index c04dc19..46aa982 100644
--- a/include/boost/sync/detail/mutexes/timed_mutex_windows.hpp
+++ b/include/boost/sync/detail/mutexes/timed_mutex_windows.hpp
@@ -23,7 +23,6 @@
 #include <boost/memory_order.hpp>
 #include <boost/atomic/atomic.hpp>
 #include <boost/core/enable_if.hpp>
-#include <boost/winapi/time.hpp>
 #include <boost/winapi/wait.hpp>
 #include <boost/winapi/waitable_timer.hpp>
 #include <boost/sync/exceptions/lock_error.hpp>
@@ -31,6 +30,7 @@
 #include <boost/sync/detail/throw_exception.hpp>
 #include <boost/sync/detail/time_traits.hpp>
 #include <boost/sync/detail/time_units.hpp>
+#include <boost/sync/detail/elapsed_timer_windows.hpp>
 #include <boost/sync/detail/waitable_timer.hpp>
 #include <boost/sync/detail/mutexes/basic_mutex_windows.hpp>
 
@@ -171,8 +171,9 @@ private:
         try
         {
             const boost::winapi::HANDLE_ evt = m_mutex.get_event();
-            sync::detail::system_duration::native_type time_left = t.get();
-            boost::winapi::DWORD_ last_tick_count = boost::winapi::GetTickCount();
+            const sync::detail::system_duration::native_type timeout = t.get();
+            sync::detail::system_duration::native_type time_left = timeout;
+            const sync::detail::windows::elapsed_timer timer;
             while (time_left > 0)
             {
                 const boost::winapi::DWORD_ dur = time_left > boost::winapi::max_non_infinite_wait ?
@@ -184,17 +185,12 @@ private:
                     m_mutex.clear_waiting_and_try_lock(old_count);
                     if ((old_count & sync::detail::windows::basic_mutex::lock_flag_value) == 0)
                         return true;
-                    {
-                        // Another thread has locked the mutex, only wait for the rest of the timeout
-                        const boost::winapi::DWORD_ tick_count = boost::winapi::GetTickCount();
-                        time_left -= static_cast< boost::winapi::DWORD_ >(tick_count - last_tick_count);
-                        last_tick_count = tick_count;
-                    }
+                    // Another thread has locked the mutex, only wait for the rest of the timeout
+                    time_left = timeout - timer.elapsed();
                     break;
 
                 case boost::winapi::wait_timeout:
                     time_left -= dur;
-                    last_tick_count += dur;
                     break;
 
                 default:
-- 
2.43.0


From 8ec8de27beb0a5238ba616c82d0e5196742f3140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:35 +0000
Subject: [PATCH 29/35] fix: data race on the initialization flag of the
 Windows waitable timer storage

---
 include/boost/sync/detail/waitable_timer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/sync/detail/waitable_timer.hpp b/include/boost/sync/detail/waitable_timer.hpp
index 64cb8e1..8d4f9d4 100644
--- a/include/boost/sync/detail/waitable_timer.hpp
+++ b/include/boost/sync/detail/waitable_timer.hpp
@@ -302,7 +302,8 @@ inline boost::winapi::HANDLE_ get_waitable_timer()
 {
     waitable_timer_state& state = weak_linkage< waitable_timer_state >::value;
 
-    if (state.initialized != waitable_timer_state::st_initialized)
+    // Note: The atomic operation also synchronizes with the thread that has initialized tls_key
+    if (BOOST_INTERLOCKED_COMPARE_EXCHANGE(&state.initialized, waitable_timer_state::st_initialized, waitable_timer_state::st_initialized) != waitable_timer_state::st_initialized)
         state.init();
 
     waitable_timer_state::thread_local_context* p =
-- 
2.43.0


From 0b3032baed1ed26aabc34616da1dd346f221c1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:54 +0000
Subject: [PATCH 30/35] fix: data race on the initialization flag of
 thread-specific storage on Windows XP

---
 src/tss_windows.cpp | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/tss_windows.cpp b/src/tss_windows.cpp
index 23bf218..7fabc08 100644
--- a/src/tss_windows.cpp
+++ b/src/tss_windows.cpp
@@ -84,21 +84,19 @@ BOOST_FORCEINLINE void init_tss_once()
 
 BOOST_FORCEINLINE void init_tss_once() BOOST_NOEXCEPT
 {
-    if (const_cast< long volatile& >(init_tss_once_flag) != 2)
+    // Note: The atomic operation also synchronizes with the thread that has performed the initialization
+    while (true)
     {
-        while (true)
+        long old_val = BOOST_INTERLOCKED_COMPARE_EXCHANGE(&init_tss_once_flag, 1, 0);
+        if (old_val == 2)
+            break;
+        else if (old_val == 1)
+            SwitchToThread();
+        else
         {
-            long old_val = BOOST_INTERLOCKED_COMPARE_EXCHANGE(&init_tss_once_flag, 1, 0);
-            if (old_val == 2)
-                break;
-            else if (old_val == 1)
-                SwitchToThread();
-            else
-            {
-                init_tss(NULL, NULL, NULL);
-                BOOST_INTERLOCKED_EXCHANGE(&init_tss_once_flag, 2);
-                break;
-            }
+            init_tss(NULL, NULL, NULL);
+            BOOST_INTERLOCKED_EXCHANGE(&init_tss_once_flag, 2);
+            break;
         }
     }
 }
-- 
2.43.0


From dd35c2038d5317eec4b169de957b3aaf4359cab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:01 +0000
Subject: [PATCH 31/35] fix: report failure to attach thread-specific data to
 the thread on Windows XP

If TlsSetValue failed, the error was ignored, the values and thread exit functions were silently lost and never cleaned up.
---
 src/tss_windows.cpp | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/tss_windows.cpp b/src/tss_windows.cpp
index 7fabc08..210dba4 100644
--- a/src/tss_windows.cpp
+++ b/src/tss_windows.cpp
@@ -20,7 +20,9 @@
 #include <cstddef>
 #include <cstdlib>
 #include <boost/detail/interlocked.hpp>
+#include <boost/sync/detail/throw_exception.hpp>
 #include <boost/sync/detail/tss.hpp>
+#include <boost/sync/exceptions/resource_error.hpp>
 #include <boost/sync/condition_variables/notify_all_at_thread_exit.hpp>
 #include "tss_manager.hpp"
 #include "tss_windows_hooks.hpp"
@@ -109,9 +111,10 @@ BOOST_FORCEINLINE tss_manager::thread_context* get_thread_context() BOOST_NOEXCE
 {
     return tss_context;
 }
-BOOST_FORCEINLINE void set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
+BOOST_FORCEINLINE bool set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
 {
     tss_context = p;
+    return true;
 }
 
 #else // defined(BOOST_SYNC_DETAIL_TLS)
@@ -120,13 +123,25 @@ BOOST_FORCEINLINE tss_manager::thread_context* get_thread_context() BOOST_NOEXCE
 {
     return static_cast< tss_manager::thread_context* >(TlsGetValue(tss_key));
 }
-BOOST_FORCEINLINE void set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
+BOOST_FORCEINLINE bool set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
 {
-    TlsSetValue(tss_key, p);
+    return !!TlsSetValue(tss_key, p);
 }
 
 #endif // defined(BOOST_SYNC_DETAIL_TLS)
 
+tss_manager::thread_context* create_thread_context()
+{
+    tss_manager::thread_context* const ctx = tss_mgr->create_thread_context();
+    if (BOOST_UNLIKELY(!set_thread_context(ctx)))
+    {
+        const DWORD err = GetLastError();
+        tss_mgr->destroy_thread_context(ctx);
+        BOOST_SYNC_DETAIL_THROW(resource_error, (err)("failed to set thread-specific value in TlsSetValue"));
+    }
+    return ctx;
+}
+
 } // namespace
 
 namespace windows {
@@ -171,8 +186,7 @@ BOOST_SYNC_API void add_thread_exit_notify_entry(sync::mutex& mtx, sync::conditi
 
     if (!ctx)
     {
-        ctx = tss_mgr->create_thread_context();
-        set_thread_context(ctx);
+        ctx = create_thread_context();
     }
 
     ctx->add_notify_at_exit_entry(&mtx, &cond);
@@ -185,8 +199,7 @@ BOOST_SYNC_API void add_thread_exit_callback(at_thread_exit_callback callback, v
 
     if (!ctx)
     {
-        ctx = tss_mgr->create_thread_context();
-        set_thread_context(ctx);
+        ctx = create_thread_context();
     }
 
     ctx->add_at_exit_entry(callback, context);
@@ -224,8 +237,7 @@ BOOST_SYNC_API void set_thread_specific(thread_specific_key key, void* p)
 
     if (!ctx)
     {
-        ctx = tss_mgr->create_thread_context();
-        set_thread_context(ctx);
+        ctx = create_thread_context();
     }
 
     ctx->set_value(key, p);
-- 
2.43.0


From 0c03b1dcd4f2778cfd5fb818d0b5ec3ea0e76904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:09 +0000
Subject: [PATCH 32/35] fix: libdispatch semaphore: wait_until with a system
 time point at or before the epoch blocked forever, and far-future time points
 overflowed

---
 .../boost/sync/detail/semaphore/semaphore_dispatch.hpp   | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/boost/sync/detail/semaphore/semaphore_dispatch.hpp b/include/boost/sync/detail/semaphore/semaphore_dispatch.hpp
index fad42d7..d5fd8bb 100644
--- a/include/boost/sync/detail/semaphore/semaphore_dispatch.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_dispatch.hpp
@@ -119,6 +119,15 @@ private:
     bool priv_timed_wait(sync::detail::system_time_point const& t)
     {
         struct timespec timespec_timeout = t.get();
+        // dispatch_walltime converts time points at or before the epoch to DISPATCH_TIME_FOREVER, and the conversion to nanoseconds
+        // overflows if the time point is too far in the future
+        if (timespec_timeout.tv_sec < 0 || (timespec_timeout.tv_sec == 0 && timespec_timeout.tv_nsec <= 1))
+            return try_wait();
+
+        const int64_t max_seconds = sync::detail::system_duration::max_seconds;
+        if (timespec_timeout.tv_sec > max_seconds)
+            timespec_timeout.tv_sec = static_cast< time_t >(max_seconds);
+
         dispatch_time_t timeout = dispatch_walltime( &timespec_timeout, 0 );
         return dispatch_semaphore_wait(m_sem, timeout) == 0;
     }
-- 
2.43.0


From bb99b848a5e254acdf764211b2c3286e04d7a165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:09 +0000
Subject: [PATCH 33/35] fix: libdispatch semaphore: wait_until with a time
 point of a non-system clock in the distant past blocked instead of timing out

---
 .../boost/sync/detail/semaphore/semaphore_dispatch.hpp    | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/sync/detail/semaphore/semaphore_dispatch.hpp b/include/boost/sync/detail/semaphore/semaphore_dispatch.hpp
index d5fd8bb..30d99cc 100644
--- a/include/boost/sync/detail/semaphore/semaphore_dispatch.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_dispatch.hpp
@@ -135,16 +135,20 @@ private:
     template< typename TimePoint >
     bool priv_timed_wait(sync::detail::chrono_time_point< TimePoint > const& t)
     {
+        // Try the fast path first. Also, the time point may be too far in the past to subtract the current time from it.
+        if (try_wait())
+            return true;
+
         typedef TimePoint time_point;
         typedef typename time_point::clock clock;
         typedef typename time_point::duration duration;
         time_point now = clock::now();
-        do
+        while (now < t.get())
         {
             if (priv_timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
                 return true;
             now = clock::now();
-        } while (now < t.get());
+        }
         return false;
     }
 
-- 
2.43.0


From 51796f4883c26d99a7797ad6c246c9de03aefd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:09 +0000
Subject: [PATCH 34/35] fix: Windows mutex: unlock() terminated the program if
 it failed to create the event for a thread that has begun to wait

---
 include/boost/sync/detail/mutexes/basic_mutex_windows.hpp | 8 ++++++--
 include/boost/sync/detail/mutexes/timed_mutex_windows.hpp | 7 +++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/boost/sync/detail/mutexes/basic_mutex_windows.hpp b/include/boost/sync/detail/mutexes/basic_mutex_windows.hpp
index 7722974..ad7c532 100644
--- a/include/boost/sync/detail/mutexes/basic_mutex_windows.hpp
+++ b/include/boost/sync/detail/mutexes/basic_mutex_windows.hpp
@@ -22,6 +22,7 @@
 #include <boost/assert.hpp>
 #include <boost/memory_order.hpp>
 #include <boost/atomic/atomic.hpp>
+#include <boost/atomic/fences.hpp>
 #include <boost/winapi/handles.hpp>
 #include <boost/winapi/event.hpp>
 #include <boost/winapi/wait.hpp>
@@ -87,6 +88,8 @@ public:
         {
             if (!m_active_count.bit_test_and_set(event_set_flag_bit, boost::memory_order_relaxed))
             {
+                // Make sure the event created by the waiting thread is visible
+                boost::atomic_thread_fence(boost::memory_order_acquire);
                 boost::winapi::SetEvent(get_event());
             }
         }
@@ -131,7 +134,7 @@ public:
         {
             const boost::uint32_t was_locked = (old_count & lock_flag_value);
             const boost::uint32_t new_count = was_locked ? (old_count + 1u) : (old_count | lock_flag_value);
-            if (m_active_count.compare_exchange_weak(old_count, new_count, boost::memory_order_acquire, boost::memory_order_relaxed))
+            if (m_active_count.compare_exchange_weak(old_count, new_count, boost::memory_order_acq_rel, boost::memory_order_relaxed))
             {
                 if (was_locked)
                     old_count = new_count;
@@ -158,12 +161,13 @@ public:
 private:
     void priv_lock()
     {
+        // Note: The event must be created before this thread is marked as waiting, so that unlock() doesn't have to create it, which may fail
+        boost::winapi::HANDLE_ const evt = get_event();
         boost::uint32_t old_count = m_active_count.load(boost::memory_order_acquire);
         mark_waiting_and_try_lock(old_count);
 
         if (old_count & lock_flag_value) try
         {
-            boost::winapi::HANDLE_ const evt = get_event();
             do
             {
                 const boost::winapi::DWORD_ retval = boost::winapi::WaitForSingleObject(evt, boost::winapi::infinite);
diff --git a/include/boost/sync/detail/mutexes/timed_mutex_windows.hpp b/include/boost/sync/detail/mutexes/timed_mutex_windows.hpp
index 46aa982..bc01a15 100644
--- a/include/boost/sync/detail/mutexes/timed_mutex_windows.hpp
+++ b/include/boost/sync/detail/mutexes/timed_mutex_windows.hpp
@@ -111,6 +111,8 @@ public:
 private:
     bool priv_timed_lock(sync::detail::system_time_point const& t)
     {
+        // Note: The event must be created before this thread is marked as waiting, see basic_mutex
+        const boost::winapi::HANDLE_ evt = m_mutex.get_event();
         boost::uint32_t old_count = m_mutex.m_active_count.load(boost::memory_order_acquire);
         m_mutex.mark_waiting_and_try_lock(old_count);
         if ((old_count & sync::detail::windows::basic_mutex::lock_flag_value) == 0u)
@@ -119,7 +121,7 @@ private:
         try
         {
             boost::winapi::HANDLE_ handles[2];
-            handles[0] = m_mutex.get_event();
+            handles[0] = evt;
             handles[1] = sync::detail::windows::get_waitable_timer();
 
             if (BOOST_UNLIKELY(!boost::winapi::SetWaitableTimer(handles[1], reinterpret_cast< const boost::winapi::LARGE_INTEGER_* >(&t.get()), 0, NULL, NULL, false)))
@@ -163,6 +165,8 @@ private:
 
     bool priv_timed_lock(sync::detail::system_duration t)
     {
+        // Note: The event must be created before this thread is marked as waiting, see basic_mutex
+        const boost::winapi::HANDLE_ evt = m_mutex.get_event();
         boost::uint32_t old_count = m_mutex.m_active_count.load(boost::memory_order_acquire);
         m_mutex.mark_waiting_and_try_lock(old_count);
         if ((old_count & sync::detail::windows::basic_mutex::lock_flag_value) == 0u)
@@ -170,7 +174,6 @@ private:
 
         try
         {
-            const boost::winapi::HANDLE_ evt = m_mutex.get_event();
             const sync::detail::system_duration::native_type timeout = t.get();
             sync::detail::system_duration::native_type time_left = timeout;
             const sync::detail::windows::elapsed_timer timer;
-- 
2.43.0


From d63648943635b1f40319a33fe1f6fd816e190d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:09 +0000
Subject: [PATCH 35/35] fix: Windows condition variables: notifications
 terminated the program if the event of the internal mutex could not be
 created

---
 .../basic_condition_variable_windows.hpp                  | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/boost/sync/detail/condition_variables/basic_condition_variable_windows.hpp b/include/boost/sync/detail/condition_variables/basic_condition_variable_windows.hpp
index 4c5b5d3..664ddb2 100644
--- a/include/boost/sync/detail/condition_variables/basic_condition_variable_windows.hpp
+++ b/include/boost/sync/detail/condition_variables/basic_condition_variable_windows.hpp
@@ -36,7 +36,7 @@
 #include <boost/sync/detail/waitable_timer.hpp>
 #include <boost/sync/locks/unique_lock_fwd.hpp>
 #include <boost/sync/locks/lock_guard.hpp>
-#include <boost/sync/mutexes/mutex.hpp>
+#include <boost/sync/detail/mutexes/basic_mutex_windows.hpp>
 #include <boost/sync/condition_variables/cv_status.hpp>
 #include <boost/sync/detail/header.hpp>
 
@@ -55,7 +55,7 @@ namespace windows {
 class basic_condition_variable
 {
 private:
-    typedef boost::sync::mutex mutex_type;
+    typedef sync::detail::windows::basic_mutex mutex_type;
 
     /*!
      * \brief An entry of the list of semaphores to block and release threads.
@@ -289,10 +289,12 @@ private:
         if (!m_wait_state)
         {
             // It's the first waiter
+            // Make sure the event used by the internal mutex exists so that locking the mutex in notify_one() and notify_all() doesn't have to create it, which may fail
+            m_internal_mutex.get_event();
             waiter_state* p = new waiter_state();
             m_notify_state = m_wait_state = p;
             p->m_waiter_count = 1u;
-            m_total_waiter_count.store(1u, boost::memory_order_relaxed);
+            m_total_waiter_count.store(1u, boost::memory_order_release);
             return p;
         }
 
-- 
2.43.0

