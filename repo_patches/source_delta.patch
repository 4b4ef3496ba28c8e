From 0d6bc207232d50a5b742d3392db841544670d7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:29 +0000
Subject: [PATCH 1/7] fix: re-read the value after registering the wait in
 generic timed waits

A change followed by a notification that falls between the first load and the
registration of the waiter was missed, and the wait blocked until its timeout.
---
 include/boost/atomic/detail/wait_ops_generic.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/atomic/detail/wait_ops_generic.hpp b/include/boost/atomic/detail/wait_ops_generic.hpp
index 7503d5c..916373c 100644
--- a/include/boost/atomic/detail/wait_ops_generic.hpp
+++ b/include/boost/atomic/detail/wait_ops_generic.hpp
@@ -93,6 +93,7 @@ private:
         if (new_val == old_val)
         {
             scoped_wait_state wait_state(&storage);
+            new_val = base_type::load(storage, order);
             while (new_val == old_val)
             {
                 const std::chrono::nanoseconds nsec = atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout - now);
@@ -128,6 +129,7 @@ private:
         if (new_val == old_val)
         {
             scoped_wait_state wait_state(&storage);
+            new_val = base_type::load(storage, order);
             const timespec abs_timeout(posix_clock_traits< Clock >::to_timespec(timeout));
             if (BOOST_LIKELY(abs_timeout.tv_sec >= 0))
             {
-- 
2.43.0


From a451f2f83654ef7b904949a54c7ac6db7200022d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:29 +0000
Subject: [PATCH 2/7] fix: compare time points instead of subtracting an
 expired deadline from now

For deadlines close to time_point::min() the difference overflowed, and a wait
with an expired deadline blocked forever.
---
 include/boost/atomic/detail/wait_ops_emulated.hpp | 5 ++---
 include/boost/atomic/detail/wait_ops_futex.hpp    | 4 ++--
 include/boost/atomic/detail/wait_ops_generic.hpp  | 9 ++++-----
 3 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/boost/atomic/detail/wait_ops_emulated.hpp b/include/boost/atomic/detail/wait_ops_emulated.hpp
index 6f12f3a..a857f5a 100644
--- a/include/boost/atomic/detail/wait_ops_emulated.hpp
+++ b/include/boost/atomic/detail/wait_ops_emulated.hpp
@@ -85,14 +85,13 @@ private:
         storage_type new_val = s;
         while (new_val == old_val)
         {
-            const std::chrono::nanoseconds nsec = atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout - now);
-            if (nsec.count() <= 0)
+            if (now >= timeout)
             {
                 timed_out = true;
                 break;
             }
 
-            wait_state.wait_for(nsec);
+            wait_state.wait_for(atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout - now));
 
             now = Clock::now();
             new_val = s;
diff --git a/include/boost/atomic/detail/wait_ops_futex.hpp b/include/boost/atomic/detail/wait_ops_futex.hpp
index 5db7e88..34b6d59 100644
--- a/include/boost/atomic/detail/wait_ops_futex.hpp
+++ b/include/boost/atomic/detail/wait_ops_futex.hpp
@@ -140,13 +140,13 @@ private:
         storage_type new_val = base_type::load(storage, order);
         while (new_val == old_val)
         {
-            const std::int64_t nsec = atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout - now).count();
-            if (nsec <= 0)
+            if (now >= timeout)
             {
                 timed_out = true;
                 break;
             }
 
+            const std::int64_t nsec = atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout - now).count();
             const std::int64_t sec = nsec / 1000000000;
             if (BOOST_LIKELY(sec <= (std::numeric_limits< decltype(ts.tv_sec) >::max)()))
             {
diff --git a/include/boost/atomic/detail/wait_ops_generic.hpp b/include/boost/atomic/detail/wait_ops_generic.hpp
index 916373c..62977f8 100644
--- a/include/boost/atomic/detail/wait_ops_generic.hpp
+++ b/include/boost/atomic/detail/wait_ops_generic.hpp
@@ -96,14 +96,13 @@ private:
             new_val = base_type::load(storage, order);
             while (new_val == old_val)
             {
-                const std::chrono::nanoseconds nsec = atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout - now);
-                if (nsec.count() <= 0)
+                if (now >= timeout)
                 {
                     timed_out = true;
                     break;
                 }
 
-                wait_state.wait_for(nsec);
+                wait_state.wait_for(atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout - now));
 
                 now = Clock::now();
                 new_val = base_type::load(storage, order);
@@ -300,7 +299,7 @@ private:
         {
             for (unsigned int i = 0u; i < fast_loop_count; ++i)
             {
-                if ((now - timeout).count() >= 0)
+                if (now >= timeout)
                 {
                     timed_out = true;
                     goto finish;
@@ -316,7 +315,7 @@ private:
 
             do
             {
-                if ((now - timeout).count() >= 0)
+                if (now >= timeout)
                 {
                     timed_out = true;
                     goto finish;
-- 
2.43.0


From b16a71e0316a6f714501fd9517c716d3e9e83204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:16 +0000
Subject: [PATCH 3/7] fix: limit the deadline of wait_for to the representable
 range

Adding a very large timeout to the current time overflowed: the wait reported a
timeout immediately, or polled a futex with an invalid deadline.
---
 include/boost/atomic/detail/chrono.hpp            | 12 ++++++++++++
 include/boost/atomic/detail/wait_ops_emulated.hpp |  2 +-
 include/boost/atomic/detail/wait_ops_futex.hpp    | 10 ++++++----
 include/boost/atomic/detail/wait_ops_generic.hpp  |  4 ++--
 src/lock_pool.cpp                                 |  4 ++--
 5 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/include/boost/atomic/detail/chrono.hpp b/include/boost/atomic/detail/chrono.hpp
index 154722f..cf73ea5 100644
--- a/include/boost/atomic/detail/chrono.hpp
+++ b/include/boost/atomic/detail/chrono.hpp
@@ -15,6 +15,7 @@
 #define BOOST_ATOMIC_DETAIL_CHRONO_HPP_INCLUDED_
 
 #include <time.h>
+#include <cstdint>
 #include <chrono>
 #if !defined(__cpp_lib_chrono) || (__cpp_lib_chrono < 201510l)
 #include <ratio>
@@ -52,6 +53,17 @@ inline constexpr To ceil(std::chrono::duration< Rep, Period > from) noexcept
 
 #endif // defined(__cpp_lib_chrono) && (__cpp_lib_chrono >= 201510l)
 
+//! Converts a relative timeout to a deadline, limiting the result to the range of representable time points
+template< typename TimePoint, typename Rep, typename Period >
+inline TimePoint deadline_after(TimePoint now, std::chrono::duration< Rep, Period > timeout) noexcept
+{
+    if (timeout.count() <= 0)
+        return now;
+    if (timeout > std::chrono::duration_cast< std::chrono::duration< std::intmax_t, Period > >((TimePoint::max)() - now))
+        return (TimePoint::max)();
+    return now + timeout;
+}
+
 } // namespace chrono
 } // namespace detail
 
diff --git a/include/boost/atomic/detail/wait_ops_emulated.hpp b/include/boost/atomic/detail/wait_ops_emulated.hpp
index a857f5a..172b407 100644
--- a/include/boost/atomic/detail/wait_ops_emulated.hpp
+++ b/include/boost/atomic/detail/wait_ops_emulated.hpp
@@ -207,7 +207,7 @@ public:
     {
         static_assert(!base_type::is_interprocess, "Boost.Atomic: operation invoked on a non-lock-free inter-process atomic object");
         const std::chrono::steady_clock::time_point now = std::chrono::steady_clock::now();
-        return wait_until_fallback< std::chrono::steady_clock >(storage, old_val, now + timeout, now, timed_out);
+        return wait_until_fallback< std::chrono::steady_clock >(storage, old_val, atomics::detail::chrono::deadline_after(now, timeout), now, timed_out);
     }
 
     static void notify_one(storage_type volatile& storage) noexcept
diff --git a/include/boost/atomic/detail/wait_ops_futex.hpp b/include/boost/atomic/detail/wait_ops_futex.hpp
index 34b6d59..eca918d 100644
--- a/include/boost/atomic/detail/wait_ops_futex.hpp
+++ b/include/boost/atomic/detail/wait_ops_futex.hpp
@@ -289,13 +289,15 @@ public:
     ) noexcept
     {
 #if defined(BOOST_ATOMIC_DETAIL_FUTEX_WAIT_BITSET) && defined(_POSIX_MONOTONIC_CLOCK) && (_POSIX_MONOTONIC_CLOCK >= 0)
-        if (BOOST_LIKELY(timeout.count() >= 0))
+        using max_timeout_type = std::chrono::duration< std::intmax_t, Period >;
+        if (BOOST_LIKELY(timeout.count() >= 0) && BOOST_LIKELY(timeout <= std::chrono::duration_cast< max_timeout_type >((std::chrono::nanoseconds::max)())))
         {
             timespec now{};
             if (BOOST_LIKELY(clock_gettime(CLOCK_MONOTONIC, &now) == 0))
             {
-                const std::int64_t nsec = static_cast< std::int64_t >(now.tv_nsec) + atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout).count();
-                const std::int64_t sec = static_cast< std::int64_t >(now.tv_sec) + nsec / 1000000000;
+                const std::int64_t timeout_nsec = atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout).count();
+                const std::int64_t nsec = static_cast< std::int64_t >(now.tv_nsec) + timeout_nsec % 1000000000;
+                const std::int64_t sec = static_cast< std::int64_t >(now.tv_sec) + timeout_nsec / 1000000000 + nsec / 1000000000;
                 if (BOOST_LIKELY(sec <= (std::numeric_limits< decltype(futex_timespec::tv_sec) >::max)()))
                 {
                     futex_timespec ts{};
@@ -331,7 +333,7 @@ public:
 #endif // defined(BOOST_ATOMIC_DETAIL_FUTEX_WAIT_BITSET) && defined(_POSIX_MONOTONIC_CLOCK) && (_POSIX_MONOTONIC_CLOCK >= 0)
 
         const std::chrono::steady_clock::time_point now = std::chrono::steady_clock::now();
-        return wait_until_fallback< std::chrono::steady_clock >(storage, old_val, now + timeout, now, order, timed_out);
+        return wait_until_fallback< std::chrono::steady_clock >(storage, old_val, atomics::detail::chrono::deadline_after(now, timeout), now, order, timed_out);
     }
 
     static BOOST_FORCEINLINE void notify_one(storage_type volatile& storage) noexcept
diff --git a/include/boost/atomic/detail/wait_ops_generic.hpp b/include/boost/atomic/detail/wait_ops_generic.hpp
index 62977f8..9a5cd99 100644
--- a/include/boost/atomic/detail/wait_ops_generic.hpp
+++ b/include/boost/atomic/detail/wait_ops_generic.hpp
@@ -223,7 +223,7 @@ public:
     ) noexcept
     {
         const std::chrono::steady_clock::time_point now = std::chrono::steady_clock::now();
-        return wait_until_fallback< std::chrono::steady_clock >(storage, old_val, now + timeout, now, order, timed_out);
+        return wait_until_fallback< std::chrono::steady_clock >(storage, old_val, atomics::detail::chrono::deadline_after(now, timeout), now, order, timed_out);
     }
 
     static BOOST_FORCEINLINE void notify_one(storage_type volatile& storage) noexcept
@@ -357,7 +357,7 @@ public:
     ) noexcept
     {
         const std::chrono::steady_clock::time_point now = std::chrono::steady_clock::now();
-        return wait_until_impl< std::chrono::steady_clock >(storage, old_val, now + timeout, now, order, timed_out);
+        return wait_until_impl< std::chrono::steady_clock >(storage, old_val, atomics::detail::chrono::deadline_after(now, timeout), now, order, timed_out);
     }
 
     static BOOST_FORCEINLINE void notify_one(storage_type volatile&) noexcept
diff --git a/src/lock_pool.cpp b/src/lock_pool.cpp
index fe477e3..5daf3cd 100644
--- a/src/lock_pool.cpp
+++ b/src/lock_pool.cpp
@@ -490,8 +490,8 @@ inline bool wait_state::wait_for(lock_state& state, std::chrono::nanoseconds rel
     timespec ts{};
     BOOST_VERIFY(clock_gettime(m_clock_id, &ts) == 0);
 
-    std::chrono::nanoseconds::rep nsec = rel_timeout.count() + ts.tv_nsec;
-    std::chrono::nanoseconds::rep sec = static_cast< std::chrono::nanoseconds::rep >(ts.tv_sec) + nsec / 1000000000;
+    std::chrono::nanoseconds::rep nsec = rel_timeout.count() % 1000000000 + ts.tv_nsec;
+    std::chrono::nanoseconds::rep sec = static_cast< std::chrono::nanoseconds::rep >(ts.tv_sec) + rel_timeout.count() / 1000000000 + nsec / 1000000000;
     if (BOOST_LIKELY(sec <= (std::numeric_limits< decltype(ts.tv_sec) >::max)()))
     {
         ts.tv_sec = static_cast< decltype(ts.tv_sec) >(sec);
-- 
2.43.0


From 431cb80c5491c5196c780a546e39b1af102b2d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:05 +0000
Subject: [PATCH 4/7] fix: value-initialize pointers to data members in the
 default constructor

---
 include/boost/atomic/detail/atomic_impl.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/atomic/detail/atomic_impl.hpp b/include/boost/atomic/detail/atomic_impl.hpp
index c662426..77f63c4 100644
--- a/include/boost/atomic/detail/atomic_impl.hpp
+++ b/include/boost/atomic/detail/atomic_impl.hpp
@@ -138,7 +138,12 @@ constexpr bool base_atomic_common< T, Signed, Interprocess >::always_has_native_
 #endif
 
 
-template< typename T, bool Interprocess, bool IsTriviallyDefaultConstructible = atomics::detail::is_trivially_default_constructible< T >::value >
+// Note: Value initialization of pointers to data members does not necessarily produce an all-zero object representation
+template<
+    typename T,
+    bool Interprocess,
+    bool IsZeroInitialized = atomics::detail::is_trivially_default_constructible< T >::value && !std::is_member_object_pointer< T >::value
+>
 class base_atomic_generic;
 
 template< typename T, bool Interprocess >
-- 
2.43.0


From f269785ce3eae84e880d82eae40fcae08d310a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:38 +0000
Subject: [PATCH 5/7] fix: limit deadline arithmetic to the representable range
 for all clocks and durations

Deadlines far away overflowed signed arithmetic on clocks of coarse resolution and on clocks
whose current time is negative, and floating point or sub-nanosecond durations did not compile.
---
 include/boost/atomic/detail/chrono.hpp        | 48 +++++++++++++------
 .../boost/atomic/detail/wait_ops_emulated.hpp | 10 ++--
 .../boost/atomic/detail/wait_ops_futex.hpp    | 15 +++---
 .../boost/atomic/detail/wait_ops_generic.hpp  | 14 +++---
 4 files changed, 53 insertions(+), 34 deletions(-)

diff --git a/include/boost/atomic/detail/chrono.hpp b/include/boost/atomic/detail/chrono.hpp
index cf73ea5..c5ece31 100644
--- a/include/boost/atomic/detail/chrono.hpp
+++ b/include/boost/atomic/detail/chrono.hpp
@@ -36,22 +36,41 @@ namespace atomics {
 namespace detail {
 namespace chrono {
 
-#if defined(__cpp_lib_chrono) && (__cpp_lib_chrono >= 201510l)
-
-using std::chrono::ceil;
-
-#else // defined(__cpp_lib_chrono) && (__cpp_lib_chrono >= 201510l)
-
+//! Converts a duration to the target type, rounding up and limiting the result to the range of representable values
 template< typename To, typename Rep, typename Period >
-inline constexpr To ceil(std::chrono::duration< Rep, Period > from) noexcept
+inline To ceil(std::chrono::duration< Rep, Period > from) noexcept
+{
+    if (std::is_same< To, std::chrono::duration< Rep, Period > >::value)
+        return std::chrono::duration_cast< To >(from);
+
+    // The conversion may overflow, unless it is done in floating point
+    using wide_duration = std::chrono::duration< long double, typename To::period >;
+    const wide_duration wide_from(from);
+    if (wide_from >= wide_duration((To::max)()))
+        return (To::max)();
+    if (wide_from <= wide_duration((To::min)()))
+        return (To::min)();
+
+    const To to = std::chrono::duration_cast< To >(from);
+    return to < from ? to + To(1) : to;
+}
+
+//! Converts a time point to the time point of its clock, rounding up and limiting the result to the range of representable time points
+template< typename Clock, typename Duration >
+inline typename Clock::time_point to_clock_time_point(std::chrono::time_point< Clock, Duration > time_point) noexcept
 {
-    using conv_ratio = std::ratio_divide< Period, typename To::period >;
-    using common_rep = typename std::common_type< Rep, typename To::rep, decltype(conv_ratio::num) >::type;
-    return To(static_cast< typename To::rep >((static_cast< common_rep >(from.count()) * conv_ratio::num) / conv_ratio::den +
-        static_cast< common_rep >(((static_cast< common_rep >(from.count()) * conv_ratio::num) % conv_ratio::den) != static_cast< common_rep >(0))));
+    return typename Clock::time_point(atomics::detail::chrono::ceil< typename Clock::duration >(time_point.time_since_epoch()));
 }
 
-#endif // defined(__cpp_lib_chrono) && (__cpp_lib_chrono >= 201510l)
+//! Returns the time left until the deadline that is later than now, rounding up and limiting the result to the range of representable durations
+template< typename To, typename TimePoint >
+inline To time_left(TimePoint deadline, TimePoint now) noexcept
+{
+    using duration = typename TimePoint::duration;
+    if (now.time_since_epoch() < duration::zero() && deadline > (TimePoint::max)() + now.time_since_epoch())
+        return atomics::detail::chrono::ceil< To >((duration::max)());
+    return atomics::detail::chrono::ceil< To >(deadline - now);
+}
 
 //! Converts a relative timeout to a deadline, limiting the result to the range of representable time points
 template< typename TimePoint, typename Rep, typename Period >
@@ -59,9 +78,10 @@ inline TimePoint deadline_after(TimePoint now, std::chrono::duration< Rep, Perio
 {
     if (timeout.count() <= 0)
         return now;
-    if (timeout > std::chrono::duration_cast< std::chrono::duration< std::intmax_t, Period > >((TimePoint::max)() - now))
+    const typename TimePoint::duration rel_timeout = atomics::detail::chrono::ceil< typename TimePoint::duration >(timeout);
+    if (rel_timeout > (TimePoint::max)() - now)
         return (TimePoint::max)();
-    return now + timeout;
+    return now + rel_timeout;
 }
 
 } // namespace chrono
diff --git a/include/boost/atomic/detail/wait_ops_emulated.hpp b/include/boost/atomic/detail/wait_ops_emulated.hpp
index 172b407..cb6ce0a 100644
--- a/include/boost/atomic/detail/wait_ops_emulated.hpp
+++ b/include/boost/atomic/detail/wait_ops_emulated.hpp
@@ -91,7 +91,7 @@ private:
                 break;
             }
 
-            wait_state.wait_for(atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout - now));
+            wait_state.wait_for(atomics::detail::chrono::time_left< std::chrono::nanoseconds >(timeout, now));
 
             now = Clock::now();
             new_val = s;
@@ -170,10 +170,10 @@ public:
         std::chrono::time_point< Clock, Duration > timeout,
         memory_order,
         bool& timed_out
-    ) noexcept(noexcept(wait_until_dispatch< Clock >(storage, old_val, timeout, timed_out, std::integral_constant< bool, has_posix_clock_traits< Clock >::value >())))
+    ) noexcept(noexcept(wait_until_dispatch< Clock >(storage, old_val, atomics::detail::chrono::to_clock_time_point(timeout), timed_out, std::integral_constant< bool, has_posix_clock_traits< Clock >::value >())))
     {
         static_assert(!base_type::is_interprocess, "Boost.Atomic: operation invoked on a non-lock-free inter-process atomic object");
-        return wait_until_dispatch< Clock >(storage, old_val, timeout, timed_out, std::integral_constant< bool, has_posix_clock_traits< Clock >::value >());
+        return wait_until_dispatch< Clock >(storage, old_val, atomics::detail::chrono::to_clock_time_point(timeout), timed_out, std::integral_constant< bool, has_posix_clock_traits< Clock >::value >());
     }
 
 #else // !defined(BOOST_WINDOWS)
@@ -187,10 +187,10 @@ public:
         std::chrono::time_point< Clock, Duration > timeout,
         memory_order,
         bool& timed_out
-    ) noexcept(noexcept(wait_until_fallback< Clock >(storage, old_val, timeout, Clock::now(), timed_out)))
+    ) noexcept(noexcept(wait_until_fallback< Clock >(storage, old_val, atomics::detail::chrono::to_clock_time_point(timeout), Clock::now(), timed_out)))
     {
         static_assert(!base_type::is_interprocess, "Boost.Atomic: operation invoked on a non-lock-free inter-process atomic object");
-        return wait_until_fallback< Clock >(storage, old_val, timeout, Clock::now(), timed_out);
+        return wait_until_fallback< Clock >(storage, old_val, atomics::detail::chrono::to_clock_time_point(timeout), Clock::now(), timed_out);
     }
 
 #endif // !defined(BOOST_WINDOWS)
diff --git a/include/boost/atomic/detail/wait_ops_futex.hpp b/include/boost/atomic/detail/wait_ops_futex.hpp
index eca918d..5723298 100644
--- a/include/boost/atomic/detail/wait_ops_futex.hpp
+++ b/include/boost/atomic/detail/wait_ops_futex.hpp
@@ -146,7 +146,7 @@ private:
                 break;
             }
 
-            const std::int64_t nsec = atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout - now).count();
+            const std::int64_t nsec = atomics::detail::chrono::time_left< std::chrono::nanoseconds >(timeout, now).count();
             const std::int64_t sec = nsec / 1000000000;
             if (BOOST_LIKELY(sec <= (std::numeric_limits< decltype(ts.tv_sec) >::max)()))
             {
@@ -255,9 +255,9 @@ public:
         std::chrono::time_point< Clock, Duration > timeout,
         memory_order order,
         bool& timed_out
-    ) noexcept(noexcept(wait_until_dispatch< Clock >(storage, old_val, timeout, order, timed_out, typename select_futex_wait< Clock >::type())))
+    ) noexcept(noexcept(wait_until_dispatch< Clock >(storage, old_val, atomics::detail::chrono::to_clock_time_point(timeout), order, timed_out, typename select_futex_wait< Clock >::type())))
     {
-        return wait_until_dispatch< Clock >(storage, old_val, timeout, order, timed_out, typename select_futex_wait< Clock >::type());
+        return wait_until_dispatch< Clock >(storage, old_val, atomics::detail::chrono::to_clock_time_point(timeout), order, timed_out, typename select_futex_wait< Clock >::type());
     }
 
 #else // defined(BOOST_ATOMIC_DETAIL_FUTEX_WAIT_BITSET)
@@ -271,9 +271,9 @@ public:
         std::chrono::time_point< Clock, Duration > timeout,
         memory_order order,
         bool& timed_out
-    ) noexcept(noexcept(wait_until_fallback< Clock >(storage, old_val, timeout, Clock::now(), order, timed_out)))
+    ) noexcept(noexcept(wait_until_fallback< Clock >(storage, old_val, atomics::detail::chrono::to_clock_time_point(timeout), Clock::now(), order, timed_out)))
     {
-        return wait_until_fallback< Clock >(storage, old_val, timeout, Clock::now(), order, timed_out);
+        return wait_until_fallback< Clock >(storage, old_val, atomics::detail::chrono::to_clock_time_point(timeout), Clock::now(), order, timed_out);
     }
 
 #endif // defined(BOOST_ATOMIC_DETAIL_FUTEX_WAIT_BITSET)
@@ -289,13 +289,12 @@ public:
     ) noexcept
     {
 #if defined(BOOST_ATOMIC_DETAIL_FUTEX_WAIT_BITSET) && defined(_POSIX_MONOTONIC_CLOCK) && (_POSIX_MONOTONIC_CLOCK >= 0)
-        using max_timeout_type = std::chrono::duration< std::intmax_t, Period >;
-        if (BOOST_LIKELY(timeout.count() >= 0) && BOOST_LIKELY(timeout <= std::chrono::duration_cast< max_timeout_type >((std::chrono::nanoseconds::max)())))
+        const std::int64_t timeout_nsec = atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout).count();
+        if (BOOST_LIKELY(timeout.count() >= 0) && BOOST_LIKELY(timeout_nsec < (std::chrono::nanoseconds::max)().count()))
         {
             timespec now{};
             if (BOOST_LIKELY(clock_gettime(CLOCK_MONOTONIC, &now) == 0))
             {
-                const std::int64_t timeout_nsec = atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout).count();
                 const std::int64_t nsec = static_cast< std::int64_t >(now.tv_nsec) + timeout_nsec % 1000000000;
                 const std::int64_t sec = static_cast< std::int64_t >(now.tv_sec) + timeout_nsec / 1000000000 + nsec / 1000000000;
                 if (BOOST_LIKELY(sec <= (std::numeric_limits< decltype(futex_timespec::tv_sec) >::max)()))
diff --git a/include/boost/atomic/detail/wait_ops_generic.hpp b/include/boost/atomic/detail/wait_ops_generic.hpp
index 9a5cd99..a13f695 100644
--- a/include/boost/atomic/detail/wait_ops_generic.hpp
+++ b/include/boost/atomic/detail/wait_ops_generic.hpp
@@ -102,7 +102,7 @@ private:
                     break;
                 }
 
-                wait_state.wait_for(atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout - now));
+                wait_state.wait_for(atomics::detail::chrono::time_left< std::chrono::nanoseconds >(timeout, now));
 
                 now = Clock::now();
                 new_val = base_type::load(storage, order);
@@ -189,9 +189,9 @@ public:
         memory_order order,
         bool& timed_out
     ) noexcept(noexcept(wait_until_dispatch< Clock >(
-        storage, old_val, timeout, order, timed_out, std::integral_constant< bool, has_posix_clock_traits< Clock >::value >())))
+        storage, old_val, atomics::detail::chrono::to_clock_time_point(timeout), order, timed_out, std::integral_constant< bool, has_posix_clock_traits< Clock >::value >())))
     {
-        return wait_until_dispatch< Clock >(storage, old_val, timeout, order, timed_out, std::integral_constant< bool, has_posix_clock_traits< Clock >::value >());
+        return wait_until_dispatch< Clock >(storage, old_val, atomics::detail::chrono::to_clock_time_point(timeout), order, timed_out, std::integral_constant< bool, has_posix_clock_traits< Clock >::value >());
     }
 
 #else // !defined(BOOST_WINDOWS)
@@ -205,9 +205,9 @@ public:
         std::chrono::time_point< Clock, Duration > timeout,
         memory_order order,
         bool& timed_out
-    ) noexcept(noexcept(wait_until_fallback< Clock >(storage, old_val, timeout, Clock::now(), order, timed_out)))
+    ) noexcept(noexcept(wait_until_fallback< Clock >(storage, old_val, atomics::detail::chrono::to_clock_time_point(timeout), Clock::now(), order, timed_out)))
     {
-        return wait_until_fallback< Clock >(storage, old_val, timeout, Clock::now(), order, timed_out);
+        return wait_until_fallback< Clock >(storage, old_val, atomics::detail::chrono::to_clock_time_point(timeout), Clock::now(), order, timed_out);
     }
 
 #endif // !defined(BOOST_WINDOWS)
@@ -341,9 +341,9 @@ public:
         std::chrono::time_point< Clock, Duration > timeout,
         memory_order order,
         bool& timed_out
-    ) noexcept(noexcept(wait_until_impl< Clock >(storage, old_val, timeout, Clock::now(), order, timed_out)))
+    ) noexcept(noexcept(wait_until_impl< Clock >(storage, old_val, atomics::detail::chrono::to_clock_time_point(timeout), Clock::now(), order, timed_out)))
     {
-        return wait_until_impl< Clock >(storage, old_val, timeout, Clock::now(), order, timed_out);
+        return wait_until_impl< Clock >(storage, old_val, atomics::detail::chrono::to_clock_time_point(timeout), Clock::now(), order, timed_out);
     }
 
     template< typename Rep, typename Period >
-- 
2.43.0


From 69ca88bc6e20c1de8cba054b1dfab202b0d5fab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:09 +0000
Subject: [PATCH 6/7] fix: limit system_clock deadlines to the range of time_t
 when it is 32-bit

---
 include/boost/atomic/detail/chrono.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/boost/atomic/detail/chrono.hpp b/include/boost/atomic/detail/chrono.hpp
index c5ece31..365a9b8 100644
--- a/include/boost/atomic/detail/chrono.hpp
+++ b/include/boost/atomic/detail/chrono.hpp
@@ -16,6 +16,7 @@
 
 #include <time.h>
 #include <cstdint>
+#include <limits>
 #include <chrono>
 #if !defined(__cpp_lib_chrono) || (__cpp_lib_chrono < 201510l)
 #include <ratio>
@@ -103,13 +104,25 @@ struct posix_clock_traits< std::chrono::system_clock >
         std::chrono::nanoseconds::rep time_ns = std::chrono::duration_cast< std::chrono::nanoseconds >(time_point.time_since_epoch()).count();
         // Note: The standard doesn't require that std::chrono::system_clock epoch matches the POSIX CLOCK_REALTIME epoch. Also, std::chrono::system_clock::to_time_t
         //       is allowed to round or truncate the time point when converting to time_t resolution, which means to_time_t may return a time before or after time_point.
-        ts.tv_sec = std::chrono::system_clock::to_time_t(std::chrono::system_clock::time_point()) + static_cast< decltype(ts.tv_sec) >(time_ns / 1000000000);
+        std::int64_t time_sec = static_cast< std::int64_t >(std::chrono::system_clock::to_time_t(std::chrono::system_clock::time_point())) + time_ns / 1000000000;
         time_ns %= 1000000000;
         if (BOOST_UNLIKELY(time_ns < 0))
         {
-            --ts.tv_sec;
+            --time_sec;
             time_ns += 1000000000;
         }
+        // Limit the result to the range of time_t, which may be narrower than that of time_point
+        if (BOOST_UNLIKELY(time_sec > (std::numeric_limits< decltype(ts.tv_sec) >::max)()))
+        {
+            time_sec = (std::numeric_limits< decltype(ts.tv_sec) >::max)();
+            time_ns = 999999999;
+        }
+        else if (BOOST_UNLIKELY(time_sec < (std::numeric_limits< decltype(ts.tv_sec) >::min)()))
+        {
+            time_sec = (std::numeric_limits< decltype(ts.tv_sec) >::min)();
+            time_ns = 0;
+        }
+        ts.tv_sec = static_cast< decltype(ts.tv_sec) >(time_sec);
         ts.tv_nsec = static_cast< decltype(ts.tv_nsec) >(time_ns);
         return ts;
     }
-- 
2.43.0


From 19f41bd65b8a8621eb44e4206f7f28f09930d6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:42 +0000
Subject: [PATCH 7/7] fix: use futex_time64 when the timespec of a 32-bit
 target is 64-bit

---
 include/boost/atomic/detail/futex.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/boost/atomic/detail/futex.hpp b/include/boost/atomic/detail/futex.hpp
index 0069c27..bf0a9b3 100644
--- a/include/boost/atomic/detail/futex.hpp
+++ b/include/boost/atomic/detail/futex.hpp
@@ -26,14 +26,16 @@
 #if defined(__linux__)
 
 #include <sys/syscall.h>
+#include <time.h> // __USE_TIME_BITS64, _REDIR_TIME64
 
-#if defined(SYS_futex)
-#define BOOST_ATOMIC_DETAIL_SYS_FUTEX SYS_futex
-#elif defined(SYS_futex_time64)
+#if defined(SYS_futex_time64) && (!defined(SYS_futex) || defined(__USE_TIME_BITS64) || defined(_REDIR_TIME64))
 // On some 32-bit targets (e.g. riscv32) SYS_futex is not defined and instead SYS_futex_time64 is implemented,
-// which is equivalent to SYS_futex but uses 64-bit time_t.
+// which is equivalent to SYS_futex but uses 64-bit time_t. On other 32-bit targets, where both are defined,
+// SYS_futex uses 32-bit time_t and must not be given the 64-bit timespec of glibc with _TIME_BITS=64 or of musl.
 #define BOOST_ATOMIC_DETAIL_SYS_FUTEX SYS_futex_time64
 #define BOOST_ATOMIC_DETAIL_FUTEX_TIME64
+#elif defined(SYS_futex)
+#define BOOST_ATOMIC_DETAIL_SYS_FUTEX SYS_futex
 #elif defined(__NR_futex)
 // Some Android NDKs (Google NDK and older Crystax.NET NDK versions) don't define SYS_futex.
 #define BOOST_ATOMIC_DETAIL_SYS_FUTEX __NR_futex
-- 
2.43.0

