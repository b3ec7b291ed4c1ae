From 794a09210d321734ab3e4d31866276372019038d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 01/25] fix: wait_queue::suspend_and_wait_until must not report
 a timeout for a waiter that was already dequeued by a notifier

A notify_one() that picked a timed waiter whose deadline had passed by the time
it was resumed was lost: the waiter reported timeout and nobody else was woken.
---
 src/waker.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/waker.cpp b/src/waker.cpp
index 1444dea..d558d85 100644
--- a/src/waker.cpp
+++ b/src/waker.cpp
@@ -37,11 +37,14 @@ wait_queue::suspend_and_wait_until( detail::spinlock_lock & lk,
             active_ctx->yield();            
         }
         // remove from waiting-queue
-        if ( w.is_linked()) {
+        // if the waker has already been dequeued by a notifier, then the
+        // notification must not be lost: do not report a timeout
+        const bool notified = ! w.is_linked();
+        if ( ! notified) {
             slist_.remove( w);
         }
         lk.unlock();
-        return false;
+        return notified;
     }
     return true;
 }
-- 
2.43.0


From 629719b81267dc1c2b96208eb2d48f4850ee1874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 02/25] fix: timed mutexes must try to take the mutex before
 looking at the deadline

try_lock_until() with an expired deadline has to behave as try_lock(), and a
waiter woken by unlock() after its deadline must not drop the hand-off.
---
 src/recursive_timed_mutex.cpp | 6 +++---
 src/timed_mutex.cpp           | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/recursive_timed_mutex.cpp b/src/recursive_timed_mutex.cpp
index 5958c72..3d01236 100644
--- a/src/recursive_timed_mutex.cpp
+++ b/src/recursive_timed_mutex.cpp
@@ -22,9 +22,6 @@ namespace fibers {
 bool
 recursive_timed_mutex::try_lock_until_( std::chrono::steady_clock::time_point const& timeout_time) noexcept {
     while ( true) {
-        if ( std::chrono::steady_clock::now() > timeout_time) {
-            return false;
-        }
         context * active_ctx = context::active();
         // store this fiber in order to be notified later
         detail::spinlock_lock lk{ wait_queue_splk_ };
@@ -37,6 +34,9 @@ recursive_timed_mutex::try_lock_until_( std::chrono::steady_clock::time_point co
             count_ = 1;
             return true;
         }
+        if ( std::chrono::steady_clock::now() > timeout_time) {
+            return false;
+        }
         if ( ! wait_queue_.suspend_and_wait_until( lk, active_ctx, timeout_time)) {
             return false;
         }
diff --git a/src/timed_mutex.cpp b/src/timed_mutex.cpp
index d0482c5..fa98514 100644
--- a/src/timed_mutex.cpp
+++ b/src/timed_mutex.cpp
@@ -22,15 +22,15 @@ namespace fibers {
 bool
 timed_mutex::try_lock_until_( std::chrono::steady_clock::time_point const& timeout_time) noexcept {
     while ( true) {
-        if ( std::chrono::steady_clock::now() > timeout_time) {
-            return false;
-        }
         context * active_ctx = context::active();
         detail::spinlock_lock lk{ wait_queue_splk_ };
         if ( nullptr == owner_) {
             owner_ = active_ctx;
             return true;
         }
+        if ( std::chrono::steady_clock::now() > timeout_time) {
+            return false;
+        }
         if ( ! wait_queue_.suspend_and_wait_until( lk, active_ctx, timeout_time)) {
             return false;
         }
-- 
2.43.0


From d5ca75464c89285b4e07ac68cc3c2510f8b3fb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 03/25] fix: unbuffered_channel must not leave the slot of a
 released producer behind

A producer released by close() or by its deadline returned while slot_ still
pointed to its stack, a consumer could still move from it afterwards, close()
dereferenced a slot that a consumer might have taken, and a consumed value was
reported as closed/timeout. Only the fiber that removes the slot from slot_
decides about the outcome now, and the producer waits for this decision.
---
 include/boost/fiber/unbuffered_channel.hpp | 130 +++++++++++++--------
 1 file changed, 80 insertions(+), 50 deletions(-)

diff --git a/include/boost/fiber/unbuffered_channel.hpp b/include/boost/fiber/unbuffered_channel.hpp
index 4b8c807..519ee53 100644
--- a/include/boost/fiber/unbuffered_channel.hpp
+++ b/include/boost/fiber/unbuffered_channel.hpp
@@ -41,8 +41,10 @@ public:
 
 private:
     struct slot {
-        value_type  value;
-        waker       w;
+        value_type                          value;
+        waker                               w;
+        // set once by the fiber that removed the slot from the channel
+        std::atomic< channel_op_status >    result{ channel_op_status::empty };
 
         slot( value_type const& value_, waker && w) :
             value{ value_ },
@@ -53,6 +55,13 @@ private:
             value{ std::move( value_) },
             w{ std::move(w) } {
         }
+
+        // called by the fiber that removed the slot from the channel;
+        // the producer might destroy the slot as soon as the result is stored
+        void complete( channel_op_status status) noexcept {
+            w.wake();
+            result.store( status, std::memory_order_release);
+        }
     };
 
     // shared cacheline
@@ -94,6 +103,38 @@ private:
         }
     }
 
+    // completes a consumed slot, also if moving its value has thrown
+    struct slot_guard {
+        slot    *   s;
+
+        explicit slot_guard( slot * s_) noexcept :
+            s{ s_ } {
+        }
+
+        ~slot_guard() {
+            s->complete( channel_op_status::success);
+        }
+
+        slot_guard( slot_guard const&) = delete;
+        slot_guard & operator=( slot_guard const&) = delete;
+    };
+
+    // withdraw the own slot if it is still offered
+    bool try_withdraw_( slot * own_slot) {
+        return slot_.compare_exchange_strong( own_slot, nullptr, std::memory_order_acq_rel);
+    }
+
+    // own slot was removed by another fiber: wait till that fiber has finished with it
+    channel_op_status completed_( slot * own_slot, context * active_ctx) {
+        for (;;) {
+            channel_op_status status = own_slot->result.load( std::memory_order_acquire);
+            if ( channel_op_status::empty != status) {
+                return status;
+            }
+            active_ctx->yield();
+        }
+    }
+
 public:
     unbuffered_channel() = default;
 
@@ -111,17 +152,16 @@ public:
     void close() noexcept {
         // set flag
         if ( ! closed_.exchange( true, std::memory_order_acquire) ) {
-            // notify current waiting  
-            slot * s = slot_.load( std::memory_order_acquire);
-            if ( nullptr != s) {
-                // notify context
-                s->w.wake();
-            }
             detail::spinlock_lock lk1{ splk_producers_ };
             waiting_producers_.notify_all();
 
             detail::spinlock_lock lk2{ splk_consumers_ };
             waiting_consumers_.notify_all();
+            // withdraw the value currently offered and notify its producer
+            slot * s = try_pop_();
+            if ( nullptr != s) {
+                s->complete( channel_op_status::closed);
+            }
         }
     }
 
@@ -135,16 +175,15 @@ public:
             s.w = active_ctx->create_waker();
             if ( try_push_( & s) ) {
                 detail::spinlock_lock lk{ splk_consumers_ };
-                waiting_consumers_.notify_one();
-                // suspend till value has been consumed
-                active_ctx->suspend( lk);
-                // resumed
-                if ( BOOST_UNLIKELY( is_closed() ) ) {
+                if ( BOOST_UNLIKELY( is_closed() ) && try_withdraw_( & s) ) {
                     // channel was closed before value was consumed
                     return channel_op_status::closed;
                 }
-                // value has been consumed
-                return channel_op_status::success;
+                waiting_consumers_.notify_one();
+                // suspend till value has been consumed
+                active_ctx->suspend( lk);
+                // resumed, value has been consumed or channel was closed
+                return completed_( & s, active_ctx);
             }
             detail::spinlock_lock lk{ splk_producers_ };
             if ( BOOST_UNLIKELY( is_closed() ) ) {
@@ -169,16 +208,15 @@ public:
             s.w = active_ctx->create_waker();
             if ( try_push_( & s) ) {
                 detail::spinlock_lock lk{ splk_consumers_ };
-                waiting_consumers_.notify_one();
-                // suspend till value has been consumed
-                active_ctx->suspend( lk);
-                // resumed
-                if ( BOOST_UNLIKELY( is_closed() ) ) {
+                if ( BOOST_UNLIKELY( is_closed() ) && try_withdraw_( & s) ) {
                     // channel was closed before value was consumed
                     return channel_op_status::closed;
                 }
-                // value has been consumed
-                return channel_op_status::success;
+                waiting_consumers_.notify_one();
+                // suspend till value has been consumed
+                active_ctx->suspend( lk);
+                // resumed, value has been consumed or channel was closed
+                return completed_( & s, active_ctx);
             }
             detail::spinlock_lock lk{ splk_producers_ };
             if ( BOOST_UNLIKELY( is_closed() ) ) {
@@ -219,22 +257,18 @@ public:
             s.w = active_ctx->create_waker();
             if ( try_push_( & s) ) {
                 detail::spinlock_lock lk{ splk_consumers_ };
+                if ( BOOST_UNLIKELY( is_closed() ) && try_withdraw_( & s) ) {
+                    // channel was closed before value was consumed
+                    return channel_op_status::closed;
+                }
                 waiting_consumers_.notify_one();
                 // suspend this producer
-                if ( ! active_ctx->wait_until(timeout_time, lk, waker(s.w))) {
-                    // clear slot
-                    slot * nil_slot = nullptr, * own_slot = & s;
-                    slot_.compare_exchange_strong( own_slot, nil_slot, std::memory_order_acq_rel);
+                if ( ! active_ctx->wait_until(timeout_time, lk, waker(s.w)) && try_withdraw_( & s) ) {
                     // resumed, value has not been consumed
                     return channel_op_status::timeout;
                 }
-                // resumed
-                if ( BOOST_UNLIKELY( is_closed() ) ) {
-                    // channel was closed before value was consumed
-                    return channel_op_status::closed;
-                }
-                // value has been consumed
-                return channel_op_status::success;
+                // resumed, value has been consumed or channel was closed
+                return completed_( & s, active_ctx);
             }
             detail::spinlock_lock lk{ splk_producers_ };
             if ( BOOST_UNLIKELY( is_closed() ) ) {
@@ -265,22 +299,18 @@ public:
             s.w = active_ctx->create_waker();
             if ( try_push_( & s) ) {
                 detail::spinlock_lock lk{ splk_consumers_ };
+                if ( BOOST_UNLIKELY( is_closed() ) && try_withdraw_( & s) ) {
+                    // channel was closed before value was consumed
+                    return channel_op_status::closed;
+                }
                 waiting_consumers_.notify_one();
                 // suspend this producer
-                if ( ! active_ctx->wait_until(timeout_time, lk, waker(s.w))) {
-                    // clear slot
-                    slot * nil_slot = nullptr, * own_slot = & s;
-                    slot_.compare_exchange_strong( own_slot, nil_slot, std::memory_order_acq_rel);
+                if ( ! active_ctx->wait_until(timeout_time, lk, waker(s.w)) && try_withdraw_( & s) ) {
                     // resumed, value has not been consumed
                     return channel_op_status::timeout;
                 }
-                // resumed
-                if ( BOOST_UNLIKELY( is_closed() ) ) {
-                    // channel was closed before value was consumed
-                    return channel_op_status::closed;
-                }
-                // value has been consumed
-                return channel_op_status::success;
+                // resumed, value has been consumed or channel was closed
+                return completed_( & s, active_ctx);
             }
             detail::spinlock_lock lk{ splk_producers_ };
             if ( BOOST_UNLIKELY( is_closed() ) ) {
@@ -306,9 +336,9 @@ public:
                     detail::spinlock_lock lk{ splk_producers_ };
                     waiting_producers_.notify_one();
                 }
+                // notify context after value has been moved
+                slot_guard guard{ s };
                 value = std::move( s->value);
-                // notify context
-                s->w.wake();
                 return channel_op_status::success;
             }
             detail::spinlock_lock lk{ splk_consumers_ };
@@ -333,9 +363,9 @@ public:
                     waiting_producers_.notify_one();
                 }
                 // consume value
+                // notify context after value has been moved
+                slot_guard guard{ s };
                 value_type value = std::move( s->value);
-                // notify context
-                s->w.wake();
                 return std::move( value);
             }
             detail::spinlock_lock lk{ splk_consumers_ };
@@ -372,9 +402,9 @@ public:
                     waiting_producers_.notify_one();
                 }
                 // consume value
+                // notify context after value has been moved
+                slot_guard guard{ s };
                 value = std::move( s->value);
-                // notify context
-                s->w.wake();
                 return channel_op_status::success;
             }
             detail::spinlock_lock lk{ splk_consumers_ };
-- 
2.43.0


From 17b18b62dc4e6cf5a9668f5e40c5302d65c10984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 04/25] fix: unbuffered_channel: a producer giving up at its
 deadline must wake the next waiting producer

---
 include/boost/fiber/unbuffered_channel.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/fiber/unbuffered_channel.hpp b/include/boost/fiber/unbuffered_channel.hpp
index 519ee53..7ec4ec5 100644
--- a/include/boost/fiber/unbuffered_channel.hpp
+++ b/include/boost/fiber/unbuffered_channel.hpp
@@ -264,7 +264,9 @@ public:
                 waiting_consumers_.notify_one();
                 // suspend this producer
                 if ( ! active_ctx->wait_until(timeout_time, lk, waker(s.w)) && try_withdraw_( & s) ) {
-                    // resumed, value has not been consumed
+                    // resumed, value has not been consumed, slot is free again
+                    detail::spinlock_lock lk1{ splk_producers_ };
+                    waiting_producers_.notify_one();
                     return channel_op_status::timeout;
                 }
                 // resumed, value has been consumed or channel was closed
@@ -306,7 +308,9 @@ public:
                 waiting_consumers_.notify_one();
                 // suspend this producer
                 if ( ! active_ctx->wait_until(timeout_time, lk, waker(s.w)) && try_withdraw_( & s) ) {
-                    // resumed, value has not been consumed
+                    // resumed, value has not been consumed, slot is free again
+                    detail::spinlock_lock lk1{ splk_producers_ };
+                    waiting_producers_.notify_one();
                     return channel_op_status::timeout;
                 }
                 // resumed, value has been consumed or channel was closed
-- 
2.43.0


From 9ce8d298d2a75acda9c5676abf9cfb8f5e16ea43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:33 +0000
Subject: [PATCH 05/25] fix: channel iterators destroyed every fetched element
 twice

---
 include/boost/fiber/buffered_channel.hpp   | 1 -
 include/boost/fiber/unbuffered_channel.hpp | 1 -
 2 files changed, 2 deletions(-)

diff --git a/include/boost/fiber/buffered_channel.hpp b/include/boost/fiber/buffered_channel.hpp
index 492486d..a562168 100644
--- a/include/boost/fiber/buffered_channel.hpp
+++ b/include/boost/fiber/buffered_channel.hpp
@@ -409,7 +409,6 @@ public:
         }
 
         iterator & operator++() {
-            reinterpret_cast< value_type * >( std::addressof( storage_) )->~value_type();
             increment_();
             return * this;
         }
diff --git a/include/boost/fiber/unbuffered_channel.hpp b/include/boost/fiber/unbuffered_channel.hpp
index 7ec4ec5..9b4e424 100644
--- a/include/boost/fiber/unbuffered_channel.hpp
+++ b/include/boost/fiber/unbuffered_channel.hpp
@@ -478,7 +478,6 @@ public:
         }
 
         iterator & operator++() {
-            reinterpret_cast< value_type * >( std::addressof( storage_) )->~value_type();
             increment_();
             return * this;
         }
-- 
2.43.0


From 2d7dde6f47db0e66c33012094e9ed85d71ea4d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 06/25] fix: packaged_task::reset() must break the promise of
 the abandoned shared state

---
 include/boost/fiber/future/packaged_task.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/fiber/future/packaged_task.hpp b/include/boost/fiber/future/packaged_task.hpp
index 10cef3c..91627b6 100644
--- a/include/boost/fiber/future/packaged_task.hpp
+++ b/include/boost/fiber/future/packaged_task.hpp
@@ -128,6 +128,8 @@ public:
         packaged_task tmp;
         tmp.task_ = task_;
         task_ = tmp.task_->reset();
+        // the previous shared state is abandoned by the destructor of tmp
+        tmp.obtained_ = obtained_;
         obtained_ = false;
     }
 };
-- 
2.43.0


From ebc8da132b4c6cc8e7e13a5bf92b0a54f603bef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 07/25] fix: no cleanup function call for a null fiber specific
 pointer

---
 src/context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/context.cpp b/src/context.cpp
index 97a45a5..474a495 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -363,7 +363,7 @@ context::set_fss_data( void const * vp,
         } else {
             fss_data_.erase( i);
         }
-    } else {
+    } else if ( nullptr != data) {
         fss_data_.insert(
             std::make_pair(
                 key,
-- 
2.43.0


From c47501e213e533a27595bca6a5c5e8dd0ad68d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:31 +0000
Subject: [PATCH 08/25] fix: work_stealing with a single thread must not search
 forever for a victim

---
 src/algo/work_stealing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algo/work_stealing.cpp b/src/algo/work_stealing.cpp
index ae9ece8..75e4d33 100644
--- a/src/algo/work_stealing.cpp
+++ b/src/algo/work_stealing.cpp
@@ -62,7 +62,7 @@ work_stealing::pick_next() noexcept {
         if ( ! victim->is_context( type::pinned_context) ) {
             context::active()->attach( victim);
         }
-    } else {
+    } else if ( 1 < thread_count_) {
         std::uint32_t id = 0;
         std::size_t count = 0, size = schedulers_.size();
         static thread_local std::minstd_rand generator{ std::random_device{}() };
-- 
2.43.0


From 383b097d567e0bb3588c208034475f93989836d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 09/25] fix: futex spinlocks must release the lock with release
 ordering

---
 include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp | 2 +-
 include/boost/fiber/detail/spinlock_ttas_futex.hpp          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp b/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp
index 172b2b4..1628a8c 100644
--- a/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp
+++ b/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp
@@ -125,7 +125,7 @@ public:
     }
 
     void unlock() noexcept {
-        if ( 1 != value_.fetch_sub( 1, std::memory_order_acquire) ) {
+        if ( 1 != value_.fetch_sub( 1, std::memory_order_release) ) {
             value_.store( 0, std::memory_order_release);
             futex_wake( & value_);
         }
diff --git a/include/boost/fiber/detail/spinlock_ttas_futex.hpp b/include/boost/fiber/detail/spinlock_ttas_futex.hpp
index f7a2f68..3aefdc1 100644
--- a/include/boost/fiber/detail/spinlock_ttas_futex.hpp
+++ b/include/boost/fiber/detail/spinlock_ttas_futex.hpp
@@ -116,7 +116,7 @@ public:
     }
 
     void unlock() noexcept {
-        if ( 1 != value_.fetch_sub( 1, std::memory_order_acquire) ) {
+        if ( 1 != value_.fetch_sub( 1, std::memory_order_release) ) {
             value_.store( 0, std::memory_order_release);
             futex_wake( & value_);
         }
-- 
2.43.0


From e49e9c571cc32a82e643a62d3e505a61fd84b760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:17 +0000
Subject: [PATCH 10/25] fix: numa::algo::work_stealing on a node with a single
 logical cpu must not search forever for a local victim

---
 src/numa/algo/work_stealing.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/numa/algo/work_stealing.cpp b/src/numa/algo/work_stealing.cpp
index d3653d6..39b2f31 100644
--- a/src/numa/algo/work_stealing.cpp
+++ b/src/numa/algo/work_stealing.cpp
@@ -112,7 +112,8 @@ work_stealing::pick_next() noexcept {
             0, static_cast< std::uint32_t >( local_cpus_.size() - 1) };
         std::uniform_int_distribution< std::uint32_t > remote_distribution{
             0, static_cast< std::uint32_t >( remote_cpus_.size() - 1) };
-        do {
+        // without another logical cpu in the local NUMA node there is no local victim
+        while ( 1 < size && nullptr == victim && count < size) {
             do {
                 ++count;
                 // random selection of one logical cpu
@@ -124,7 +125,7 @@ work_stealing::pick_next() noexcept {
             // schedulers_[cpu_id] should never contain a nullptr
             BOOST_ASSERT( nullptr != schedulers_[cpu_id]);
             victim = schedulers_[cpu_id]->steal();
-        } while ( nullptr == victim && count < size);
+        }
         if ( nullptr != victim) {
             boost::context::detail::prefetch_range( victim, sizeof( context) );
             BOOST_ASSERT( ! victim->is_context( type::pinned_context) );
-- 
2.43.0


From 3b91f511e12ef613e0265a2d1d2bf2b1f91fcabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:40 +0000
Subject: [PATCH 11/25] fix: convert() must read the deadline's clock before
 steady_clock, or the wait is cut short by the time between the readings

---
 include/boost/fiber/detail/convert.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/fiber/detail/convert.hpp b/include/boost/fiber/detail/convert.hpp
index ba3bbbd..2004679 100644
--- a/include/boost/fiber/detail/convert.hpp
+++ b/include/boost/fiber/detail/convert.hpp
@@ -31,7 +31,9 @@ std::chrono::steady_clock::time_point convert(
 template< typename Clock, typename Duration >
 std::chrono::steady_clock::time_point convert(
         std::chrono::time_point< Clock, Duration > const& timeout_time) {
-    return std::chrono::steady_clock::now() + ( timeout_time - Clock::now() );
+    // read Clock first: a delay between both readings must not shorten the wait
+    auto const d = timeout_time - Clock::now();
+    return std::chrono::steady_clock::now() + d;
 }
 
 }}}
-- 
2.43.0


From 20a3742e316069d6d5d5c333b94a7742d8aa906a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:23 +0000
Subject: [PATCH 12/25] fix: keep the scheduling algorithm alive while a
 foreign thread notifies it

schedule_from_remote() used the scheduler after releasing its lock; the woken
fiber may already have ended the thread and destroyed scheduler and algorithm.
---
 src/scheduler.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 69ae61c..8955367 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -208,9 +208,12 @@ scheduler::schedule_from_remote( context * ctx) noexcept {
     BOOST_ASSERT( nullptr != dispatcher_ctx_.get() );
     // push new context to remote ready-queue
     ctx->remote_ready_link( remote_ready_queue_);
+    // once the lock is released `ctx` might run to its end and this scheduler
+    // might be destroyed: keep the algorithm alive until it has been notified
+    algo::algorithm::ptr_t algo = algo_;
     lk.unlock();
     // notify scheduler
-    algo_->notify();
+    algo->notify();
 }
 #endif
 
@@ -324,7 +327,11 @@ scheduler::set_algo( algo::algorithm::ptr_t algo) noexcept {
     while ( algo_->has_ready_fibers() ) {
         algo->awakened( algo_->pick_next() );
     }
-    algo_ = std::move( algo);
+#if ! defined(BOOST_FIBERS_NO_ATOMICS)
+    // schedule_from_remote() reads `algo_` in other threads
+    detail::spinlock_lock lk{ remote_ready_splk_ };
+#endif
+    algo_.swap( algo);
 }
 
 void
-- 
2.43.0


From d2b1b5bfd09a315db66b5b45c03cc7d8cb65e952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 13/25] fix: a foreign thread may wake a fiber of a thread that
 is shutting down

The dispatcher keeps running until every worker fiber has ended, so a detached
fiber can still be waiting for an event of another thread; the assertion also
read shutdown_ without synchronisation.
---
 src/scheduler.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 8955367..f3ddf37 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -203,7 +203,6 @@ scheduler::schedule_from_remote( context * ctx) noexcept {
     BOOST_ASSERT( ! ctx->terminated_is_linked() );
     // protect for concurrent access
     detail::spinlock_lock lk{ remote_ready_splk_ };
-    BOOST_ASSERT( ! shutdown_);
     BOOST_ASSERT( nullptr != main_ctx_);
     BOOST_ASSERT( nullptr != dispatcher_ctx_.get() );
     // push new context to remote ready-queue
-- 
2.43.0


From e00099e0588220ea0629dd10f208a6c30b08724f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 14/25] fix: run the fiber-specific cleanup before the fiber is
 marked terminated, outside its spinlock, until no data is left

---
 include/boost/fiber/context.hpp |  2 ++
 src/context.cpp                 | 19 ++++++++++++++-----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/boost/fiber/context.hpp b/include/boost/fiber/context.hpp
index 82d8484..2288f28 100644
--- a/include/boost/fiber/context.hpp
+++ b/include/boost/fiber/context.hpp
@@ -135,6 +135,8 @@ private:
 
     typedef std::map< uintptr_t, fss_data >             fss_data_t;
 
+    void cleanup_fss_data_();
+
 #if ! defined(BOOST_FIBERS_NO_ATOMICS)
     std::atomic< std::size_t >                          use_count_;
 #else
diff --git a/src/context.cpp b/src/context.cpp
index 474a495..0f1447a 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -263,6 +263,8 @@ context::suspend_with_cc() noexcept {
 
 boost::context::fiber
 context::terminate() noexcept {
+    // release fiber-specific-data
+    cleanup_fss_data_();
     // protect for concurrent access
     std::unique_lock< detail::spinlock > lk{ splk_ };
     // mark as terminated
@@ -270,11 +272,6 @@ context::terminate() noexcept {
     // notify all waiting fibers
     wait_queue_.notify_all();
     BOOST_ASSERT( wait_queue_.empty() );
-    // release fiber-specific-data
-    for ( fss_data_t::value_type & data : fss_data_) {
-        data.second.do_cleanup();
-    }
-    fss_data_.clear();
     // switch to another context
     return get_scheduler()->terminate( lk, this);
 }
@@ -371,6 +368,18 @@ context::set_fss_data( void const * vp,
     }
 }
 
+void
+context::cleanup_fss_data_() {
+    // a cleanup function might suspend the fiber and might itself
+    // use fiber-specific data
+    while ( ! fss_data_.empty() ) {
+        fss_data_t::iterator i = fss_data_.begin();
+        fss_data data = i->second;
+        fss_data_.erase( i);
+        data.do_cleanup();
+    }
+}
+
 void
 context::set_properties( fiber_properties * props) noexcept {
     delete properties_;
-- 
2.43.0


From 8f9ad4194d83ebd43fec3bcb013b7ab118f4747d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 15/25] fix: clean up the fiber-specific data of a thread's
 main fiber at thread exit

---
 src/scheduler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index f3ddf37..12d292d 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -101,6 +101,8 @@ scheduler::~scheduler() {
     BOOST_ASSERT( nullptr != main_ctx_);
     BOOST_ASSERT( nullptr != dispatcher_ctx_.get() );
     BOOST_ASSERT( context::active() == main_ctx_);
+    // release fiber-specific-data of the main-context
+    main_ctx_->cleanup_fss_data_();
     // signal dispatcher-context termination
     shutdown_ = true;
     // resume pending fibers
-- 
2.43.0


From c4ddad37e53bfd8a7caa2cd8fb2dfa6e87237793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 16/25] fix: give a fiber's stack back if its function or
 arguments cannot be copied or moved

---
 include/boost/fiber/context.hpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/include/boost/fiber/context.hpp b/include/boost/fiber/context.hpp
index 2288f28..303573f 100644
--- a/include/boost/fiber/context.hpp
+++ b/include/boost/fiber/context.hpp
@@ -501,15 +501,21 @@ static intrusive_ptr< context > make_worker_context_with_properties( launch poli
     void * stack_bottom = reinterpret_cast< void * >(
             reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sctx.size) );
     const std::size_t size = reinterpret_cast< uintptr_t >( storage) - reinterpret_cast< uintptr_t >( stack_bottom);
-    // placement new of context on top of fiber's stack
-    return intrusive_ptr< context >{ 
-            new ( storage) context_t{
-                policy,
-                properties,
-                boost::context::preallocated{ storage, size, sctx },
-                std::forward< StackAlloc >( salloc),
-                std::forward< Fn >( fn),
-                std::forward< Arg >( arg) ... } };
+    try {
+        // placement new of context on top of fiber's stack
+        return intrusive_ptr< context >{ 
+                new ( storage) context_t{
+                    policy,
+                    properties,
+                    boost::context::preallocated{ storage, size, sctx },
+                    std::forward< StackAlloc >( salloc),
+                    std::forward< Fn >( fn),
+                    std::forward< Arg >( arg) ... } };
+    } catch (...) {
+        // copying/moving fn or arg might have failed
+        salloc.deallocate( sctx);
+        throw;
+    }
 }
 
 template< typename StackAlloc, typename Fn, typename ... Arg >
-- 
2.43.0


From 57e2cdb982719eb5a6a55f9f5a32fa8630f449fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:37 +0000
Subject: [PATCH 17/25] fix: scheduler::set_algo() takes all ready fibers out
 before passing them on

Two algorithm objects might share their ready-queue (shared_work): a fiber
passed to the new one became ready in the old one again and set_algo()
did not terminate. pick_next() might also return nullptr if another thread
took the last fiber of the shared queue.
---
 src/scheduler.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 12d292d..cbe2f00 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -325,8 +325,20 @@ scheduler::has_ready_fibers() const noexcept {
 void
 scheduler::set_algo( algo::algorithm::ptr_t algo) noexcept {
     // move remaining context in current scheduler to new one
+    // the algorithms might share their ready-queue: take all context'
+    // out before passing them on
+    ready_queue_type ready{};
     while ( algo_->has_ready_fibers() ) {
-        algo->awakened( algo_->pick_next() );
+        context * ctx = algo_->pick_next();
+        // another thread might have taken the last context
+        if ( nullptr != ctx) {
+            ctx->ready_link( ready);
+        }
+    }
+    while ( ! ready.empty() ) {
+        context * ctx = & ready.front();
+        ready.pop_front();
+        algo->awakened( ctx);
     }
 #if ! defined(BOOST_FIBERS_NO_ATOMICS)
     // schedule_from_remote() reads `algo_` in other threads
-- 
2.43.0


From 7ba78de8cb6ac3780c9166d50fde1e77f8984ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:54 +0000
Subject: [PATCH 18/25] fix: channel iterators: a copied iterator had no
 element, and an element was leaked when an iteration stopped early

---
 include/boost/fiber/buffered_channel.hpp   | 39 +++++++++++++++++++---
 include/boost/fiber/unbuffered_channel.hpp | 39 +++++++++++++++++++---
 2 files changed, 70 insertions(+), 8 deletions(-)

diff --git a/include/boost/fiber/buffered_channel.hpp b/include/boost/fiber/buffered_channel.hpp
index a562168..c9999d7 100644
--- a/include/boost/fiber/buffered_channel.hpp
+++ b/include/boost/fiber/buffered_channel.hpp
@@ -370,6 +370,25 @@ public:
                 ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type{ chan_->value_pop() };
             } catch ( fiber_error const&) {
                 chan_ = nullptr;
+            } catch (...) {
+                chan_ = nullptr;
+                throw;
+            }
+        }
+
+        // storage_ contains an element if and only if chan_ is not nullptr
+        void destroy_() noexcept {
+            if ( nullptr != chan_) {
+                chan_ = nullptr;
+                reinterpret_cast< value_type * >( std::addressof( storage_) )->~value_type();
+            }
+        }
+
+        void copy_( iterator const& other) {
+            if ( nullptr != other.chan_) {
+                ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type(
+                        * reinterpret_cast< value_type const* >( std::addressof( other.storage_) ) );
+                chan_ = other.chan_;
             }
         }
 
@@ -389,14 +408,26 @@ public:
             increment_( true);
         }
 
-        iterator( iterator const& other) noexcept :
-            chan_{ other.chan_ } {
+        iterator( iterator const& other) {
+            copy_( other);
         }
 
-        iterator & operator=( iterator const& other) noexcept {
-            if ( BOOST_LIKELY( this != & other) ) {
+        iterator( iterator && other) {
+            if ( nullptr != other.chan_) {
+                ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type( std::move( * other) );
                 chan_ = other.chan_;
             }
+        }
+
+        ~iterator() {
+            destroy_();
+        }
+
+        iterator & operator=( iterator const& other) {
+            if ( BOOST_LIKELY( this != & other) ) {
+                destroy_();
+                copy_( other);
+            }
             return * this;
         }
 
diff --git a/include/boost/fiber/unbuffered_channel.hpp b/include/boost/fiber/unbuffered_channel.hpp
index 9b4e424..34b81f9 100644
--- a/include/boost/fiber/unbuffered_channel.hpp
+++ b/include/boost/fiber/unbuffered_channel.hpp
@@ -440,6 +440,25 @@ public:
                 ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type{ chan_->value_pop() };
             } catch ( fiber_error const&) {
                 chan_ = nullptr;
+            } catch (...) {
+                chan_ = nullptr;
+                throw;
+            }
+        }
+
+        // storage_ contains an element if and only if chan_ is not nullptr
+        void destroy_() noexcept {
+            if ( nullptr != chan_) {
+                chan_ = nullptr;
+                reinterpret_cast< value_type * >( std::addressof( storage_) )->~value_type();
+            }
+        }
+
+        void copy_( iterator const& other) {
+            if ( nullptr != other.chan_) {
+                ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type(
+                        * reinterpret_cast< value_type const* >( std::addressof( other.storage_) ) );
+                chan_ = other.chan_;
             }
         }
 
@@ -459,13 +478,25 @@ public:
             increment_( true);
         }
 
-        iterator( iterator const& other) noexcept :
-            chan_{ other.chan_ } {
+        iterator( iterator const& other) {
+            copy_( other);
+        }
+
+        iterator( iterator && other) {
+            if ( nullptr != other.chan_) {
+                ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type( std::move( * other) );
+                chan_ = other.chan_;
+            }
+        }
+
+        ~iterator() {
+            destroy_();
         }
 
-        iterator & operator=( iterator const& other) noexcept {
+        iterator & operator=( iterator const& other) {
             if ( this == & other) return * this;
-            chan_ = other.chan_;
+            destroy_();
+            copy_( other);
             return * this;
         }
 
-- 
2.43.0


From f0ea58e4617413cc5a49942ab05fae3357ffd073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:00 +0000
Subject: [PATCH 19/25] fix: lock-free queue: an operation on a queue nothing
 was pushed to must not underflow bottom_

---
 include/boost/fiber/detail/context_spmc_queue.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/fiber/detail/context_spmc_queue.hpp b/include/boost/fiber/detail/context_spmc_queue.hpp
index 5f906cf..f6922f7 100644
--- a/include/boost/fiber/detail/context_spmc_queue.hpp
+++ b/include/boost/fiber/detail/context_spmc_queue.hpp
@@ -90,8 +90,9 @@ private:
         }
     };
 
-    std::atomic< std::size_t >     top_{ 0 };
-    std::atomic< std::size_t >     bottom_{ 0 };
+    // start at 1: pop() computes `bottom_ - 1', also on an empty queue
+    std::atomic< std::size_t >     top_{ 1 };
+    std::atomic< std::size_t >     bottom_{ 1 };
     std::atomic< array * >         array_;
     std::vector< array * >                                  old_arrays_{};
     char                                                    padding_[cacheline_length];
-- 
2.43.0


From 7708b0d426fdeca394fb635613eed0a2ab4aa5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:00 +0000
Subject: [PATCH 20/25] fix: lock-free queue: publish a grown array with
 release ordering

---
 include/boost/fiber/detail/context_spmc_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/fiber/detail/context_spmc_queue.hpp b/include/boost/fiber/detail/context_spmc_queue.hpp
index f6922f7..dc8e525 100644
--- a/include/boost/fiber/detail/context_spmc_queue.hpp
+++ b/include/boost/fiber/detail/context_spmc_queue.hpp
@@ -129,7 +129,7 @@ public:
             array * tmp = a->resize( bottom, top);
             old_arrays_.push_back( a);
             std::swap( a, tmp);
-            array_.store( a, std::memory_order_relaxed);
+            array_.store( a, std::memory_order_release);
         }
         a->push( bottom, ctx);
         std::atomic_thread_fence( std::memory_order_release);
-- 
2.43.0


From a59b39d7f08a4fb6679074b8c086d0bbaef2d8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:31 +0000
Subject: [PATCH 21/25] fix: lock-free queue: a thief must not dereference a
 context it does not own

---
 .../boost/fiber/detail/context_spmc_queue.hpp | 25 ++++++++++++++++---
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/include/boost/fiber/detail/context_spmc_queue.hpp b/include/boost/fiber/detail/context_spmc_queue.hpp
index dc8e525..de9fd71 100644
--- a/include/boost/fiber/detail/context_spmc_queue.hpp
+++ b/include/boost/fiber/detail/context_spmc_queue.hpp
@@ -97,6 +97,23 @@ private:
     std::vector< array * >                                  old_arrays_{};
     char                                                    padding_[cacheline_length];
 
+    // A thief does not own a context before it has moved top_, till then the
+    // context might be destroyed by another thread. Hence pinned contexts are
+    // marked in the stored pointer.
+    static context * mark( context * ctx) noexcept {
+        return ctx->is_context( type::pinned_context)
+            ? reinterpret_cast< context * >( reinterpret_cast< std::uintptr_t >( ctx) | 1)
+            : ctx;
+    }
+
+    static bool is_marked( context * ctx) noexcept {
+        return 0 != ( reinterpret_cast< std::uintptr_t >( ctx) & 1);
+    }
+
+    static context * unmark( context * ctx) noexcept {
+        return reinterpret_cast< context * >( reinterpret_cast< std::uintptr_t >( ctx) & ~static_cast< std::uintptr_t >( 1) );
+    }
+
 public:
     context_spmc_queue( std::size_t capacity = 4096) :
         array_{ new array{ capacity } } {
@@ -131,7 +148,7 @@ public:
             std::swap( a, tmp);
             array_.store( a, std::memory_order_release);
         }
-        a->push( bottom, ctx);
+        a->push( bottom, mark( ctx) );
         std::atomic_thread_fence( std::memory_order_release);
         bottom_.store( bottom + 1, std::memory_order_relaxed);
     }
@@ -145,7 +162,7 @@ public:
         context * ctx = nullptr;
         if ( top <= bottom) {
             // queue is not empty
-            ctx = a->pop( bottom);
+            ctx = unmark( a->pop( bottom) );
             BOOST_ASSERT( nullptr != ctx);
             if ( top == bottom) {
                 // last element dequeued
@@ -172,10 +189,10 @@ public:
         if ( top < bottom) {
             // queue is not empty
             array * a = array_.load( std::memory_order_consume);
+            // not valid (null or outdated) if another thread moved top_ meanwhile
             ctx = a->pop( top);
-            BOOST_ASSERT( nullptr != ctx);
             // do not steal pinned context (e.g. main-/dispatcher-context)
-            if ( ctx->is_context( type::pinned_context) ) {
+            if ( is_marked( ctx) ) {
                 return nullptr;
             }
             if ( ! top_.compare_exchange_strong( top, top + 1,
-- 
2.43.0


From 6e9cdea95feb65363bd34293d68aa5f413db6ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:01 +0000
Subject: [PATCH 22/25] fix: waitfor_all() iterates over a copy of its streams,
 completed ones are removed concurrently

---
 include/boost/fiber/cuda/waitfor.hpp | 4 +++-
 include/boost/fiber/hip/waitfor.hpp  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/fiber/cuda/waitfor.hpp b/include/boost/fiber/cuda/waitfor.hpp
index 262efd9..462d531 100644
--- a/include/boost/fiber/cuda/waitfor.hpp
+++ b/include/boost/fiber/cuda/waitfor.hpp
@@ -79,7 +79,9 @@ public:
     many_streams_rendezvous( std::initializer_list< cudaStream_t > l) :
             stx_{ l } {
         results_.reserve( stx_.size() );
-        for ( cudaStream_t st : stx_) {
+        // callbacks remove their stream from stx_ as soon as they are registered
+        const std::set< cudaStream_t > streams{ stx_ };
+        for ( cudaStream_t st : streams) {
             unsigned int flags = 0;
             cudaError_t status = ::cudaStreamAddCallback( st, trampoline< many_streams_rendezvous >, this, flags);
             if ( cudaSuccess != status) {
diff --git a/include/boost/fiber/hip/waitfor.hpp b/include/boost/fiber/hip/waitfor.hpp
index e05099e..99856f4 100644
--- a/include/boost/fiber/hip/waitfor.hpp
+++ b/include/boost/fiber/hip/waitfor.hpp
@@ -79,7 +79,9 @@ public:
     many_streams_rendezvous( std::initializer_list< hipStream_t > l) :
             stx_{ l } {
         results_.reserve( stx_.size() );
-        for ( hipStream_t st : stx_) {
+        // callbacks remove their stream from stx_ as soon as they are registered
+        const std::set< hipStream_t > streams{ stx_ };
+        for ( hipStream_t st : streams) {
             unsigned int flags = 0;
             hipError_t status = ::hipStreamAddCallback( st, trampoline< many_streams_rendezvous >, this, flags);
             if ( hipSuccess != status) {
-- 
2.43.0


From e1b7dd269d15495a444fdc39d9773d1ff7729bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:03 +0000
Subject: [PATCH 23/25] fix: waitfor_all() notifies under the lock, the
 rendezvous dies with the woken fiber

---
 include/boost/fiber/cuda/waitfor.hpp | 4 ++--
 include/boost/fiber/hip/waitfor.hpp  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/fiber/cuda/waitfor.hpp b/include/boost/fiber/cuda/waitfor.hpp
index 462d531..ff1f0a4 100644
--- a/include/boost/fiber/cuda/waitfor.hpp
+++ b/include/boost/fiber/cuda/waitfor.hpp
@@ -56,7 +56,7 @@ public:
         st_ = st;
         status_ = status;
         done_ = true;
-        lk.unlock();
+        // the waiting fiber destroys *this as soon as it gets the lock
         cv_.notify_one();
     }
 
@@ -97,7 +97,7 @@ public:
         stx_.erase( st);
         results_.push_back( std::make_tuple( st, status) );
         if ( stx_.empty() ) {
-            lk.unlock();
+            // the waiting fiber destroys *this as soon as it gets the lock
             cv_.notify_one();
         }
     }
diff --git a/include/boost/fiber/hip/waitfor.hpp b/include/boost/fiber/hip/waitfor.hpp
index 99856f4..307a618 100644
--- a/include/boost/fiber/hip/waitfor.hpp
+++ b/include/boost/fiber/hip/waitfor.hpp
@@ -56,7 +56,7 @@ public:
         st_ = st;
         status_ = status;
         done_ = true;
-        lk.unlock();
+        // the waiting fiber destroys *this as soon as it gets the lock
         cv_.notify_one();
     }
 
@@ -97,7 +97,7 @@ public:
         stx_.erase( st);
         results_.push_back( std::make_tuple( st, status) );
         if ( stx_.empty() ) {
-            lk.unlock();
+            // the waiting fiber destroys *this as soon as it gets the lock
             cv_.notify_one();
         }
     }
-- 
2.43.0


From 882596f6f39cff197d9067589eb16f3b6382746e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:03 +0000
Subject: [PATCH 24/25] fix: waitfor_all() for HIP lives in namespace hip, as
 documented, with its own include guard

---
 include/boost/fiber/hip/waitfor.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/fiber/hip/waitfor.hpp b/include/boost/fiber/hip/waitfor.hpp
index 307a618..a63ced0 100644
--- a/include/boost/fiber/hip/waitfor.hpp
+++ b/include/boost/fiber/hip/waitfor.hpp
@@ -4,8 +4,8 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          http://www.boost.org/LICENSE_1_0.txt)
 
-#ifndef BOOST_FIBERS_CUDA_WAITFOR_H
-#define BOOST_FIBERS_CUDA_WAITFOR_H
+#ifndef BOOST_FIBERS_HIP_WAITFOR_H
+#define BOOST_FIBERS_HIP_WAITFOR_H
 
 #include <initializer_list>
 #include <mutex>
@@ -30,7 +30,7 @@
 
 namespace boost {
 namespace fibers {
-namespace cuda {
+namespace hip {
 namespace detail {
 
 template< typename Rendezvous >
@@ -138,4 +138,4 @@ std::vector< std::tuple< hipStream_t, hipError_t > > waitfor_all( hipStream_t st
 #  include BOOST_ABI_SUFFIX
 #endif
 
-#endif // BOOST_FIBERS_CUDA_WAITFOR_H
+#endif // BOOST_FIBERS_HIP_WAITFOR_H
-- 
2.43.0


From 1537fa6f0140a7d04f76a8532027903744661bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:22 +0000
Subject: [PATCH 25/25] fix: transactional spinlock on top of the futex
 spinlocks

spinlock_rtm<> read the member state_, which the futex based spinlocks do
not have: BOOST_USE_TSX together with BOOST_FIBERS_SPINLOCK_TTAS_FUTEX or
BOOST_FIBERS_SPINLOCK_TTAS_ADAPTIVE_FUTEX did not compile.
---
 include/boost/fiber/detail/spinlock_rtm.hpp               | 8 ++++----
 include/boost/fiber/detail/spinlock_ttas.hpp              | 4 ++++
 include/boost/fiber/detail/spinlock_ttas_adaptive.hpp     | 4 ++++
 .../boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp   | 4 ++++
 include/boost/fiber/detail/spinlock_ttas_futex.hpp        | 4 ++++
 5 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/boost/fiber/detail/spinlock_rtm.hpp b/include/boost/fiber/detail/spinlock_rtm.hpp
index a38f4e7..9774418 100644
--- a/include/boost/fiber/detail/spinlock_rtm.hpp
+++ b/include/boost/fiber/detail/spinlock_rtm.hpp
@@ -41,7 +41,7 @@ public:
             std::uint32_t status;
             if ( rtm_status::success == ( status = rtm_begin() ) ) {
                 // add lock to read-set
-                if ( spinlock_status::unlocked == splk_.state_.load( std::memory_order_relaxed) ) {
+                if ( splk_.is_unlocked_( std::memory_order_relaxed) ) {
                     // lock is free, enter critical section
                     return;
                 }
@@ -71,7 +71,7 @@ public:
                 // abort was not caused by a nested transaction
                 // wait till lock becomes free again
                 std::size_t count = 0;
-                while ( spinlock_status::locked == splk_.state_.load( std::memory_order_relaxed) ) {
+                while ( ! splk_.is_unlocked_( std::memory_order_relaxed) ) {
                     if ( BOOST_FIBERS_SPIN_BEFORE_SLEEP0 > count) {
                         ++count;
                         cpu_relax();
@@ -105,7 +105,7 @@ public:
         }
 
         // add lock to read-set
-        if ( spinlock_status::unlocked != splk_.state_.load( std::memory_order_relaxed) ) {
+        if ( ! splk_.is_unlocked_( std::memory_order_relaxed) ) {
             // lock was acquired by another thread
             // explicit abort of transaction with abort argument 'lock not free'
             rtm_abort_lock_not_free();
@@ -114,7 +114,7 @@ public:
     }
 
     void unlock() noexcept {
-        if ( spinlock_status::unlocked == splk_.state_.load( std::memory_order_acquire) ) {
+        if ( splk_.is_unlocked_( std::memory_order_acquire) ) {
             rtm_end();
         } else {
             splk_.unlock();
diff --git a/include/boost/fiber/detail/spinlock_ttas.hpp b/include/boost/fiber/detail/spinlock_ttas.hpp
index cb89e91..6f16b2c 100644
--- a/include/boost/fiber/detail/spinlock_ttas.hpp
+++ b/include/boost/fiber/detail/spinlock_ttas.hpp
@@ -33,6 +33,10 @@ private:
 
     std::atomic< spinlock_status >              state_{ spinlock_status::unlocked };
 
+    bool is_unlocked_( std::memory_order order) const noexcept {
+        return spinlock_status::unlocked == state_.load( order);
+    }
+
 public:
     spinlock_ttas() = default;
 
diff --git a/include/boost/fiber/detail/spinlock_ttas_adaptive.hpp b/include/boost/fiber/detail/spinlock_ttas_adaptive.hpp
index 4ebf1e2..19f58dd 100644
--- a/include/boost/fiber/detail/spinlock_ttas_adaptive.hpp
+++ b/include/boost/fiber/detail/spinlock_ttas_adaptive.hpp
@@ -34,6 +34,10 @@ private:
     std::atomic< spinlock_status >              state_{ spinlock_status::unlocked };
     std::atomic< std::size_t >                  retries_{ 0 };
 
+    bool is_unlocked_( std::memory_order order) const noexcept {
+        return spinlock_status::unlocked == state_.load( order);
+    }
+
 public:
     spinlock_ttas_adaptive() = default;
 
diff --git a/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp b/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp
index 1628a8c..a4647d3 100644
--- a/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp
+++ b/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp
@@ -33,6 +33,10 @@ private:
     std::atomic< std::int32_t >                 value_{ 0 };
     std::atomic< std::int32_t >                 retries_{ 0 };
 
+    bool is_unlocked_( std::memory_order order) const noexcept {
+        return 0 == value_.load( order);
+    }
+
 public:
     spinlock_ttas_adaptive_futex() = default;
 
diff --git a/include/boost/fiber/detail/spinlock_ttas_futex.hpp b/include/boost/fiber/detail/spinlock_ttas_futex.hpp
index 3aefdc1..09c915b 100644
--- a/include/boost/fiber/detail/spinlock_ttas_futex.hpp
+++ b/include/boost/fiber/detail/spinlock_ttas_futex.hpp
@@ -32,6 +32,10 @@ private:
 
     std::atomic< std::int32_t >                 value_{ 0 };
 
+    bool is_unlocked_( std::memory_order order) const noexcept {
+        return 0 == value_.load( order);
+    }
+
 public:
     spinlock_ttas_futex() = default;
 
-- 
2.43.0

