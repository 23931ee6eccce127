From b9ccf315f83cbb15d052e9f2b5410868083410fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:33 +0000
Subject: [PATCH 01/23] fix: threadpool accounts for a thread before it starts
 running

The active count was incremented after the new worker had been started, so a
worker going idle first made schedule() on another thread see more idle than
active threads and trip its assertion. Two threads could also both pass the
limit check. Reserve the slot atomically before creating the thread and drop the
assertion which compares two counters that are not read together.
---
 src/naive/naive_threadpool.cpp | 37 ++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/naive/naive_threadpool.cpp b/src/naive/naive_threadpool.cpp
index c995561..d6806db 100644
--- a/src/naive/naive_threadpool.cpp
+++ b/src/naive/naive_threadpool.cpp
@@ -307,30 +307,41 @@ void
 threadpool::schedule()
 {
     // lets check if there is an idle thread first
-    const int active_threads =
+    int active_threads =
       m_data->m_active_threads.load(std::memory_order_consume);
     const int idle_threads =
       m_data->m_idle_threads.load(std::memory_order_consume);
     XDISPATCH_ASSERT(idle_threads >= 0);
     XDISPATCH_ASSERT(active_threads >= 0);
-    XDISPATCH_ASSERT(idle_threads <= active_threads &&
-                     "We must never have more idle than active threads");
 
     if (idle_threads > 0) {
         // idle count will be decremented by thread waking up again
         XDISPATCH_TP_TRACE(this, active_threads, idle_threads)
           << "Woke an idle thread";
+        return;
     }
-    // check if we are good to create another thread
-    else if (active_threads <
-             m_data->m_max_threads.load(std::memory_order_consume)) {
-        auto thread = std::make_shared<worker>(m_data);
-        operation_queue_manager::instance().attach(thread);
-        m_data->m_active_threads.fetch_add(1, std::memory_order_release);
-
-        XDISPATCH_TP_TRACE(this, active_threads + 1, idle_threads)
-          << "Spawned thread " << thread->get_id()
-          << " (max=" << m_data->m_max_threads << ")";
+
+    // check if we are good to create another thread. The thread needs to be
+    // accounted for before it starts running as it may mark itself idle or
+    // even end again right away
+    while (active_threads <
+           m_data->m_max_threads.load(std::memory_order_consume)) {
+        if (!m_data->m_active_threads.compare_exchange_weak(
+              active_threads, active_threads + 1, std::memory_order_acq_rel)) {
+            continue;
+        }
+
+        try {
+            auto thread = std::make_shared<worker>(m_data);
+            operation_queue_manager::instance().attach(thread);
+            XDISPATCH_TP_TRACE(this, active_threads + 1, idle_threads)
+              << "Spawned thread " << thread->get_id()
+              << " (max=" << m_data->m_max_threads << ")";
+        } catch (...) {
+            m_data->m_active_threads.fetch_sub(1, std::memory_order_release);
+            throw;
+        }
+        return;
     }
     // all threads busy and processor allocation reached, wait
     // and the operation will be picked up as soon as a thread is available
-- 
2.43.0


From 5e5b8188982b3d51853e275a58f21cbe49c1fc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:51 +0000
Subject: [PATCH 02/23] fix: threadpool gives every queued operation a thread
 while some are spare

Operations queued in a row all saw the same thread as idle and relied on it,
though it takes only one of them; the others were left waiting although the pool
could have run more threads. Check for remaining operations when picking one.
---
 src/naive/naive_semaphore.cpp  | 6 ++++++
 src/naive/naive_semaphore.h    | 6 ++++++
 src/naive/naive_threadpool.cpp | 8 ++++++++
 3 files changed, 20 insertions(+)

diff --git a/src/naive/naive_semaphore.cpp b/src/naive/naive_semaphore.cpp
index c221336..ac1275e 100644
--- a/src/naive/naive_semaphore.cpp
+++ b/src/naive/naive_semaphore.cpp
@@ -120,6 +120,12 @@ semaphore::wait_acquire(std::chrono::milliseconds timeout)
     return true;
 }
 
+bool
+semaphore::is_available() const
+{
+    return m_count.load(std::memory_order_acquire) > 0;
+}
+
 void
 semaphore::release(int count)
 {
diff --git a/src/naive/naive_semaphore.h b/src/naive/naive_semaphore.h
index 2480963..bf65daf 100644
--- a/src/naive/naive_semaphore.h
+++ b/src/naive/naive_semaphore.h
@@ -74,6 +74,12 @@ public:
      */
     bool wait_acquire(std::chrono::milliseconds timeout);
 
+    /**
+        @return true if the count was greater than zero at the time of the call,
+                i.e. an attempt to acquire might have succeeded
+     */
+    bool is_available() const;
+
     /**
         @brief Releases the semaphore incrementing its count
 
diff --git a/src/naive/naive_threadpool.cpp b/src/naive/naive_threadpool.cpp
index d6806db..fad5b02 100644
--- a/src/naive/naive_threadpool.cpp
+++ b/src/naive/naive_threadpool.cpp
@@ -194,6 +194,14 @@ public:
                     }
                 }
 
+                // Several operations may have been queued while we still
+                // counted as idle (or while we were just being created), none
+                // of them creating a thread as each relied on us. We only take
+                // one of them, make sure the remaining ones get a thread too.
+                if (m_data->m_operations_counter.is_available()) {
+                    m_data->m_pool->schedule();
+                }
+
                 // search for the next operation starting with the highest
                 // priority
                 // Note: there has to be such operation as we acquired the
-- 
2.43.0


From c1c6e25d2987a59308c19a7d79241963424686cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:00 +0000
Subject: [PATCH 03/23] fix: lightweight_barrier must not rely on a weak
 compare/exchange

A spuriously failing compare_exchange_weak leaves previous at kNoOwner: wait()
then dereferences a null pointer and complete() does nothing at all, so that
waiters are never released.
---
 src/lightweight_barrier.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightweight_barrier.cpp b/src/lightweight_barrier.cpp
index 03c0d5b..c9dac48 100644
--- a/src/lightweight_barrier.cpp
+++ b/src/lightweight_barrier.cpp
@@ -106,7 +106,7 @@ lightweight_barrier::wait(std::chrono::milliseconds timeout)
     // try to become the owner of the mutex
     auto candidate = std::make_unique<waiter>();
     previous = kNoOwner;
-    if (m_owner.compare_exchange_weak(
+    if (m_owner.compare_exchange_strong(
           previous, candidate.get(), std::memory_order_acq_rel)) {
         // value was incomplete before, we are the owner now so wait
         auto* barrier = candidate.release();
@@ -117,7 +117,7 @@ lightweight_barrier::wait(std::chrono::milliseconds timeout)
         return true;
     }
     // else: somebody else placed a waiter barrier before, use it instead
-    // (previous holds the barrier obtained from compare_exchange_weak above)
+    // (previous holds the barrier obtained from compare_exchange_strong above)
     return previous->wait(timeout);
 }
 
@@ -128,7 +128,7 @@ lightweight_barrier::complete()
     // branches are kept for readability
 
     auto* previous = kNoOwner;
-    if (m_owner.compare_exchange_weak(
+    if (m_owner.compare_exchange_strong(
           previous, kCompleted, std::memory_order_acq_rel)) { // NOLINT
         // nobody was waiting and now marked as complete
     } else if (kCompleted == previous) { // NOLINT
-- 
2.43.0


From f7adbf61372e19ac43b7a7008c8907f406644f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:07 +0000
Subject: [PATCH 04/23] fix: waiting on a barrier with a huge timeout returned
 at once

std::condition_variable::wait_for adds the timeout to the current time, which
overflows for milliseconds::max() as used by group::notify() so that
notifications did not wait for the operations of the group at all.
---
 src/lightweight_barrier.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lightweight_barrier.cpp b/src/lightweight_barrier.cpp
index c9dac48..5a34d0f 100644
--- a/src/lightweight_barrier.cpp
+++ b/src/lightweight_barrier.cpp
@@ -22,6 +22,7 @@
 #include "xdispatch/impl/lightweight_barrier.h"
 #include "xdispatch_internal.h"
 
+#include <chrono>
 #include <cstdlib>
 #include <mutex>
 #include <condition_variable>
@@ -52,7 +53,13 @@ public:
 
         std::unique_lock<std::mutex> lock(m_mutex);
         if (!predicate()) {
-            if (std::chrono::milliseconds(-1) != timeout) {
+            // a deadline the clock cannot represent is never reached, so waiting
+            // for it is the same as waiting without a timeout
+            const auto longest =
+              std::chrono::duration_cast<std::chrono::milliseconds>(
+                std::chrono::steady_clock::time_point::max() -
+                std::chrono::steady_clock::now());
+            if (std::chrono::milliseconds(-1) != timeout && timeout < longest) {
                 return m_cond.wait_for(lock, timeout, predicate);
             }
             m_cond.wait(lock, predicate);
-- 
2.43.0


From d0a5269e266fb3e59b482a46f4a0d6e8e8b2f2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:54 +0000
Subject: [PATCH 05/23] fix: groups neither miss nor forget operations when
 waited for or reused

A consumable completed whenever its count dropped to zero, also if further
operations got added to it afterwards, so that wait() returned true with these
still running. Let the group hold a resource of its own until the consumable is
swapped, retry adding to the new one if it was, and have notify() take the
operations submitted up to its call. Also release consumables once they are
satisfied, do not add a new one for each wait without operations and account for
the time spent waiting on the preceeding one.
---
 src/naive/naive_consumable.cpp | 53 ++++++++++++++++++++++-----
 src/naive/naive_consumable.h   | 22 ++++++++++--
 src/naive/naive_group.cpp      | 65 ++++++++++++++++++++++------------
 3 files changed, 106 insertions(+), 34 deletions(-)

diff --git a/src/naive/naive_consumable.cpp b/src/naive/naive_consumable.cpp
index f2459c0..e648d54 100644
--- a/src/naive/naive_consumable.cpp
+++ b/src/naive/naive_consumable.cpp
@@ -23,6 +23,9 @@
 #include "naive_threadpool.h"
 #include "naive_backend_internal.h"
 
+#include <algorithm>
+#include <chrono>
+
 __XDISPATCH_BEGIN_NAMESPACE
 namespace naive {
 
@@ -31,10 +34,23 @@ consumable::consumable(size_t resources, const consumable_ptr& preceeding)
   , m_resources(resources)
 {}
 
-void
+bool
 consumable::add_resource()
 {
-    m_resources.fetch_add(size_t(1));
+    auto resources = m_resources.load();
+    while (resources > 0) {
+        if (m_resources.compare_exchange_weak(resources, resources + 1)) {
+            return true;
+        }
+    }
+    // fully consumed, the barrier cannot be closed again
+    return false;
+}
+
+size_t
+consumable::resources() const
+{
+    return m_resources.load();
 }
 
 void
@@ -53,15 +69,26 @@ consumable::consume_resource()
 // Recursion is no risk because infinite recursion is guarded by checking
 // preceeding against this
 bool
-consumable::wait_for_consumed(const std::chrono::milliseconds timeout) // NOLINT
+consumable::wait_for_preceeding(const std::chrono::milliseconds timeout) // NOLINT
 {
-    // make sure that the preceeding consumable is satisfied
-    if (m_preceeding && m_preceeding.get() != this) {
-        if (m_preceeding->wait_for_consumed(timeout)) {
-            // satisfied, continue with this
-        } else {
+    const auto preceeding = std::atomic_load(&m_preceeding);
+    if (preceeding && preceeding.get() != this) {
+        if (!preceeding->wait_for_consumed(timeout)) {
             return false;
         }
+        // satisfied for good, so do not keep it alive any longer
+        std::atomic_store(&m_preceeding, consumable_ptr());
+    }
+    return true;
+}
+
+bool
+consumable::wait_for_consumed(const std::chrono::milliseconds timeout) // NOLINT
+{
+    // make sure that the preceeding consumable is satisfied
+    const auto started = std::chrono::steady_clock::now();
+    if (!wait_for_preceeding(timeout)) {
+        return false;
     }
     // if no resources have been available or consumed
     // the barrier will never be completed but the consumable
@@ -69,8 +96,16 @@ consumable::wait_for_consumed(const std::chrono::milliseconds timeout) // NOLINT
     if (0 == m_resources.load()) {
         return true;
     }
+    // waiting for the preceeding one has used up some of the timeout
+    auto remaining = timeout;
+    if (timeout.count() > 0) {
+        remaining -= std::min(
+          timeout,
+          std::chrono::duration_cast<std::chrono::milliseconds>(
+            std::chrono::steady_clock::now() - started));
+    }
     ithreadpool::block_scope blocked;
-    const auto ret = m_barrier.wait(timeout);
+    const auto ret = m_barrier.wait(remaining);
     return ret;
 }
 
diff --git a/src/naive/naive_consumable.h b/src/naive/naive_consumable.h
index 605f770..63ed773 100644
--- a/src/naive/naive_consumable.h
+++ b/src/naive/naive_consumable.h
@@ -61,8 +61,17 @@ public:
         If the consumable had already been fully consumed by the
         time this is called, this will have no effect and the
         consumable remain fully consumed.
+
+        @return true if the resource was added, false if the consumable had
+                already been fully consumed
      */
-    void add_resource();
+    bool add_resource();
+
+    /**
+        @return the number of resources which can still be consumed, not
+                including these of any preceeding consumable
+     */
+    size_t resources() const;
 
     /**
         @brief Consumes a resource removing it from the list of
@@ -82,8 +91,17 @@ public:
     bool wait_for_consumed(
       std::chrono::milliseconds timeout = std::chrono::milliseconds(-1));
 
+    /**
+        @brief Blocks until all resources of the preceeding consumable are
+               consumed or the given timeout has passed
+
+        @see wait_for_consumed
+     */
+    bool wait_for_preceeding(
+      std::chrono::milliseconds timeout = std::chrono::milliseconds(-1));
+
 private:
-    const consumable_ptr m_preceeding;
+    consumable_ptr m_preceeding;
     std::atomic<size_t> m_resources;
     lightweight_barrier m_barrier;
 };
diff --git a/src/naive/naive_group.cpp b/src/naive/naive_group.cpp
index 7a7f3e5..4e7254a 100644
--- a/src/naive/naive_group.cpp
+++ b/src/naive/naive_group.cpp
@@ -30,6 +30,10 @@
 __XDISPATCH_BEGIN_NAMESPACE
 namespace naive {
 
+// each consumable holds a single resource owned by the group itself so that
+// it cannot be fully consumed while operations may still be added to it
+static constexpr size_t k_no_operations = 1;
+
 class group_impl
   : public igroup_impl
   , public std::enable_shared_from_this<group_impl>
@@ -39,35 +43,33 @@ public:
       : igroup_impl()
       , m_pool(pool)
       , m_backend(backend)
-      , m_consumable(std::make_shared<consumable>())
+      , m_consumable(std::make_shared<consumable>(k_no_operations))
     {}
 
     ~group_impl() override = default;
 
     void async(const operation_ptr& op, const iqueue_impl_ptr& q) final
     {
-        const auto c = std::atomic_load(&m_consumable);
-        XDISPATCH_ASSERT(c);
-        c->add_resource();
+        // when the consumable is closed by a concurrent wait() before
+        // we could make use of it, there is a new one to be used instead
+        consumable_ptr c;
+        do {
+            c = std::atomic_load(&m_consumable);
+            XDISPATCH_ASSERT(c);
+        } while (!c->add_resource());
         q->async(std::make_shared<consuming_operation>(op, c));
     }
 
     bool wait(std::chrono::milliseconds timeout) final
     {
-        // swap the previous consumable with a new one that all operations
-        // submitted after this call will be added to and which waits on the
-        // previous consumable in a chain. Use a compare/exchange and retry
-        // whenever the consumable was already swapped by another thread
-        consumable_ptr old_c;
-        consumable_ptr new_c;
-        do {
-            old_c = std::atomic_load(&m_consumable);
-            new_c = std::make_shared<consumable>(0, old_c);
-        } while (
-          !std::atomic_compare_exchange_weak(&m_consumable, &old_c, new_c));
-        XDISPATCH_ASSERT(old_c);
-        XDISPATCH_ASSERT(new_c);
-        return old_c->wait_for_consumed(timeout);
+        const auto c = std::atomic_load(&m_consumable);
+        XDISPATCH_ASSERT(c);
+        if (k_no_operations == c->resources() &&
+            c == std::atomic_load(&m_consumable)) {
+            // nothing left but what has been submitted before the last wait
+            return c->wait_for_preceeding(timeout);
+        }
+        return close()->wait_for_consumed(timeout);
 
         // FIXME(zwicker): This is blocking and will not work if invoked from
         // within
@@ -79,12 +81,12 @@ public:
     {
         XDISPATCH_ASSERT(q);
 
-        const auto this_ptr = shared_from_this();
-        auto notify_op = make_operation([op, q, this_ptr] {
+        // only the operations submitted up to now are to be waited for
+        const auto c = close();
+        auto notify_op = make_operation([op, q, c] {
             // note: wait(..) will already notify the threadpool that
-            //       we are blocking one of its threads through our internal
-            //       use of a consumable
-            this_ptr->wait(std::chrono::milliseconds::max());
+            //       we are blocking one of its threads
+            c->wait_for_consumed();
             q->async(op);
         });
 
@@ -95,6 +97,23 @@ public:
     backend_type backend() final { return m_backend; }
 
 private:
+    consumable_ptr close()
+    {
+        // swap the previous consumable with a new one that all operations
+        // submitted after this call will be added to and which waits on the
+        // previous consumable in a chain. Use a compare/exchange and retry
+        // whenever the consumable was already swapped by another thread
+        consumable_ptr old_c = std::atomic_load(&m_consumable);
+        consumable_ptr new_c;
+        do {
+            new_c = std::make_shared<consumable>(k_no_operations, old_c);
+        } while (
+          !std::atomic_compare_exchange_weak(&m_consumable, &old_c, new_c));
+        // nothing can be added anymore, so release our own resource
+        old_c->consume_resource();
+        return old_c;
+    }
+
     const ithreadpool_ptr m_pool;
     const backend_type m_backend;
     consumable_ptr m_consumable;
-- 
2.43.0


From 300fe8b246e5fd1bce25421174e5b6b53101a6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:06 +0000
Subject: [PATCH 06/23] fix: cancelable neither drops parallel calls nor lets a
 disable overtake them

Only one call at a time could enter, so concurrent invocations of a signal
handler on a parallel queue were dropped. A second, concurrent disable() did not
wait for the running call at all. Count the active calls and have everybody who
disables wait for them.
---
 include/xdispatch/impl/cancelable.h | 31 ++++++++--------------
 src/cancelable.cpp                  | 41 ++++++++++++++++++-----------
 2 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/include/xdispatch/impl/cancelable.h b/include/xdispatch/impl/cancelable.h
index 1ecac5e..8531704 100644
--- a/include/xdispatch/impl/cancelable.h
+++ b/include/xdispatch/impl/cancelable.h
@@ -47,24 +47,16 @@ __XDISPATCH_BEGIN_NAMESPACE
 class XDISPATCH_EXPORT cancelable
 {
 public:
-    enum active_state
-    {
-        /**< Entity is not in a queue right now */
-        active_disabled = 0,
-        /**< Entity has been queued but not executed yet */
-        active_enabled,
-        /**< Entity is actively being executed */
-        active_running
-    };
-
     /**
        @brief Constructs an active (not disabled) cancelable.
      */
     cancelable();
 
     /**
-       Marks the entity as not to be queued anywhere,
-       i.e. sets it to active_disabled
+       Marks the entity as not to be queued anywhere
+
+       Returns once all calls which entered the entity before have left it
+       again unless invoked from within such a call.
     */
     void disable();
 
@@ -72,27 +64,26 @@ protected:
     friend class cancelable_scope;
 
     /**
-        Notifies the entity that it is about to be called,
-        i.e. sets it to active_running if the entity had been enabled
+        Notifies the entity that it is about to be called. Any number of calls
+        may be active at the same time.
 
         Make sure to balance this with calls to leave().
         It is recommended to not invoke this directly but go through
         cancelable_scope instead which manages this for you.
 
-        @returns true if the entity had been active_enabled
+        @returns true if the entity had not been disabled
     */
     bool enter();
 
     /**
-        Notifies the entity that the call is done,
-        i.e. sets it to active_enabled again if it had
-        been in the active_running state before
+        Notifies the entity that the call is done
     */
     void leave();
 
 private:
-    // the current state of the handler
-    std::atomic<active_state> m_active;
+    // the lowest bit is set once disabled, the remaining
+    // ones count the active calls
+    std::atomic<unsigned> m_state;
     // barrier to ensure defined cancellation
     lightweight_barrier m_barrier;
 };
diff --git a/src/cancelable.cpp b/src/cancelable.cpp
index 46351aa..f00e6d6 100644
--- a/src/cancelable.cpp
+++ b/src/cancelable.cpp
@@ -27,34 +27,44 @@
 
 __XDISPATCH_BEGIN_NAMESPACE
 
-static thread_local std::set<cancelable*> current_c;
+// the same entity may be entered several times by the same thread
+static thread_local std::multiset<cancelable*> current_c;
+
+static constexpr unsigned kDisabled = 1;
+static constexpr unsigned kCall = 2;
 
 cancelable::cancelable()
-  : m_active(active_enabled)
+  : m_state(0)
 {}
 
 void
 cancelable::disable()
 {
+    const auto previous = m_state.fetch_or(kDisabled);
     if (current_c.find(this) != current_c.end()) {
         // recursion
-        m_active.store(active_disabled);
+        return;
+    }
+
+    if (0 == previous) {
+        // first to disable and no call is active, i.e. there
+        // is nobody else left to release others which disable
+        m_barrier.complete();
     } else {
-        auto current = m_active.exchange(active_disabled);
-        if (active_running == current) {
-            // tried to disable while still running
-            m_barrier.wait();
-        }
+        // wait for the active calls
+        m_barrier.wait();
     }
 }
 
 bool
 cancelable::enter()
 {
-    auto expected = active_enabled;
-    if (m_active.compare_exchange_strong(expected, active_running)) {
-        current_c.insert(this);
-        return true;
+    auto state = m_state.load();
+    while (0 == (state & kDisabled)) {
+        if (m_state.compare_exchange_weak(state, state + kCall)) {
+            current_c.insert(this);
+            return true;
+        }
     }
     // disabled
     return false;
@@ -63,10 +73,9 @@ cancelable::enter()
 void
 cancelable::leave()
 {
-    current_c.erase(this);
-    auto expected = active_running;
-    if (!m_active.compare_exchange_strong(expected, active_enabled)) {
-        // disabled in the meantime
+    current_c.erase(current_c.find(this));
+    if (kDisabled + kCall == m_state.fetch_sub(kCall)) {
+        // last call and disabled in the meantime
         m_barrier.complete();
     }
 }
-- 
2.43.0


From ba1d3eb30375ea0ac96f36bc0fcfbfa374dce4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:42 +0000
Subject: [PATCH 07/23] fix: timers and notifiers leave their cancelable before
 completing the call

The thread driving the timer or notifier may release it as soon as the barrier
is completed while the cancelable_scope, which lives in there, was only left
afterwards.
---
 src/naive/naive_socket_notifier.cpp | 11 +++++++----
 src/naive/naive_timer.cpp           |  9 ++++++---
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/naive/naive_socket_notifier.cpp b/src/naive/naive_socket_notifier.cpp
index 488c74d..5b88d10 100644
--- a/src/naive/naive_socket_notifier.cpp
+++ b/src/naive/naive_socket_notifier.cpp
@@ -163,11 +163,14 @@ public:
                     lightweight_barrier barrier;
                     queue->async(make_operation(
                       [handler, socket, type, &barrier, &handler_cancelable] {
-                          cancelable_scope scope(handler_cancelable);
-                          if (scope) {
-                              execute_operation_on_this_thread(
-                                *handler, socket, type);
+                          {
+                              cancelable_scope scope(handler_cancelable);
+                              if (scope) {
+                                  execute_operation_on_this_thread(
+                                    *handler, socket, type);
+                              }
                           }
+                          // the notifier may be gone once this is completed
                           barrier.complete();
                       }));
                     barrier.wait();
diff --git a/src/naive/naive_timer.cpp b/src/naive/naive_timer.cpp
index 239de07..ea4d422 100644
--- a/src/naive/naive_timer.cpp
+++ b/src/naive/naive_timer.cpp
@@ -104,10 +104,13 @@ public:
 
                 lightweight_barrier barrier;
                 queue->async(make_operation([handler, &barrier, &cancelable] {
-                    cancelable_scope scope(cancelable);
-                    if (scope) {
-                        execute_operation_on_this_thread(*handler);
+                    {
+                        cancelable_scope scope(cancelable);
+                        if (scope) {
+                            execute_operation_on_this_thread(*handler);
+                        }
                     }
+                    // the timer may be gone as soon as this is completed
                     barrier.complete();
                 }));
                 barrier.wait();
-- 
2.43.0


From 75192d681299f91a80ba3e03f004587369aa9f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:15 +0000
Subject: [PATCH 08/23] fix: a timer resumed again is driven by a single helper

A helper sleeping while its timer was suspended and resumed again did not notice
and carried on next to the newly started one, multiplying the rate at which the
timer fired. Resuming a cancelled timer also started a helper which never ended.
Tell helpers apart by a cookie as socket_notifier does, wait for a call which is
still pending from before and refuse to resume once cancelled.
---
 src/naive/naive_timer.cpp | 43 +++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/naive/naive_timer.cpp b/src/naive/naive_timer.cpp
index ea4d422..379202e 100644
--- a/src/naive/naive_timer.cpp
+++ b/src/naive/naive_timer.cpp
@@ -44,6 +44,8 @@ public:
       , m_pool(pool)
       , m_handler()
       , m_running(0)
+      , m_cookie(0)
+      , m_cancelled(false)
       , m_cancelable()
     {}
 
@@ -78,42 +80,61 @@ public:
     void resume(std::chrono::milliseconds delay) final
     {
         std::lock_guard<std::mutex> lock(m_CS);
+        if (m_cancelled) {
+            // a cancelled timer cannot be reused
+            return;
+        }
         if (1 != ++m_running) {
             // only proceed when we become runnable
             return;
         }
 
+        // ends any helper started by an earlier resume
+        // which did not notice yet that it got suspended
+        const auto cookie = ++m_cookie;
         const auto this_ptr = shared_from_this();
 
         // the timer will execute via a helper borrowed from the
         // global default threadpool. It is ensured that enough
         // threads are available for the pool even though the
         // timer is blocking while it is active
-        auto timer_op = make_operation([this_ptr, delay] {
+        auto timer_op = make_operation([this_ptr, delay, cookie] {
             ithreadpool::block_scope blocked;
             std::this_thread::sleep_for(delay);
 
             std::unique_lock<std::mutex> lock(this_ptr->m_CS);
-            while (this_ptr->m_running > 0) {
+            while (this_ptr->m_running > 0 && this_ptr->m_cookie == cookie) {
+                const auto pending = this_ptr->m_call;
+                if (pending) {
+                    // a call made before the timer was resumed again
+                    inverse_lock_guard<std::mutex> unlock(this_ptr->m_CS);
+                    pending->wait();
+                    continue;
+                }
+
                 const auto handler = this_ptr->m_handler;
                 const auto interval = this_ptr->m_interval;
                 const auto queue = this_ptr->m_queue;
-                auto& cancelable = this_ptr->m_cancelable;
+
+                const auto call = std::make_shared<lightweight_barrier>();
+                this_ptr->m_call = call;
 
                 inverse_lock_guard<std::mutex> unlock(this_ptr->m_CS);
 
-                lightweight_barrier barrier;
-                queue->async(make_operation([handler, &barrier, &cancelable] {
+                queue->async(make_operation([handler, call, this_ptr] {
                     {
-                        cancelable_scope scope(cancelable);
+                        cancelable_scope scope(this_ptr->m_cancelable);
                         if (scope) {
                             execute_operation_on_this_thread(*handler);
                         }
                     }
-                    // the timer may be gone as soon as this is completed
-                    barrier.complete();
+                    {
+                        std::lock_guard<std::mutex> done(this_ptr->m_CS);
+                        this_ptr->m_call.reset();
+                    }
+                    call->complete();
                 }));
-                barrier.wait();
+                call->wait();
 
                 if (interval.count() > 0) {
                     std::this_thread::sleep_for(interval);
@@ -139,6 +160,7 @@ public:
         {
             std::lock_guard<std::mutex> lock(m_CS);
             m_running = 0;
+            m_cancelled = true;
         }
         m_cancelable.disable();
     }
@@ -153,6 +175,9 @@ private:
     ithreadpool_ptr m_pool;
     operation_ptr m_handler;
     int m_running;
+    unsigned m_cookie;
+    bool m_cancelled;
+    std::shared_ptr<lightweight_barrier> m_call;
     cancelable m_cancelable;
 };
 
-- 
2.43.0


From dd3137674e9aa55331615fbd20733dfd34cee28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:46 +0000
Subject: [PATCH 09/23] fix: waitable_queue::after releases the operation,
 timer and queue

The handler captured the timer it was assigned to and this cycle was never
broken. Use the same self hosted operation as the other queues.
---
 src/waitable_queue.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/waitable_queue.cpp b/src/waitable_queue.cpp
index 4876d4a..36aa872 100644
--- a/src/waitable_queue.cpp
+++ b/src/waitable_queue.cpp
@@ -159,11 +159,8 @@ public:
     {
         auto timer =
           backend_for_type(backend()).create_timer(shared_from_this());
-        timer->handler(make_operation([op, timer] {
-            execute_operation_on_this_thread(*op);
-            timer->cancel();
-        }));
-        timer->resume(delay);
+        naive::delayed_operation::create_and_dispatch(
+          std::move(timer), delay, op);
     }
 
     backend_type backend() override
-- 
2.43.0


From 7e3ca0e2d9ad4cb1f0b77c9236cde4d0ef8d4650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:46 +0000
Subject: [PATCH 10/23] fix: waitable_queue destroys operations without holding
 its lock

The destructor of an operation (or of anything captured by it) which uses the
queue again would deadlock.
---
 src/waitable_queue.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/waitable_queue.cpp b/src/waitable_queue.cpp
index 36aa872..9369ac8 100644
--- a/src/waitable_queue.cpp
+++ b/src/waitable_queue.cpp
@@ -61,6 +61,8 @@ public:
 
             lock.unlock();
             xdispatch::execute_operation_on_this_thread(*op);
+            // freed without the lock, its destruction may use the queue again
+            op.reset();
             lock.lock();
             ++m_completed;
         }
-- 
2.43.0


From c05b9cece428fc26c9226a7335e15cec8d6c61cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:12 +0000
Subject: [PATCH 11/23] fix: signals do not hold their lock while waiting for
 or calling handlers

---
 include/xdispatch/signals.h |  9 ++++++---
 src/signals.cpp             | 21 +++++++++++++++------
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/include/xdispatch/signals.h b/include/xdispatch/signals.h
index f59ef85..d62cf32 100644
--- a/include/xdispatch/signals.h
+++ b/include/xdispatch/signals.h
@@ -233,6 +233,9 @@ protected:
     /// Registers a connection for the given handler
     connection connect(const connection_handler_ptr& job);
 
+    /// The handlers currently connected
+    std::vector<connection_handler_ptr> handlers();
+
     /// Disallow copying of a signal to ensure consistent behavior
     signal_p(const signal_p&) = delete;
 
@@ -385,9 +388,9 @@ public:
     {
         // FIXME(zwicker): Can this be pulled into the signal_p?
         // FIXME(zwicker): Would this allow us to make cancelable private?
-        std::lock_guard<std::mutex> lock(m_CS);
-
-        for (const connection_handler_ptr& handler : m_handlers) {
+        // not holding the lock while invoking a handler permits it to connect,
+        // disconnect or emit again
+        for (const connection_handler_ptr& handler : handlers()) {
             auto pending = handler->m_pending++;
             if (notification_mode::_synchronous_update == handler->m_mode) {
                 cancelable_scope cancel_scope(handler->m_active);
diff --git a/src/signals.cpp b/src/signals.cpp
index 3872be6..e2b2295 100644
--- a/src/signals.cpp
+++ b/src/signals.cpp
@@ -186,12 +186,16 @@ signal_p::signal_p()
 
 signal_p::~signal_p()
 {
-    std::lock_guard<std::mutex> lock(m_CS);
+    std::vector<connection_handler_ptr> removed;
+    {
+        std::lock_guard<std::mutex> lock(m_CS);
+        removed.swap(m_handlers);
+    }
 
-    for (const auto& handler : m_handlers) {
+    // waits for active handlers which may be using the signal
+    for (const auto& handler : removed) {
         handler->disable();
     }
-    m_handlers.clear();
 }
 
 bool
@@ -216,9 +220,7 @@ signal_p::disconnect(connection& c)
 void
 signal_p::skip_all()
 {
-    std::lock_guard<std::mutex> lock(m_CS);
-
-    for (const auto& handler : m_handlers) {
+    for (const auto& handler : handlers()) {
         handler->disable();
     }
 }
@@ -233,4 +235,11 @@ signal_p::connect(const connection_handler_ptr& job)
     return connection(job, this);
 }
 
+std::vector<signal_p::connection_handler_ptr>
+signal_p::handlers()
+{
+    std::lock_guard<std::mutex> lock(m_CS);
+    return m_handlers;
+}
+
 __XDISPATCH_END_NAMESPACE
-- 
2.43.0


From 15c61ab65cf1b9d6c4e5785c57984142f7aa0eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:40 +0000
Subject: [PATCH 12/23] fix: signal::skip_all only skips calls queued before

---
 include/xdispatch/signals.h | 32 ++++++++++++++++++++++----------
 src/signals.cpp             | 30 +++++++++++++++++++++++++++++-
 2 files changed, 51 insertions(+), 11 deletions(-)

diff --git a/include/xdispatch/signals.h b/include/xdispatch/signals.h
index d62cf32..a962498 100644
--- a/include/xdispatch/signals.h
+++ b/include/xdispatch/signals.h
@@ -250,12 +250,27 @@ protected:
         /// i.e. makes sure it is not executed anymore
         void disable();
 
+        /// Marks a call as queued
+        ///
+        /// @param ticket identifies the call to start_call()
+        /// @returns false when another call is not required
+        bool queue_call(unsigned& ticket);
+
+        /// Marks a queued call as about to be executed
+        ///
+        /// @returns false if the call had been skipped
+        bool start_call(unsigned ticket);
+
+        /// Makes sure calls queued so far are not executed anymore
+        void skip_calls();
+
         // the queue to execute the handler on
         const queue m_queue;
         // the current state of the handler
         cancelable m_active;
-        // the number of items that have been queued
-        std::atomic<int> m_pending;
+        // the lowest bit is set while there is a call queued,
+        // the remaining ones count how often calls got skipped
+        std::atomic<unsigned> m_pending;
         // the mode in which the handler will be called
         notification_mode m_mode;
     };
@@ -391,20 +406,19 @@ public:
         // not holding the lock while invoking a handler permits it to connect,
         // disconnect or emit again
         for (const connection_handler_ptr& handler : handlers()) {
-            auto pending = handler->m_pending++;
             if (notification_mode::_synchronous_update == handler->m_mode) {
                 cancelable_scope cancel_scope(handler->m_active);
                 if (cancel_scope) {
-                    handler->m_pending--;
                     std::static_pointer_cast<connection_handler_t>(handler)
                       ->m_func(argList...);
                 }
-            } else if (notification_mode::single_updates == handler->m_mode ||
-                       pending < 1) {
+                continue;
+            }
+            unsigned ticket = 0;
+            if (handler->queue_call(ticket)) {
                 auto invocation = [=] {
                     cancelable_scope cancel_scope(handler->m_active);
-                    if (cancel_scope) {
-                        handler->m_pending--;
+                    if (cancel_scope && handler->start_call(ticket)) {
                         std::static_pointer_cast<connection_handler_t>(handler)
                           ->m_func(argList...);
                     }
@@ -414,8 +428,6 @@ public:
                 } else {
                     handler->m_queue.async(std::move(invocation));
                 }
-            } else {
-                handler->m_pending--;
             }
         }
     }
diff --git a/src/signals.cpp b/src/signals.cpp
index e2b2295..4150c08 100644
--- a/src/signals.cpp
+++ b/src/signals.cpp
@@ -176,6 +176,34 @@ signal_p::connection_handler::disable()
     m_active.disable();
 }
 
+bool
+signal_p::connection_handler::queue_call(unsigned& ticket)
+{
+    ticket = m_pending.fetch_or(1);
+    const bool queued = 0 != (ticket & 1);
+    return !queued || notification_mode::single_updates == m_mode;
+}
+
+bool
+signal_p::connection_handler::start_call(unsigned ticket)
+{
+    auto pending = m_pending.load();
+    while ((ticket | 1) == (pending | 1)) {
+        if (m_pending.compare_exchange_weak(pending, pending & ~1U)) {
+            return true;
+        }
+    }
+    return false;
+}
+
+void
+signal_p::connection_handler::skip_calls()
+{
+    auto pending = m_pending.load();
+    while (!m_pending.compare_exchange_weak(pending, (pending | 1) + 1)) {
+    }
+}
+
 signal_p::signal_p(const group& g)
   : m_group(new group(g))
 {}
@@ -221,7 +249,7 @@ void
 signal_p::skip_all()
 {
     for (const auto& handler : handlers()) {
-        handler->disable();
+        handler->skip_calls();
     }
 }
 
-- 
2.43.0


From 529422a26a1b5013edbe8f760d9fbe5d54b1c78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:18 +0000
Subject: [PATCH 13/23] fix: connections may outlive their signal and are
 disconnected once

---
 include/xdispatch/signals.h | 28 +++++++++++++---
 src/signals.cpp             | 67 ++++++++++++++++++++++++-------------
 2 files changed, 68 insertions(+), 27 deletions(-)

diff --git a/include/xdispatch/signals.h b/include/xdispatch/signals.h
index a962498..d29c015 100644
--- a/include/xdispatch/signals.h
+++ b/include/xdispatch/signals.h
@@ -191,6 +191,15 @@ protected:
     class connection_handler;
     using connection_handler_ptr = std::shared_ptr<connection_handler>;
 
+    /// Private container class for the handlers connected to a signal
+    struct handler_list
+    {
+        // Protects parallel access
+        std::mutex m_CS;
+        // List of connected handlers
+        std::vector<connection_handler_ptr> m_entries;
+    };
+
 public:
     /// Creates a new signal_p queuing all handler invocations into group
     signal_p(const group& g);
@@ -273,14 +282,25 @@ protected:
         std::atomic<unsigned> m_pending;
         // the mode in which the handler will be called
         notification_mode m_mode;
+        // the handlers of the signal it was connected to, empty as
+        // soon as the signal is gone
+        std::weak_ptr<handler_list> m_list;
     };
 
-    // Protects parallel access
-    std::mutex m_CS;
     // The group used to track all handler calls
     std::unique_ptr<group> m_group;
-    // List of connected handlers
-    std::vector<connection_handler_ptr> m_handlers;
+
+private:
+    friend class connection;
+
+    /// Destroys the connection to handler no matter if its signal still exists
+    static bool disconnect(const connection_handler_ptr& handler);
+
+    /// Indicates if handler will be invoked when its signal gets emitted
+    static bool connected(const connection_handler_ptr& handler);
+
+    // The connected handlers
+    const std::shared_ptr<handler_list> m_handlers;
 };
 
 template<typename Signature>
diff --git a/src/signals.cpp b/src/signals.cpp
index 4150c08..497e170 100644
--- a/src/signals.cpp
+++ b/src/signals.cpp
@@ -126,19 +126,19 @@ connection::connection()
 bool
 connection::disconnect()
 {
-    bool disconnected = false;
-    if (m_parent) {
-        disconnected = m_parent->disconnect(*this);
-    }
+    const auto handler =
+      std::static_pointer_cast<signal_p::connection_handler>(m_id.lock());
     m_id.reset();
     m_parent = nullptr;
-    return disconnected;
+    return handler && signal_p::disconnect(handler);
 }
 
 bool
 connection::connected() const
 {
-    return !m_id.expired();
+    const auto handler =
+      std::static_pointer_cast<signal_p::connection_handler>(m_id.lock());
+    return handler && signal_p::connected(handler);
 }
 
 bool
@@ -206,18 +206,20 @@ signal_p::connection_handler::skip_calls()
 
 signal_p::signal_p(const group& g)
   : m_group(new group(g))
+  , m_handlers(std::make_shared<handler_list>())
 {}
 
 signal_p::signal_p()
   : m_group()
+  , m_handlers(std::make_shared<handler_list>())
 {}
 
 signal_p::~signal_p()
 {
     std::vector<connection_handler_ptr> removed;
     {
-        std::lock_guard<std::mutex> lock(m_CS);
-        removed.swap(m_handlers);
+        std::lock_guard<std::mutex> lock(m_handlers->m_CS);
+        removed.swap(m_handlers->m_entries);
     }
 
     // waits for active handlers which may be using the signal
@@ -229,18 +231,36 @@ signal_p::~signal_p()
 bool
 signal_p::disconnect(connection& c)
 {
-    const auto c_void = c.m_id.lock();
-    const auto c_handler = std::static_pointer_cast<connection_handler>(c_void);
-    if (c_handler) {
-        std::lock_guard<std::mutex> lock(m_CS);
-        const auto last =
-          std::remove(m_handlers.begin(), m_handlers.end(), c_handler);
-        m_handlers.erase(last, m_handlers.end());
+    return c.disconnect();
+}
+
+bool
+signal_p::disconnect(const connection_handler_ptr& handler)
+{
+    // when returning no call is active, this includes the case of
+    // the handler being disconnected twice in parallel
+    handler->disable();
+
+    bool connected = false;
+    const auto list = handler->m_list.lock();
+    if (list) {
+        std::lock_guard<std::mutex> lock(list->m_CS);
+        const auto last = std::remove(
+          list->m_entries.begin(), list->m_entries.end(), handler);
+        connected = last != list->m_entries.end();
+        list->m_entries.erase(last, list->m_entries.end());
     }
-    c.m_id.reset();
-    if (c_handler) {
-        c_handler->disable();
-        return true;
+    return connected;
+}
+
+bool
+signal_p::connected(const connection_handler_ptr& handler)
+{
+    const auto list = handler->m_list.lock();
+    if (list) {
+        std::lock_guard<std::mutex> lock(list->m_CS);
+        const auto end = list->m_entries.end();
+        return end != std::find(list->m_entries.begin(), end, handler);
     }
     return false;
 }
@@ -257,8 +277,9 @@ connection
 signal_p::connect(const connection_handler_ptr& job)
 {
     {
-        std::lock_guard<std::mutex> lock(m_CS);
-        m_handlers.push_back(job);
+        std::lock_guard<std::mutex> lock(m_handlers->m_CS);
+        job->m_list = m_handlers;
+        m_handlers->m_entries.push_back(job);
     }
     return connection(job, this);
 }
@@ -266,8 +287,8 @@ signal_p::connect(const connection_handler_ptr& job)
 std::vector<signal_p::connection_handler_ptr>
 signal_p::handlers()
 {
-    std::lock_guard<std::mutex> lock(m_CS);
-    return m_handlers;
+    std::lock_guard<std::mutex> lock(m_handlers->m_CS);
+    return m_handlers->m_entries;
 }
 
 __XDISPATCH_END_NAMESPACE
-- 
2.43.0


From 8c1fcd98908f8f184765b485967ed65c3ddb0d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:20 +0000
Subject: [PATCH 14/23] fix: connection_manager does not hold its lock while
 disconnecting

---
 src/signals.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/signals.cpp b/src/signals.cpp
index 497e170..11b8160 100644
--- a/src/signals.cpp
+++ b/src/signals.cpp
@@ -20,6 +20,7 @@
  */
 
 #include <algorithm>
+#include <iterator>
 
 #include "xdispatch_internal.h"
 #include "xdispatch/signals.h"
@@ -34,19 +35,25 @@ connection_manager::~connection_manager()
 void
 connection_manager::reset_connections()
 {
+    // disconnecting waits for active handlers which might be using the manager
+    std::vector<scoped_connection> removed;
     std::lock_guard<std::mutex> lock(m_CS);
-    m_connections.clear();
+    removed.swap(m_connections);
 }
 
 void
 connection_manager::reset_connections_with(const signal_p& s)
 {
+    // disconnecting waits for active handlers which might be using the manager
+    std::vector<scoped_connection> removed;
     std::lock_guard<std::mutex> lock(m_CS);
-    const auto last = std::remove_if(
+    const auto first = std::partition(
       m_connections.begin(),
       m_connections.end(),
-      [&s](const scoped_connection& sc) { return sc.is_connected_to(s); });
-    m_connections.erase(last, m_connections.end());
+      [&s](const scoped_connection& sc) { return !sc.is_connected_to(s); });
+    removed.assign(std::make_move_iterator(first),
+                   std::make_move_iterator(m_connections.end()));
+    m_connections.erase(first, m_connections.end());
 }
 
 connection_manager&
-- 
2.43.0


From 55c93d6dc40a1cc3284a910abbc6b85d83fca91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:23 +0000
Subject: [PATCH 15/23] fix: signal_barrier copes with raises during
 construction and in parallel

---
 include/xdispatch/signals_barrier.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/xdispatch/signals_barrier.h b/include/xdispatch/signals_barrier.h
index 474b546..0cf05d7 100644
--- a/include/xdispatch/signals_barrier.h
+++ b/include/xdispatch/signals_barrier.h
@@ -27,6 +27,9 @@
  * @{
  */
 
+#include <atomic>
+#include <memory>
+#include <stdexcept>
 #include <tuple>
 
 #include "xdispatch/signals.h"
@@ -93,10 +96,15 @@ public:
     explicit signal_barrier(signal<void(Args...)>& signal)
       : m_signal(signal)
       , m_barrier()
+      , m_raised(false)
+      , m_values()
       , m_connection(signal.connect([this](Args... values) {
-          m_values.set(values...);
-          m_connection.disconnect();
-          m_barrier.complete();
+          // may be invoked before m_connection has been initialized
+          // and for several raises in parallel
+          if (!m_raised.exchange(true)) {
+              m_values.set(values...);
+              m_barrier.complete();
+          }
       }))
     {}
 
@@ -154,8 +162,10 @@ public:
 private:
     signal<void(Args...)>& m_signal;
     lightweight_barrier m_barrier;
-    scoped_connection m_connection;
+    std::atomic<bool> m_raised;
     value_holder<0> m_values;
+    // initialized last and destroyed first as the handler uses the others
+    scoped_connection m_connection;
 };
 
 __XDISPATCH_END_NAMESPACE
-- 
2.43.0


From 94654a8fb3862d53e78c7dd67d34331046154beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:31 +0000
Subject: [PATCH 16/23] fix: socket notifiers end when their socket got closed

---
 src/naive/naive_socket_notifier.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/naive/naive_socket_notifier.cpp b/src/naive/naive_socket_notifier.cpp
index 5b88d10..a7ebd18 100644
--- a/src/naive/naive_socket_notifier.cpp
+++ b/src/naive/naive_socket_notifier.cpp
@@ -107,6 +107,7 @@ public:
                 const auto type = this_ptr->m_type;
 
                 int res = -1;
+                int error = 0;
                 {
                     inverse_lock_guard<std::mutex> unlock(this_ptr->m_CS);
 
@@ -125,6 +126,7 @@ public:
                     } else {
                         res = select(nfds, nullptr, &fds, nullptr, &timeout);
                     }
+                    error = errno;
                 }
 
                 if (cookie != this_ptr->m_worker_cookie) {
@@ -140,7 +142,7 @@ public:
                     break;
                 }
 #elif (defined XDISPATCH2_HAVE_SOCKETPAIR)
-                if (EBADF == res) {
+                if (res < 0 && EBADF == error) {
                     // socket was closed somewhere else
                     XDISPATCH_WARNING()
                       << "socket_notifier: Socket " << socket << " is invalid";
@@ -176,7 +178,7 @@ public:
                     barrier.wait();
                 } else {
                     XDISPATCH_WARNING() << "socket_notifier: select(" << socket
-                                        << ") failed: " << strerror(errno);
+                                        << ") failed: " << strerror(error);
                 }
             }
         });
-- 
2.43.0


From 6d21b16af676af97ffc2632eaf5047e19e7953ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:54 +0000
Subject: [PATCH 17/23] fix: a socket notifier resumed again does not overlap
 its previous call

---
 src/naive/naive_socket_notifier.cpp | 33 ++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/naive/naive_socket_notifier.cpp b/src/naive/naive_socket_notifier.cpp
index a7ebd18..62e5e80 100644
--- a/src/naive/naive_socket_notifier.cpp
+++ b/src/naive/naive_socket_notifier.cpp
@@ -87,10 +87,6 @@ public:
             return;
         }
 
-        // FIXME(zwicker): This needs to check if the previous
-        //                 suspend has actually been processed or elsewise
-        //                 we might end up with two handlers running
-
         const auto this_ptr = shared_from_this();
         const auto cookie = m_worker_cookie;
 
@@ -103,6 +99,14 @@ public:
 
             std::unique_lock<std::mutex> lock(this_ptr->m_CS);
             while (cookie == this_ptr->m_worker_cookie) {
+                const auto pending = this_ptr->m_call;
+                if (pending) {
+                    // a call made before the notifier was resumed again
+                    inverse_lock_guard<std::mutex> unlock(this_ptr->m_CS);
+                    pending->wait();
+                    continue;
+                }
+
                 const auto socket = this_ptr->m_socket;
                 const auto type = this_ptr->m_type;
 
@@ -157,25 +161,29 @@ public:
 
                     const auto handler = this_ptr->m_handler;
                     const auto queue = this_ptr->m_queue;
-                    auto& handler_cancelable = this_ptr->m_handler_cancelable;
 
-                    // no member access beyond this!
+                    const auto call = std::make_shared<lightweight_barrier>();
+                    this_ptr->m_call = call;
+
                     inverse_lock_guard<std::mutex> unlock(this_ptr->m_CS);
 
-                    lightweight_barrier barrier;
                     queue->async(make_operation(
-                      [handler, socket, type, &barrier, &handler_cancelable] {
+                      [handler, socket, type, call, this_ptr] {
                           {
-                              cancelable_scope scope(handler_cancelable);
+                              cancelable_scope scope(
+                                this_ptr->m_handler_cancelable);
                               if (scope) {
                                   execute_operation_on_this_thread(
                                     *handler, socket, type);
                               }
                           }
-                          // the notifier may be gone once this is completed
-                          barrier.complete();
+                          {
+                              std::lock_guard<std::mutex> done(this_ptr->m_CS);
+                              this_ptr->m_call.reset();
+                          }
+                          call->complete();
                       }));
-                    barrier.wait();
+                    call->wait();
                 } else {
                     XDISPATCH_WARNING() << "socket_notifier: select(" << socket
                                         << ") failed: " << strerror(error);
@@ -227,6 +235,7 @@ private:
     socket_notifier_operation_ptr m_handler;
     int m_resume_counter;
     int m_worker_cookie;
+    std::shared_ptr<lightweight_barrier> m_call;
     cancelable m_handler_cancelable;
 };
 
-- 
2.43.0


From f15fcab3e1d1b5c2fbacbc0fe334052d3918f880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:47 +0000
Subject: [PATCH 18/23] fix: socket notifiers support descriptors beyond
 FD_SETSIZE

---
 src/naive/naive_socket_notifier.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/naive/naive_socket_notifier.cpp b/src/naive/naive_socket_notifier.cpp
index 62e5e80..533ac23 100644
--- a/src/naive/naive_socket_notifier.cpp
+++ b/src/naive/naive_socket_notifier.cpp
@@ -30,7 +30,7 @@
 #if (defined XDISPATCH2_HAVE_WINSOCK2)
     #include <winsock2.h>
 #elif (defined XDISPATCH2_HAVE_SOCKETPAIR)
-    #include <sys/select.h>
+    #include <poll.h>
 #else
     #error "naive_socket_notifier is not supported on this platform"
 #endif
@@ -115,8 +115,20 @@ public:
                 {
                     inverse_lock_guard<std::mutex> unlock(this_ptr->m_CS);
 
-                    struct timeval timeout;
                     constexpr auto k5sec = 5;
+#if (defined XDISPATCH2_HAVE_SOCKETPAIR)
+                    // not limited to FD_SETSIZE descriptors
+                    struct pollfd pfd = {};
+                    pfd.fd = static_cast<int>(socket);
+                    pfd.events =
+                      (notifier_type::READ == type) ? POLLIN : POLLOUT;
+                    res = poll(&pfd, 1, k5sec * 1000);
+                    if (res > 0 && 0 != (pfd.revents & POLLNVAL)) {
+                        res = -1;
+                        errno = EBADF;
+                    }
+#else
+                    struct timeval timeout;
                     timeout.tv_sec = k5sec;
                     timeout.tv_usec = 0;
 
@@ -130,6 +142,7 @@ public:
                     } else {
                         res = select(nfds, nullptr, &fds, nullptr, &timeout);
                     }
+#endif
                     error = errno;
                 }
 
@@ -156,7 +169,7 @@ public:
                 if (res == 0) {
                     // timeout, try again
                 } else if (res > 0) {
-                    XDISPATCH_TRACE() << "socket_notifier: select(" << socket
+                    XDISPATCH_TRACE() << "socket_notifier: poll(" << socket
                                       << ") returned " << res;
 
                     const auto handler = this_ptr->m_handler;
@@ -185,7 +198,7 @@ public:
                       }));
                     call->wait();
                 } else {
-                    XDISPATCH_WARNING() << "socket_notifier: select(" << socket
+                    XDISPATCH_WARNING() << "socket_notifier: poll(" << socket
                                         << ") failed: " << strerror(error);
                 }
             }
-- 
2.43.0


From 4c99a1b41eb8d1154658e2ca16613161bfae8d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:36 +0000
Subject: [PATCH 19/23] fix: waitable_queue::apply does not wait when there is
 nothing to apply

---
 src/waitable_queue.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/waitable_queue.cpp b/src/waitable_queue.cpp
index 9369ac8..2da4b05 100644
--- a/src/waitable_queue.cpp
+++ b/src/waitable_queue.cpp
@@ -150,6 +150,9 @@ public:
 
     void apply(size_t times, const iteration_operation_ptr& op) override
     {
+        if (0 == times) {
+            return;
+        }
         for (size_t i = 0; i < times; ++i) {
             async(std::make_shared<naive::apply_operation>(i, op));
         }
-- 
2.43.0


From 695aff237be04fea24a17a3970f635fc23c1aaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 20/23] fix: throw logic_error instead of terminating when
 backends are mixed

---
 src/trace_utils.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/trace_utils.cpp b/src/trace_utils.cpp
index e4db999..bcddc36 100644
--- a/src/trace_utils.cpp
+++ b/src/trace_utils.cpp
@@ -57,7 +57,6 @@ trace_utils::assert_same_backend(backend_type a, backend_type b)
                            std::to_string(static_cast<int>(a)) + " and " +
                            std::to_string(static_cast<int>(b));
         std::cerr << XDISPATCH_TRACE_PREFIX << error << std::endl;
-        XDISPATCH_ASSERT(false && "Cannot mix two different backends");
         throw std::logic_error(error);
     }
 }
-- 
2.43.0


From d5091fd1ad0c7e04e0abbac4b39d92834086ca46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:23 +0000
Subject: [PATCH 21/23] fix: do not occupy another thread of a QThreadPool
 while an operation waits

---
 src/qt5/qt5_threadpool.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qt5/qt5_threadpool.cpp b/src/qt5/qt5_threadpool.cpp
index c6dbbda..387567f 100644
--- a/src/qt5/qt5_threadpool.cpp
+++ b/src/qt5/qt5_threadpool.cpp
@@ -89,13 +89,14 @@ ThreadPoolProxy::execute(const operation_ptr& work,
 void
 ThreadPoolProxy::notify_thread_blocked()
 {
-    m_pool->reserveThread();
+    // a blocked thread allows for another one to be active
+    m_pool->releaseThread();
 }
 
 void
 ThreadPoolProxy::notify_thread_unblocked()
 {
-    m_pool->releaseThread();
+    m_pool->reserveThread();
 }
 
 } // namespace qt5
-- 
2.43.0


From 68d8def22342890d35242cab7adf2fdd29431542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:01 +0000
Subject: [PATCH 22/23] fix: end the connections of a QObject which lives on
 another thread with it

---
 src/qt5/qt5_signals.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qt5/qt5_signals.h b/src/qt5/qt5_signals.h
index fab9213..d05fa69 100644
--- a/src/qt5/qt5_signals.h
+++ b/src/qt5/qt5_signals.h
@@ -64,6 +64,8 @@ public:
           QString(), Qt::FindDirectChildrenOnly);
         if (createIfMissing && nullptr == oc) {
             oc = new ObjectConnectionManager;
+            // only objects of the same thread can become children
+            oc->moveToThread(object->thread());
             oc->setParent(object);
         }
         return oc;
-- 
2.43.0


From eace036e9d7f1443583cd7ea4497ee5f1f169738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:44 +0000
Subject: [PATCH 23/23] fix: the last queue over a QThreadPool may be dropped
 by one of its operations

Waiting for the pool from one of its own threads never returned.
---
 src/qt5/qt5_threadpool.cpp | 17 ++++++-----------
 src/qt5/qt5_threadpool.h   |  8 +++++---
 2 files changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/qt5/qt5_threadpool.cpp b/src/qt5/qt5_threadpool.cpp
index 387567f..4841abe 100644
--- a/src/qt5/qt5_threadpool.cpp
+++ b/src/qt5/qt5_threadpool.cpp
@@ -34,13 +34,6 @@ ThreadPoolProxy::ThreadPoolProxy(QThreadPool* pool)
     XDISPATCH_ASSERT(pool);
 }
 
-ThreadPoolProxy::~ThreadPoolProxy()
-{
-    if (m_pool) {
-        m_pool->waitForDone();
-    }
-}
-
 void
 ThreadPoolProxy::execute(const operation_ptr& work,
                          const queue_priority priority)
@@ -48,7 +41,8 @@ ThreadPoolProxy::execute(const operation_ptr& work,
     class OperationRunnable : public QRunnable
     {
     public:
-        OperationRunnable(const operation_ptr& op, naive::ithreadpool* pool)
+        OperationRunnable(const operation_ptr& op,
+                          const std::shared_ptr<naive::ithreadpool>& pool)
           : m_operation(op)
           , m_pool(pool)
         {
@@ -57,12 +51,13 @@ ThreadPoolProxy::execute(const operation_ptr& work,
 
         void run() final
         {
-            naive::ithreadpool::run_with_threadpool(*m_operation, m_pool);
+            naive::ithreadpool::run_with_threadpool(*m_operation, m_pool.get());
         }
 
     private:
         const operation_ptr m_operation;
-        naive::ithreadpool* const m_pool;
+        // the last queue may be dropped by an operation on the very same pool
+        const std::shared_ptr<naive::ithreadpool> m_pool;
     };
 
     int p = 0;
@@ -83,7 +78,7 @@ ThreadPoolProxy::execute(const operation_ptr& work,
     }
 
     XDISPATCH_ASSERT(m_pool);
-    m_pool->start(new OperationRunnable(work, this), p);
+    m_pool->start(new OperationRunnable(work, shared_from_this()), p);
 }
 
 void
diff --git a/src/qt5/qt5_threadpool.h b/src/qt5/qt5_threadpool.h
index e9f26fd..ca39c5a 100644
--- a/src/qt5/qt5_threadpool.h
+++ b/src/qt5/qt5_threadpool.h
@@ -22,6 +22,8 @@
 #ifndef XDISPATCH_QT5_THREADPOOL_H_
 #define XDISPATCH_QT5_THREADPOOL_H_
 
+#include <memory>
+
 #include <QtCore/QThreadPool>
 #include <QtCore/QPointer>
 
@@ -30,13 +32,13 @@
 __XDISPATCH_BEGIN_NAMESPACE
 namespace qt5 {
 
-class ThreadPoolProxy : public naive::ithreadpool
+class ThreadPoolProxy
+  : public naive::ithreadpool
+  , public std::enable_shared_from_this<ThreadPoolProxy>
 {
 public:
     ThreadPoolProxy(QThreadPool* pool);
 
-    ~ThreadPoolProxy() override;
-
     void execute(const operation_ptr& work, queue_priority priority) final;
     void notify_thread_blocked() final;
     void notify_thread_unblocked() final;
-- 
2.43.0

