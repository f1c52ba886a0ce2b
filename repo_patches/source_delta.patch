From fbc13072804c368d42089229bc802b08ee452b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:33:38 +0000
Subject: [PATCH 01/27] fix: make the timed recursive mutex usable

co_recursive_mutex was final, so co_recursive_timed_mutex, which derives
from it, could not be instantiated.
---
 include/cocpp/sync/co_recursive_mutex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cocpp/sync/co_recursive_mutex.h b/include/cocpp/sync/co_recursive_mutex.h
index 46e4c44..c4eaea3 100644
--- a/include/cocpp/sync/co_recursive_mutex.h
+++ b/include/cocpp/sync/co_recursive_mutex.h
@@ -10,7 +10,7 @@ CO_NAMESPACE_BEGIN
 
 class co_ctx;
 
-class co_recursive_mutex final : private co_noncopyable
+class co_recursive_mutex : private co_noncopyable
 {
 private:
     co_spinlock spinlock__;
-- 
2.43.0


From 01162e686d7fb5c8bb64be445eb3f72bce0c5a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:33:38 +0000
Subject: [PATCH 02/27] fix: wake exactly the shared waiters of a shared mutex

The last release treated the tail left behind by remove_if as the removed
elements. The tail has unspecified contents, so exclusive waiters could be
admitted as shared holders and shared waiters could be dropped. Partition
the queue instead, which keeps the removed waiters intact and in order.
---
 source/cocpp/sync/co_shared_mutex.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cocpp/sync/co_shared_mutex.cpp b/source/cocpp/sync/co_shared_mutex.cpp
index d10d05c..ac2894a 100644
--- a/source/cocpp/sync/co_shared_mutex.cpp
+++ b/source/cocpp/sync/co_shared_mutex.cpp
@@ -206,8 +206,8 @@ void co_shared_mutex::wake_up_waiters__()
         return;
     }
 
-    auto iter = remove_if(wait_deque__.begin(), wait_deque__.end(), [](auto &c) {
-        return c.type == lock_type::shared;
+    auto iter = stable_partition(wait_deque__.begin(), wait_deque__.end(), [](auto &c) {
+        return c.type != lock_type::shared;
     });
     lock_type__ = lock_type::shared;
     transform(iter, wait_deque__.end(), inserter(owners__, owners__.begin()), [this](auto &context) {
-- 
2.43.0


From 05b94b1680f5b2fd7d786a3972ddbb11bb00c8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:40:31 +0000
Subject: [PATCH 03/27] fix: do not block in a predicate wait whose predicate
 is already true

The predicate overload of wait() slept before it looked at the predicate for
the first time, so a notification sent before the call was lost. Also keep
preemption disabled only while the waiter is being registered, not while
other coroutines run.
---
 include/cocpp/sync/co_condition_variable.h | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/include/cocpp/sync/co_condition_variable.h b/include/cocpp/sync/co_condition_variable.h
index a73e38c..7340e62 100644
--- a/include/cocpp/sync/co_condition_variable.h
+++ b/include/cocpp/sync/co_condition_variable.h
@@ -53,9 +53,9 @@ public:
 template <typename Lock>
 void co_condition_variable_impl::wait(Lock &lock)
 {
-    CoPreemptGuard();
-    auto ctx = CoCurrentCtx();
     {
+        CoPreemptGuard();
+        auto ctx = CoCurrentCtx();
         std::scoped_lock lk(cv_lock__);
 
         waiters__.push_back(ctx);
@@ -69,22 +69,10 @@ void co_condition_variable_impl::wait(Lock &lock)
 template <typename Lock, typename Predicate>
 void co_condition_variable_impl::wait(Lock &lock, Predicate pred)
 {
-    CoPreemptGuard();
-    auto ctx = CoCurrentCtx();
-
-    do
+    while (!pred())
     {
-        {
-            std::scoped_lock lk(cv_lock__);
-            waiters__.push_back(ctx);
-            lock.unlock();
-            ctx->enter_wait_resource_state(this);
-        }
-
-        CoYield();
-
-        lock.lock();
-    } while (!pred());
+        wait(lock);
+    }
 }
 
 template <typename Lock, typename Clock, typename Duration>
-- 
2.43.0


From 8ce698f41c09fa7ab69f3c10f8e4ab57f1ca5f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:40:31 +0000
Subject: [PATCH 04/27] fix: keep the outcome of a timed condition wait to the
 wait itself

The timeout flag belonged to the condition variable and was never cleared,
so after the first timeout every later timed wait reported one. The timer
could also expire before the waiter was registered, which lost the timeout,
or run after the wait had returned and touch a destroyed condition variable.
Each timed wait now has its own state and starts its timer after it has
been registered. The predicate overload returns the predicate's value.
---
 include/cocpp/sync/co_condition_variable.h | 86 ++++++++++++----------
 1 file changed, 47 insertions(+), 39 deletions(-)

diff --git a/include/cocpp/sync/co_condition_variable.h b/include/cocpp/sync/co_condition_variable.h
index 7340e62..440b53c 100644
--- a/include/cocpp/sync/co_condition_variable.h
+++ b/include/cocpp/sync/co_condition_variable.h
@@ -9,8 +9,10 @@ _Pragma("once");
 #include "cocpp/sync/co_mutex.h"
 #include "cocpp/utils/co_noncopyable.h"
 
+#include <algorithm>
 #include <chrono>
 #include <list>
+#include <memory>
 #include <mutex>
 
 CO_NAMESPACE_BEGIN
@@ -28,7 +30,13 @@ class co_condition_variable_impl final : private co_noncopyable
 private:
     mutable co_spinlock cv_lock__;
     std::list<co_ctx *> waiters__;
-    bool timeout__ {false};
+
+    struct timed_wait_state
+    {
+        co_spinlock mu;
+        bool timeout {false};
+        bool over {false};
+    };
 
 public:
     template <typename Lock>
@@ -78,30 +86,50 @@ void co_condition_variable_impl::wait(Lock &lock, Predicate pred)
 template <typename Lock, typename Clock, typename Duration>
 bool co_condition_variable_impl::wait_until(Lock &lock, const std::chrono::time_point<Clock, Duration> &abs_time)
 {
-    CoScheduleGuard();
     auto ctx = CoCurrentCtx();
+    auto state = std::make_shared<timed_wait_state>();
 
-    auto timer = co_timer::create([this, ctx] {
+    auto timer = co_timer::create([this, ctx, state] {
+        CoPreemptGuard();
+        std::scoped_lock state_lk(state->mu);
+        if (state->over)
+        {
+            return; // the wait has returned, this condition variable may be gone
+        }
         std::scoped_lock lk(cv_lock__);
-        waiters__.remove(ctx);
-        timeout__ = true;
+        auto iter = std::find(waiters__.begin(), waiters__.end(), ctx);
+        if (iter == waiters__.end())
+        {
+            return; // notified before the deadline
+        }
+        waiters__.erase(iter);
+        state->timeout = true;
         ctx->leave_wait_resource_state(this);
     },
                                   abs_time);
-    timer->start();
     {
-        std::scoped_lock lk(cv_lock__);
+        CoPreemptGuard();
+        {
+            std::scoped_lock lk(cv_lock__);
 
-        waiters__.push_back(ctx);
-        lock.unlock();
-        ctx->enter_wait_resource_state(this);
+            waiters__.push_back(ctx);
+            lock.unlock();
+            ctx->enter_wait_resource_state(this);
+        }
+        // start the timer after the registration, otherwise it could expire too early
+        timer->start();
     }
-    CoUnlockSchedule();
     CoYield();
-    CoLockSchedule();
-    lock.lock();
+    bool timeout = false;
+    {
+        CoPreemptGuard();
+        std::scoped_lock state_lk(state->mu);
+        state->over = true;
+        timeout = state->timeout;
+    }
     timer->stop();
-    return !timeout__;
+    lock.lock();
+    return !timeout;
 }
 
 template <typename Lock, typename Clock, typename Duration>
@@ -114,34 +142,14 @@ template <typename Lock, typename Clock, typename Duration, typename Predicate>
 bool co_condition_variable_impl::wait_until(Lock &lock, const std::chrono::time_point<Clock, Duration> &abs_time,
                                             Predicate pred)
 {
-    CoScheduleGuard();
-    auto ctx = CoCurrentCtx();
-    auto timer = co_timer::create([this, ctx] {
-        std::scoped_lock lk(cv_lock__);
-        waiters__.remove(ctx);
-        timeout__ = true;
-        ctx->leave_wait_resource_state(this);
-    },
-                                  abs_time);
-    timer->start();
-    do
+    while (!pred())
     {
+        if (!wait_until(lock, abs_time))
         {
-            std::scoped_lock lk(cv_lock__);
-
-            waiters__.push_back(ctx);
-            lock.unlock();
-            ctx->enter_wait_resource_state(this);
+            return pred();
         }
-        CoUnlockSchedule();
-        CoYield();
-        CoLockSchedule();
-        lock.lock();
-    } while (!timeout__ && !pred());
-
-    timer->stop();
-
-    return !timeout__ && pred();
+    }
+    return true;
 }
 
 template <typename Lock, typename Clock, typename Duration, typename Predicate>
-- 
2.43.0


From 59e4b06d166339b74f8491a4bca31ebc8efc6fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:42:21 +0000
Subject: [PATCH 05/27] fix: keep timers that expire at the same instant

The timer queue is a set ordered by expiry time only, so a second timer with
the same expiry time was dropped and stopping it removed the first one. Order
timers with equal expiry by their handle.
---
 source/cocpp/core/co_timer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/cocpp/core/co_timer.cpp b/source/cocpp/core/co_timer.cpp
index e58a31d..f1c7d1b 100644
--- a/source/cocpp/core/co_timer.cpp
+++ b/source/cocpp/core/co_timer.cpp
@@ -2,6 +2,7 @@
 #include "cocpp/core/co_manager.h"
 
 #include <sstream>
+#include <utility>
 
 using namespace std;
 
@@ -135,7 +136,8 @@ bool operator==(const shared_ptr<co_timer> &lhs, const shared_ptr<co_timer> &rhs
 
 bool operator<(const shared_ptr<co_timer> &lhs, const shared_ptr<co_timer> &rhs)
 {
-    return lhs->expire_time() < rhs->expire_time();
+    // timers that expire at the same time are different timers
+    return make_pair(lhs->expire_time(), lhs->get_handle()) < make_pair(rhs->expire_time(), rhs->get_handle());
 }
 
 function<void()> co_timer::set_expire_callback(const function<void()> &func)
-- 
2.43.0


From 7d25507cd97305cc187b4483db2f61f4142fd4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:43:01 +0000
Subject: [PATCH 06/27] fix: take the locks of timers and of the timer queue in
 one order

start() and stop() locked the timer before the queue while the timer service
locked the queue before the timer, and callbacks ran with their timer locked.
Both could deadlock, as could scheduling the callback with the queue locked
while an env was starting a timer. A callback that restarted its one-shot
timer could also have the restart undone, because the service stopped the
timer only after scheduling the callback. The service now also looks at the
queue again after it was woken instead of assuming that it is not empty.
---
 source/cocpp/core/co_manager.cpp | 19 ++++++++++---------
 source/cocpp/core/co_timer.cpp   | 15 ++++++++++++---
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/source/cocpp/core/co_manager.cpp b/source/cocpp/core/co_manager.cpp
index a128fe2..12e7a81 100644
--- a/source/cocpp/core/co_manager.cpp
+++ b/source/cocpp/core/co_manager.cpp
@@ -355,19 +355,12 @@ void co_manager::timer_routine__()
         if (timer_queue__.empty())
         {
             cv_timer_queue__.wait(lck);
-        }
-        if (clean_up__)
-        {
-            break;
+            continue;
         }
         auto front = *timer_queue__.begin();
         if (front->is_expired())
         {
-            create_and_schedule_ctx(
-                {}, [front](co_any &) {
-                    front->run();
-                },
-                false);
+            // before the callback can run, it may start the timer again
             if (front->expire_type() == co_expire_type::once)
             {
                 front->stop();
@@ -376,6 +369,14 @@ void co_manager::timer_routine__()
             {
                 front->reset();
             }
+            // scheduling takes locks of the envs, whose holders may be about to start a timer
+            lck.unlock();
+            create_and_schedule_ctx(
+                {}, [front](co_any &) {
+                    front->run();
+                },
+                false);
+            lck.lock();
         }
         else
         {
diff --git a/source/cocpp/core/co_timer.cpp b/source/cocpp/core/co_timer.cpp
index f1c7d1b..42dae7c 100644
--- a/source/cocpp/core/co_timer.cpp
+++ b/source/cocpp/core/co_timer.cpp
@@ -57,6 +57,8 @@ bool co_timer::is_running() const
 
 void co_timer::start()
 {
+    // always in this order, the timer service looks at timers with the queue locked
+    scoped_lock queue_lock(co_manager::instance()->mu_timer_queue__);
     scoped_lock lock(mutex__);
     if (status__ == co_timer_status::running)
     {
@@ -69,6 +71,7 @@ void co_timer::start()
 
 void co_timer::stop()
 {
+    scoped_lock queue_lock(co_manager::instance()->mu_timer_queue__);
     scoped_lock lock(mutex__);
     if (status__ == co_timer_status::stopped)
     {
@@ -81,6 +84,7 @@ void co_timer::stop()
 
 void co_timer::reset()
 {
+    scoped_lock queue_lock(co_manager::instance()->mu_timer_queue__);
     stop();
     start();
 }
@@ -122,10 +126,15 @@ bool co_timer::is_expired() const
 
 void co_timer::run() const
 {
-    scoped_lock lock(mutex__);
-    if (callback__)
+    function<void()> callback;
+    {
+        scoped_lock lock(mutex__);
+        callback = callback__;
+    }
+    // not under the lock, the callback may use this or other timers
+    if (callback)
     {
-        callback__();
+        callback();
     }
 }
 
-- 
2.43.0


From 4608489dd76c4672d176943b374c23f37d9f2bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:43:02 +0000
Subject: [PATCH 07/27] fix: count arrivals at a barrier when they happen

Only waiting counted towards a phase. A participant that arrived without
waiting, or left with arrive_and_drop(), blocked the others for ever, and
arrive_and_drop() did not reduce the number of participants of the following
phases. A phase is now completed by its last arrival. Its waiters may still
present their token after that, older tokens are rejected as before.
---
 include/cocpp/sync/co_barrier.h  |  9 ++++---
 source/cocpp/sync/co_barrier.cpp | 46 ++++++++++++++++++--------------
 2 files changed, 31 insertions(+), 24 deletions(-)

diff --git a/include/cocpp/sync/co_barrier.h b/include/cocpp/sync/co_barrier.h
index ac20e09..b71e71a 100644
--- a/include/cocpp/sync/co_barrier.h
+++ b/include/cocpp/sync/co_barrier.h
@@ -19,13 +19,14 @@ struct co_arrival_token
 class co_barrier final : private co_noncopyable
 {
 private:
-    std::atomic<std::ptrdiff_t> expected__;
-    std::atomic<std::ptrdiff_t> generation__;
-    std::atomic<std::ptrdiff_t> count__;
-    const std::ptrdiff_t max__;
+    std::ptrdiff_t expected__;
+    std::ptrdiff_t generation__ {0};
+    std::ptrdiff_t max__;
     co_mutex mutex__;
     co_condition_variable cond__;
 
+    co_arrival_token arrive__(std::ptrdiff_t n);
+
 public:
     explicit co_barrier(std::ptrdiff_t expected);
     co_arrival_token arrive(std::ptrdiff_t n = 1);
diff --git a/source/cocpp/sync/co_barrier.cpp b/source/cocpp/sync/co_barrier.cpp
index f3815cc..ce31086 100644
--- a/source/cocpp/sync/co_barrier.cpp
+++ b/source/cocpp/sync/co_barrier.cpp
@@ -6,45 +6,45 @@ CO_NAMESPACE_BEGIN
 
 co_barrier::co_barrier(ptrdiff_t expected)
     : expected__(expected)
-    , count__(expected)
     , max__(expected)
 {
 }
 
-co_arrival_token co_barrier::arrive(ptrdiff_t n)
+co_arrival_token co_barrier::arrive__(ptrdiff_t n)
 {
-    scoped_lock lock(mutex__);
     if (expected__ - n < 0)
     {
         throw logic_error("co_barrier::arrive: count < 0");
     }
-    expected__ -= n;
-    return co_arrival_token {
+    co_arrival_token token {
         .generation__ = generation__,
         .barrier__ = this,
         .n__ = n};
+    expected__ -= n;
+    if (expected__ == 0)
+    {
+        generation__++;
+        expected__ = max__;
+        cond__.notify_all();
+    }
+    return token;
+}
+
+co_arrival_token co_barrier::arrive(ptrdiff_t n)
+{
+    scoped_lock lock(mutex__);
+    return arrive__(n);
 }
 
 void co_barrier::wait(co_arrival_token &&arrival)
 {
     unique_lock lock(mutex__);
-    if (arrival.generation__ != generation__ || arrival.barrier__ != this)
+    // a token is good for the current phase and for the one just completed
+    if (arrival.barrier__ != this || arrival.generation__ > generation__ || arrival.generation__ < generation__ - 1)
     {
         throw logic_error("co_barrier::wait: invalid token");
     }
-    if (count__ - arrival.n__ < 0)
-    {
-        throw logic_error("co_barrier::wait: count < 0");
-    }
-    count__ -= arrival.n__;
-    if (count__ == 0)
-    {
-        generation__++;
-        count__ = max__;
-        expected__ = max__;
-        cond__.notify_all();
-    }
-    else
+    while (arrival.generation__ == generation__)
     {
         cond__.wait(lock);
     }
@@ -57,7 +57,13 @@ void co_barrier::arrive_and_wait()
 
 void co_barrier::arrive_and_drop()
 {
-    arrive();
+    scoped_lock lock(mutex__);
+    if (expected__ < 1)
+    {
+        throw logic_error("co_barrier::arrive_and_drop: count < 0");
+    }
+    --max__;
+    arrive__(1);
 }
 
 CO_NAMESPACE_END
\ No newline at end of file
-- 
2.43.0


From 53d2bbf95620d00b211914dd70d1203fda66174c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:43:02 +0000
Subject: [PATCH 08/27] fix: let call_once return only after the function has
 finished

The flag was set before the function ran, so other callers returned while it
was still running, and an exception left the flag set although the function
never completed. The function also ran with preemption disabled.
---
 include/cocpp/sync/co_call_once.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/cocpp/sync/co_call_once.h b/include/cocpp/sync/co_call_once.h
index 92101d1..2f5d4ef 100644
--- a/include/cocpp/sync/co_call_once.h
+++ b/include/cocpp/sync/co_call_once.h
@@ -2,9 +2,11 @@ _Pragma("once");
 #include "cocpp/core/co_define.h"
 #include "cocpp/core/co_env.h"
 #include "cocpp/core/co_manager.h"
+#include "cocpp/sync/co_mutex.h"
 #include "cocpp/utils/co_noncopyable.h"
 #include <atomic>
 #include <functional>
+#include <mutex>
 
 CO_NAMESPACE_BEGIN
 
@@ -12,17 +14,24 @@ class co_once_flag : private co_noncopyable
 {
 public:
     std::atomic<bool> flag__ {false};
+    co_mutex mutex__;
 };
 
 template <class Callable, class... Args>
 void co_call_once(co_once_flag &flag, Callable &&f, Args &&...args)
 {
-    CoPreemptGuard();
-    bool key = false;
-    if (flag.flag__.compare_exchange_strong(key, true))
+    if (flag.flag__)
     {
-        std::invoke(std::forward<Callable>(f), std::forward<Args>(args)...);
+        return;
     }
+    // callers that come second wait here for the first one
+    std::scoped_lock lock(flag.mutex__);
+    if (flag.flag__)
+    {
+        return;
+    }
+    std::invoke(std::forward<Callable>(f), std::forward<Args>(args)...);
+    flag.flag__ = true;
 }
 
 CO_NAMESPACE_END
\ No newline at end of file
-- 
2.43.0


From 95b5fbe5112c875af2621d08ebe01c6f819ee5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:45:46 +0000
Subject: [PATCH 09/27] fix: give every sender on an unbuffered channel its
 turn

A second sender on an unbuffered channel waited for the channel to be closed
instead of for its turn, and a sender whose value had been taken could miss
the wake-up or wait for the next sender's value as well. Senders now wait
for room like those of a bounded channel, and then for their own value.
---
 include/cocpp/event/co_chan.h | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/include/cocpp/event/co_chan.h b/include/cocpp/event/co_chan.h
index ba6d781..49cd24a 100644
--- a/include/cocpp/event/co_chan.h
+++ b/include/cocpp/event/co_chan.h
@@ -23,6 +23,8 @@ private:
         mutable std::shared_ptr<co_mutex> mu__ {std::make_shared<co_mutex>()};
         std::shared_ptr<co_condition_variable> cv_full__ = {std::make_shared<co_condition_variable>()};
         std::shared_ptr<co_condition_variable> cv_empty__ = {std::make_shared<co_condition_variable>()};
+        std::shared_ptr<co_condition_variable> cv_taken__ = {std::make_shared<co_condition_variable>()};
+        size_t taken_count__ {0};
 
     public:
         std::optional<ValueType> pop();
@@ -206,24 +208,22 @@ bool co_chan<ValueType>::sync_chan::push(ValueType value)
     {
         return false;
     }
-    auto max_size = 1;
 
-    if (chan_base::data__->size() == static_cast<size_t>(max_size))
+    // wait for the turn: at most one value is in flight
+    chan_base::cv_full__->wait(lock, [this] {
+        return *chan_base::closed__ || chan_base::data__->empty();
+    });
+    if (*chan_base::closed__)
     {
-        chan_base::cv_full__->wait(lock, [this] {
-            return *chan_base::closed__;
-        });
-        if (*chan_base::closed__)
-        {
-            return false;
-        }
+        return false;
     }
 
+    auto taken_count = chan_base::taken_count__;
     chan_base::data__->push_back(value);
     chan_base::cv_empty__->notify_one();
 
-    chan_base::cv_full__->wait(lock, [this] {
-        return *chan_base::closed__ || chan_base::data__->empty();
+    chan_base::cv_taken__->wait(lock, [this, taken_count] {
+        return *chan_base::closed__ || chan_base::taken_count__ != taken_count;
     });
 
     return true;
@@ -258,7 +258,9 @@ std::optional<ValueType> co_chan<ValueType>::chan_base::pop()
 
     ret = data__->front();
     data__->pop_front();
+    ++taken_count__;
     cv_full__->notify_one();
+    cv_taken__->notify_all();
     return ret;
 }
 
@@ -275,6 +277,7 @@ void co_chan<ValueType>::chan_base::close()
     *closed__ = true;
     cv_full__->notify_all();
     cv_empty__->notify_all();
+    cv_taken__->notify_all();
 }
 
 template <std::copyable ValueType>
-- 
2.43.0


From 40856b71f4c1df9bb90576d7bb7f506186ae8759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:37:48 +0000
Subject: [PATCH 10/27] fix: pass the caller's argument on to fcntl and ioctl

---
 source/cocpp/io/co_io.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cocpp/io/co_io.cpp b/source/cocpp/io/co_io.cpp
index a1b38f6..7e63fd0 100644
--- a/source/cocpp/io/co_io.cpp
+++ b/source/cocpp/io/co_io.cpp
@@ -109,7 +109,7 @@ int co_io::fcntl(int cmd, ...)
 {
     va_list args;
     va_start(args, cmd);
-    int ret = ::fcntl(fd__, cmd, args);
+    int ret = ::fcntl(fd__, cmd, va_arg(args, void *));
     va_end(args);
 
     return ret;
@@ -119,7 +119,7 @@ int co_io::ioctl(int cmd, ...)
 {
     va_list args;
     va_start(args, cmd);
-    int ret = ::ioctl(fd__, cmd, args);
+    int ret = ::ioctl(fd__, cmd, va_arg(args, void *));
     va_end(args);
     return ret;
 }
-- 
2.43.0


From 9ac9ab30bc67a506537a809fdbae99f5b5567fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:37:48 +0000
Subject: [PATCH 11/27] fix: report from connect whether the connection was
 established

---
 source/cocpp/io/co_net.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/source/cocpp/io/co_net.cpp b/source/cocpp/io/co_net.cpp
index 6657e4f..5ae0346 100644
--- a/source/cocpp/io/co_net.cpp
+++ b/source/cocpp/io/co_net.cpp
@@ -59,7 +59,7 @@ int co_net::connect(const struct sockaddr *addr, socklen_t addrlen)
 {
     int ret = ::connect(fd__, addr, addrlen);
 
-    if (ret > 0)
+    if (ret == 0)
     {
         return ret;
     }
@@ -95,6 +95,20 @@ int co_net::connect(const struct sockaddr *addr, socklen_t addrlen)
         {
             if (FD_ISSET(fd__, &write_fds))
             {
+                // writable means finished, successfully or not
+                int err = 0;
+                socklen_t len = sizeof(err);
+                if (::getsockopt(fd__, SOL_SOCKET, SO_ERROR, &err, &len) == -1)
+                {
+                    CO_O_ERROR("getsockopt error: %s", strerror(errno));
+                    return -1;
+                }
+                if (err != 0)
+                {
+                    CO_O_ERROR("connect error: %s", strerror(err));
+                    errno = err;
+                    return -1;
+                }
                 return 0;
             }
         }
-- 
2.43.0


From c94ef9c6597d98c21d480a1c9a4f2eb4a5cd7b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:37:48 +0000
Subject: [PATCH 12/27] fix: retry sendto while the socket is not ready

---
 source/cocpp/io/co_net.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/source/cocpp/io/co_net.cpp b/source/cocpp/io/co_net.cpp
index 5ae0346..2f33761 100644
--- a/source/cocpp/io/co_net.cpp
+++ b/source/cocpp/io/co_net.cpp
@@ -137,7 +137,22 @@ int co_net::send(const void *buf, size_t len, int flags)
 
 int co_net::sendto(const void *buf, size_t len, int flags, const struct sockaddr *dest_addr, socklen_t addrlen)
 {
-    return ::sendto(fd__, buf, len, flags, dest_addr, addrlen);
+    for (;;)
+    {
+        int ret = ::sendto(fd__, buf, len, flags, dest_addr, addrlen);
+
+        if (ret == -1)
+        {
+            if (errno == EINTR || errno == EAGAIN || errno == EWOULDBLOCK)
+            {
+                CoYield();
+                continue;
+            }
+            CO_O_ERROR("sendto error: %s", strerror(errno));
+            return -1;
+        }
+        return ret;
+    }
 }
 
 int co_net::recv(void *buf, size_t len, int flags)
-- 
2.43.0


From f8196f766a59a5988b14099ec492ad213afbbba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:37:48 +0000
Subject: [PATCH 13/27] fix: end a whole-buffer read when the peer has closed
 the connection

---
 source/cocpp/io/co_client.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/cocpp/io/co_client.cpp b/source/cocpp/io/co_client.cpp
index be0a631..dc78d21 100644
--- a/source/cocpp/io/co_client.cpp
+++ b/source/cocpp/io/co_client.cpp
@@ -32,6 +32,10 @@ co_error co_client::read_n(co_buffer &buf)
         {
             return co_error(co_error_code::co_client_read_error, "read error", strerror(errno));
         }
+        if (ret == 0)
+        {
+            return co_error(co_error_code::co_client_read_error, "connection closed");
+        }
         remain -= ret;
     }
     return co_error();
-- 
2.43.0


From 324381746c3c8879ad6b2e639d88235e17038fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:39:09 +0000
Subject: [PATCH 14/27] fix: keep waiting for a connection when the wait is
 interrupted

---
 source/cocpp/io/co_net.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/cocpp/io/co_net.cpp b/source/cocpp/io/co_net.cpp
index 2f33761..b98c313 100644
--- a/source/cocpp/io/co_net.cpp
+++ b/source/cocpp/io/co_net.cpp
@@ -83,6 +83,11 @@ int co_net::connect(const struct sockaddr *addr, socklen_t addrlen)
 
         if (result < 0)
         {
+            if (errno == EINTR)
+            {
+                CoYield();
+                continue;
+            }
             CO_O_ERROR("select error: %s", strerror(errno));
             return -1;
         }
-- 
2.43.0


From 0b1ea9761092ecd17d7a4e0004ade4cdb126cad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:39:27 +0000
Subject: [PATCH 15/27] fix: return offsets beyond 2 GiB from lseek unchanged

---
 include/cocpp/io/co_io.h  | 2 +-
 source/cocpp/io/co_io.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cocpp/io/co_io.h b/include/cocpp/io/co_io.h
index 26c1359..1653fdf 100644
--- a/include/cocpp/io/co_io.h
+++ b/include/cocpp/io/co_io.h
@@ -20,7 +20,7 @@ public:
     virtual int close();
     virtual int read(void *buf, size_t count);
     virtual int write(const void *buf, size_t count);
-    virtual int lseek(off_t offset, int whence);
+    virtual off_t lseek(off_t offset, int whence);
     virtual int fchmod(mode_t mode);
     virtual int fchown(uid_t owner, gid_t group);
     virtual int fcntl(int cmd, ...);
diff --git a/source/cocpp/io/co_io.cpp b/source/cocpp/io/co_io.cpp
index 7e63fd0..e17f324 100644
--- a/source/cocpp/io/co_io.cpp
+++ b/source/cocpp/io/co_io.cpp
@@ -90,7 +90,7 @@ int co_io::write(const void *buf, size_t count)
     }
 }
 
-int co_io::lseek(off_t offset, int whence)
+off_t co_io::lseek(off_t offset, int whence)
 {
     return ::lseek(fd__, offset, whence);
 }
-- 
2.43.0


From 7f2a37c84af31f85978aa0030f8e360ab5b2c9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:39:58 +0000
Subject: [PATCH 16/27] fix: connect sockets whose descriptor is beyond the
 range of select

---
 source/cocpp/io/co_net.cpp | 45 +++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/source/cocpp/io/co_net.cpp b/source/cocpp/io/co_net.cpp
index b98c313..2a392eb 100644
--- a/source/cocpp/io/co_net.cpp
+++ b/source/cocpp/io/co_net.cpp
@@ -1,4 +1,5 @@
 #include <optional>
+#include <poll.h>
 #include <sys/socket.h>
 #include <string.h>
 #include "cocpp/io/co_net.h"
@@ -70,16 +71,13 @@ int co_net::connect(const struct sockaddr *addr, socklen_t addrlen)
         return -1;
     }
 
-    fd_set write_fds;
-    struct timeval timeout;
-    timeout.tv_sec = 0;
-    timeout.tv_usec = 10 * 1000;
+    // not select, which is limited to small descriptors
+    struct pollfd waiter = {};
+    waiter.fd = fd__;
+    waiter.events = POLLOUT;
     while (1)
     {
-        FD_ZERO(&write_fds);
-        FD_SET(fd__, &write_fds);
-
-        int result = select(fd__ + 1, NULL, &write_fds, NULL, &timeout);
+        int result = ::poll(&waiter, 1, 0);
 
         if (result < 0)
         {
@@ -88,7 +86,7 @@ int co_net::connect(const struct sockaddr *addr, socklen_t addrlen)
                 CoYield();
                 continue;
             }
-            CO_O_ERROR("select error: %s", strerror(errno));
+            CO_O_ERROR("poll error: %s", strerror(errno));
             return -1;
         }
         else if (result == 0)
@@ -98,24 +96,21 @@ int co_net::connect(const struct sockaddr *addr, socklen_t addrlen)
         }
         else
         {
-            if (FD_ISSET(fd__, &write_fds))
+            // writable means finished, successfully or not
+            int err = 0;
+            socklen_t len = sizeof(err);
+            if (::getsockopt(fd__, SOL_SOCKET, SO_ERROR, &err, &len) == -1)
+            {
+                CO_O_ERROR("getsockopt error: %s", strerror(errno));
+                return -1;
+            }
+            if (err != 0)
             {
-                // writable means finished, successfully or not
-                int err = 0;
-                socklen_t len = sizeof(err);
-                if (::getsockopt(fd__, SOL_SOCKET, SO_ERROR, &err, &len) == -1)
-                {
-                    CO_O_ERROR("getsockopt error: %s", strerror(errno));
-                    return -1;
-                }
-                if (err != 0)
-                {
-                    CO_O_ERROR("connect error: %s", strerror(err));
-                    errno = err;
-                    return -1;
-                }
-                return 0;
+                CO_O_ERROR("connect error: %s", strerror(err));
+                errno = err;
+                return -1;
             }
+            return 0;
         }
     }
 }
-- 
2.43.0


From cff64ea1357a2fdee34f2185558166422d4d9a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:04:58 +0000
Subject: [PATCH 17/27] fix: do not touch a destroyed coroutine after the first
 entry of another one

A coroutine remembers whom it was switched from.  At its first entry this
was kept until its first scheduling call, which destroys finished
coroutines first and then shrank the stack of the remembered one even if
it had just been destroyed.
---
 source/cocpp/core/co_env.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index c6e6f2c..a7d60b4 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -312,6 +312,8 @@ void co_env::schedule_switch()
 {
     lock_schedule();
     CoDefer(unlock_schedule());
+    // left over from the first entry of this ctx, remove_detached_ctx__ may destroy it
+    current_ctx()->clear_pre_ctx();
     remove_detached_ctx__();
     if (shared_stack_switch_info__.need_switch)
     {
-- 
2.43.0


From 6c9371903855c9a53311af40161678f115fc7e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:25:18 +0000
Subject: [PATCH 18/27] fix: do not mix up event handles that differ only in
 their upper bits

Callbacks were stored under the handle narrowed to int, so unsubscribing
an unknown handle could remove somebody else's callback.
---
 include/cocpp/event/co_event.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cocpp/event/co_event.h b/include/cocpp/event/co_event.h
index 2e7167e..6c7e3e4 100644
--- a/include/cocpp/event/co_event.h
+++ b/include/cocpp/event/co_event.h
@@ -17,7 +17,7 @@ template <std::copyable... Args>
 class co_event final : private co_noncopyable
 {
 private:
-    std::map<int, std::function<void(Args... args)> > cb_list__;
+    std::map<co_event_handle, std::function<void(Args... args)> > cb_list__;
     mutable std::recursive_mutex mu_cb_list__;
     co_event_handle current_handler__ {0};
 
-- 
2.43.0


From 783975eeb59d34c3ccc5a0be20ef4a57921fdab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:25:36 +0000
Subject: [PATCH 19/27] fix: let an event callback unsubscribe itself while it
 is called

The iteration went on from the erased entry.
---
 include/cocpp/event/co_event.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cocpp/event/co_event.h b/include/cocpp/event/co_event.h
index 6c7e3e4..8a6e3b3 100644
--- a/include/cocpp/event/co_event.h
+++ b/include/cocpp/event/co_event.h
@@ -46,9 +46,12 @@ template <std::copyable... Args>
 void co_event<Args...>::pub(Args... args) const
 {
     std::scoped_lock lck(mu_cb_list__);
-    for (auto &&[_, cb] : cb_list__)
+    for (auto iter = cb_list__.begin(); iter != cb_list__.end();)
     {
+        // a copy, the callback may unsubscribe itself
+        auto [handle, cb] = *iter;
         cb(args...);
+        iter = cb_list__.upper_bound(handle);
     }
 }
 
-- 
2.43.0


From da4766f455d48f39b3064af11d74930f9d2b8958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:59:36 +0000
Subject: [PATCH 20/27] fix: keep the red zone of a preempted coroutine when it
 is resumed

A coroutine preempted by the switch signal inside a leaf function keeps
data below its stack pointer. Resuming it through switch_to pushed the
flags and the return address right there.
---
 source/cocpp/core/co_vos_gcc_x86_64.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/cocpp/core/co_vos_gcc_x86_64.cpp b/source/cocpp/core/co_vos_gcc_x86_64.cpp
index 1552d78..d483cc1 100644
--- a/source/cocpp/core/co_vos_gcc_x86_64.cpp
+++ b/source/cocpp/core/co_vos_gcc_x86_64.cpp
@@ -69,6 +69,7 @@ __attribute__((naked)) void switch_to(co_byte **curr, co_byte **next)
     __asm volatile("movq %rsp, 120(%rdi)"); // rsp必须在rip后保存，先恢复
     /////////////////////////////////////////////////
     __asm volatile("movq 120(%rsi), %rsp");
+    __asm volatile("leaq -128(%rsp), %rsp"); // the ctx may have been preempted in a leaf function, keep its red zone
 
     __asm volatile("pushq 136(%rsi)");
     __asm volatile("popf");
@@ -92,7 +93,7 @@ __attribute__((naked)) void switch_to(co_byte **curr, co_byte **next)
     __asm volatile("" ::
                        : "memory");
 
-    __asm volatile("retq");
+    __asm volatile("retq $128"); // skip the red zone again
 }
 
 void init_ctx(co_stack *stack, co_ctx *ctx)
-- 
2.43.0


From e497bd572193ce670fbfb9f5729e46c0bee60371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:00:17 +0000
Subject: [PATCH 21/27] fix: start coroutines on an aligned stack whatever its
 size

With a stack size that is not a multiple of 16 the first function of the
coroutine ran on a misaligned stack, and aligned SSE accesses faulted.
---
 source/cocpp/core/co_vos_gcc_x86_64.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/cocpp/core/co_vos_gcc_x86_64.cpp b/source/cocpp/core/co_vos_gcc_x86_64.cpp
index d483cc1..d1b72cf 100644
--- a/source/cocpp/core/co_vos_gcc_x86_64.cpp
+++ b/source/cocpp/core/co_vos_gcc_x86_64.cpp
@@ -99,8 +99,10 @@ __attribute__((naked)) void switch_to(co_byte **curr, co_byte **next)
 void init_ctx(co_stack *stack, co_ctx *ctx)
 {
     auto context = get_sigcontext_64(ctx);
-    CO_SETREG(context, sp, stack->stack_top() - 8);
-    CO_SETREG(context, bp, stack->stack_top() - 8);
+    // The ABI requires a 16-byte aligned stack, whatever the size of the stack is
+    auto top = reinterpret_cast<unsigned long long>(stack->stack_top()) & ~15ULL;
+    CO_SETREG(context, sp, top - 8);
+    CO_SETREG(context, bp, top - 8);
     CO_SETREG(context, ip, &co_ctx::real_entry);
     CO_SETREG(context, di, ctx);
     // Store the address of '_start' at the bottom of the stack to prevent segment fault in case of exception backtracking of the call chain
-- 
2.43.0


From 3cc359defdd9391500a75a8001c69d91a818165a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:35:38 +0000
Subject: [PATCH 22/27] fix: keep a finished coroutine until the pending shared
 stack switch is done

---
 source/cocpp/core/co_env.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index a7d60b4..b931919 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -314,13 +314,14 @@ void co_env::schedule_switch()
     CoDefer(unlock_schedule());
     // left over from the first entry of this ctx, remove_detached_ctx__ may destroy it
     current_ctx()->clear_pre_ctx();
-    remove_detached_ctx__();
     if (shared_stack_switch_info__.need_switch)
     {
+        // the ctx switched from may be finished and detached, so don't remove anything before the switch is done
         switch_shared_stack_ctx__();
     }
     else
     {
+        remove_detached_ctx__();
         switch_normal_ctx__();
     }
     if (current_ctx()->pre_ctx() != nullptr)
-- 
2.43.0


From 5c35e1e360cc9b56fc899471c438cfbb8285b7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:36:13 +0000
Subject: [PATCH 23/27] fix: do not save the shared stack of a finished
 coroutine

---
 source/cocpp/core/co_env.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index b931919..9ee6c19 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -372,7 +372,8 @@ void co_env::switch_shared_stack_ctx__()
     CoPreemptGuard();
     shared_stack_switch_info__.need_switch = false;
 
-    if (shared_stack_switch_info__.from->test_flag(CO_CTX_FLAG_SHARED_STACK))
+    // a finished ctx does not need its stack any more
+    if (shared_stack_switch_info__.from->test_flag(CO_CTX_FLAG_SHARED_STACK) && shared_stack_switch_info__.from->state() != co_state::finished)
     {
         save_shared_stack__(shared_stack_switch_info__.from);
     }
-- 
2.43.0


From d5fa7fd3b5e87ba299b9f7d1236811de91b011f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:57:40 +0000
Subject: [PATCH 24/27] fix: deliver the error of a coroutine to one waiter
 only

Two threads that waited for the same coroutine could both find the stored
exception and both rethrow it. Take it out under the lock of the finished
state.
---
 source/cocpp/core/co_ctx.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/cocpp/core/co_ctx.cpp b/source/cocpp/core/co_ctx.cpp
index ef1ed8e..90c7ef8 100644
--- a/source/cocpp/core/co_ctx.cpp
+++ b/source/cocpp/core/co_ctx.cpp
@@ -130,10 +130,15 @@ void co_ctx::unset_flag(size_t flag)
 
 void co_ctx::check_and_rethrow_exception()
 {
-    if (exception__)
+    exception_ptr e;
+    {
+        // several threads may wait for this ctx
+        CoPreemptGuard();
+        scoped_lock lock(finish_lock__);
+        swap(e, exception__); // 仅第一次抛出异常
+    }
+    if (e)
     {
-        auto e = exception__;
-        exception__ = nullptr; // 仅第一次抛出异常
         rethrow_exception(e);
     }
 }
-- 
2.43.0


From 3454d885dd431eb6a0416591cda931ada43b93af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:57:40 +0000
Subject: [PATCH 25/27] fix: do not touch anything when a timed wait for a
 coroutine has returned

The timer may already be firing when the coroutine finishes and stops it. Its
callback then used the coroutine and the waiter after the wait had returned
and both could be gone. Whichever of completion and expiry comes second now
does nothing.
---
 source/cocpp/core/co_env.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index 9ee6c19..6216eb5 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -12,6 +12,7 @@
 #include "cocpp/utils/co_defer.h"
 
 #include <algorithm>
+#include <atomic>
 #include <bits/ranges_algo.h>
 #include <cassert>
 #include <chrono>
@@ -119,12 +120,22 @@ optional<co_return_value> co_env::wait_ctx(co_ctx *ctx, const chrono::nanosecond
             nullptr,
             co_expire_type::once, chrono::duration_cast<chrono::milliseconds>(timeout).count());
         auto timer_id = timer.get();
+        // the one that comes second must not touch anything, the wait may have returned
+        auto over = make_shared<atomic<bool> >(false);
         curr_ctx->enter_wait_resource_state(timer_id);
-        auto handle = ctx->finished().sub([curr_ctx, timer, timer_id] {
+        auto handle = ctx->finished().sub([curr_ctx, timer, timer_id, over] {
+            if (over->exchange(true))
+            {
+                return;
+            }
             timer->stop(); // Handle delete callbacks first and wake up later to prevent timing problems
             curr_ctx->leave_wait_resource_state(timer_id);
         });
-        timer->set_expire_callback([curr_ctx, ctx, handle, timer_id] {
+        timer->set_expire_callback([curr_ctx, ctx, handle, timer_id, over] {
+            if (over->exchange(true))
+            {
+                return;
+            }
             ctx->finished().unsub(handle); // Unsubscribe before wake up to prevent timing problems
             curr_ctx->leave_wait_resource_state(timer_id);
         });
-- 
2.43.0


From 644921732f5f8fdbb96547169b1fcbe2ba094dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:32:16 +0000
Subject: [PATCH 26/27] fix: place a coroutine before its environment can be
 retired

---
 source/cocpp/core/co_manager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/cocpp/core/co_manager.cpp b/source/cocpp/core/co_manager.cpp
index 12e7a81..02a60d5 100644
--- a/source/cocpp/core/co_manager.cpp
+++ b/source/cocpp/core/co_manager.cpp
@@ -434,6 +434,9 @@ co_ctx *co_manager::create_and_schedule_ctx(const co_ctx_config &config, functio
     }
     else
     {
+        // otherwise the env could be retired before the ctx is in it
+        CoPreemptGuard();
+        scoped_lock lck(env_set__.normal_lock);
         get_best_env__()->add_ctx(ctx);
     }
     return ctx;
-- 
2.43.0


From 7b7d1ed2779a0189430dac83d0ea17c7dee03fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:15:34 +0000
Subject: [PATCH 27/27] fix: keep the values of an initializer list for the
 pipeline that emits them

A pipeline source built from an initializer list captured the list itself.
The list only refers to a temporary array, which is gone when the coroutine runs later.
The source now keeps a copy of the values.
---
 include/cocpp/pipeline/co_pipeline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cocpp/pipeline/co_pipeline.h b/include/cocpp/pipeline/co_pipeline.h
index b9e6772..b1c1b7b 100644
--- a/include/cocpp/pipeline/co_pipeline.h
+++ b/include/cocpp/pipeline/co_pipeline.h
@@ -234,7 +234,7 @@ template <typename ItemType>
 co_pipeline<ItemType>::co_pipeline(const std::initializer_list<ItemType> &col, int max_chan_size)
     : channel__(max_chan_size)
 {
-    co__ = std::make_shared<co>([ch = channel__, col]() mutable {
+    co__ = std::make_shared<co>([ch = channel__, col = std::vector<ItemType>(col)]() mutable {
         for (const auto &t : col)
         {
             if (!ch.push(t))
-- 
2.43.0

