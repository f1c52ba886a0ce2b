#include "vsched.h"
#include "cocpp/sync/co_barrier.h"
#include "cocpp/sync/co_binary_semaphore.h"
#include "cocpp/sync/co_call_once.h"
#include "cocpp/sync/co_condition_variable.h"
#include "cocpp/sync/co_counting_semaphore.h"
#include "cocpp/sync/co_latch.h"
#include "cocpp/sync/co_mutex.h"
#include "cocpp/sync/co_wait_group.h"
#include <cstring>
#include <set>
using namespace cocpp;
using namespace vs;
using namespace std::chrono_literals;
using std::make_shared;
using std::shared_ptr;
using std::string;
using std::to_string;
using std::vector;
INSTRUMENTED;

// a lock that knows its holder
struct Lk
{
    co_mutex m;
    int holder = -1;
    void lock()
    {
        m.lock();
        require(holder == -1, "two holders of the lock");
        holder = self();
    }
    void unlock()
    {
        require(holder == self(), "the lock was released by somebody who does not hold it");
        holder = -1;
        m.unlock();
    }
    bool mine() const
    {
        return holder == self();
    }
};

static std::chrono::steady_clock::time_point at(long ns)
{
    return std::chrono::steady_clock::time_point(std::chrono::nanoseconds(ns));
}

template <class F>
static bool throws(F f)
{
    try
    {
        f();
    }
    catch (std::logic_error &)
    {
        return true;
    }
    return false;
}

// ------------------------------------------------------------------ condition variable
static void lost(bool unlocked_notify, bool all, bool pred)
{
    auto l = make_shared<Lk>();
    auto cv = make_shared<co_condition_variable>();
    auto flag = make_shared<bool>(false);
    for (int i = 0; i < (all ? 2 : 1); ++i)
        spawn("w" + to_string(i), [=] {
            l->lock();
            if (pred)
                lib([&] { cv->wait(*l, [&] { return hush([&] {
                                                require(l->mine(), "the predicate was called without the lock");
                                                return *flag;
                                            }); }); });
            else
                while (!*flag)
                    lib([&] { cv->wait(*l); });
            require(l->mine(), "a wait returned without the lock");
            require(*flag, "a predicate wait returned although the predicate is false");
            l->unlock();
        });
    spawn("n", [=] {
        l->lock();
        *flag = true;
        if (!unlocked_notify)
            lib([&] { all ? cv->notify_all() : cv->notify_one(); });
        l->unlock();
        if (unlocked_notify)
            lib([&] { all ? cv->notify_all() : cv->notify_one(); });
    });
    run();
    require_all_done();
    require(preempt_count() == 0, "preemption count not restored");
}
SCENARIO(cv_lost_one, 4) { lost(false, false, false); }
SCENARIO(cv_lost_one_unlocked, 4) { lost(true, false, false); }
SCENARIO(cv_lost_all, 3) { lost(false, true, false); }
SCENARIO(cv_lost_all_unlocked, 3) { lost(true, true, false); }
SCENARIO(cv_lost_pred, 3) { lost(true, true, true); }
SCENARIO(cv_lost_pred_one, 3) { lost(false, false, true); }

// waiters in a known order, then some single notifications, then one for all
SCENARIO(cv_order, 2)
{
    auto l = make_shared<Lk>();
    auto cv = make_shared<co_condition_variable>();
    int n = 3;
    auto go = make_shared<int>(0);
    auto back = make_shared<vector<int> >();
    for (int i = 0; i < n; ++i)
        spawn("w" + to_string(i), [=] {
            while (i && !is_blocked("w" + to_string(i - 1)))
                relax();
            l->lock();
            lib([&] { cv->wait(*l); });
            require(l->mine(), "a wait returned without the lock");
            require(*go > 0, "a wait returned without a notification");
            back->push_back(i);
            l->unlock();
        });
    spawn("n", [=] {
        while (!is_blocked("w2"))
            relax();
        int k = pick(n + 1);
        for (int i = 0; i < k; ++i)
        {
            *go = i + 1;
            lib([&] { cv->notify_one(); });
            while ((int)back->size() <= i)
            {
                require(!is_blocked("w" + to_string(i)), "a single notification did not wake the longest waiter");
                relax();
            }
            require(back->back() == i, "a single notification woke another than the longest waiter");
            for (int j = i + 1; j < n; ++j)
                require(is_blocked("w" + to_string(j)), "a single notification woke more than one waiter");
        }
        *go = n;
        lib([&] { cv->notify_all(); });
        for (int j = k; j < n; ++j)
            require(!is_blocked("w" + to_string(j)) || !l->mine(), "");
    });
    run();
    require_all_done();
    require(back->size() == 3, "a waiter was not woken");
    require(preempt_count() == 0, "preemption count not restored");
}

// notifications before the wait have no effect, two in a row wake two
SCENARIO(cv_burst, 2)
{
    auto l = make_shared<Lk>();
    auto cv = make_shared<co_condition_variable>();
    auto go = make_shared<bool>(false);
    for (int i = 0; i < 3; ++i)
        spawn("w" + to_string(i), [=] {
            while (!*go || (i && !is_blocked("w" + to_string(i - 1))))
                relax();
            l->lock();
            lib([&] { cv->wait(*l); });
            require(l->mine(), "a wait returned without the lock");
            l->unlock();
        });
    spawn("n", [=] {
        lib([&] { cv->notify_one(); });
        lib([&] { cv->notify_all(); });
        *go = true;
        while (!is_blocked("w2"))
            relax();
        lib([&] { cv->notify_one(); });
        lib([&] { cv->notify_one(); });
    });
    run();
    require(is_done("w0") && is_done("w1"), "two notifications did not wake two waiters");
    require(is_done("n"), "a notification blocked");
    require(is_blocked("w2"), "two notifications woke three waiters");
}

// the same coroutine waits again and again
SCENARIO(cv_again, 3)
{
    auto l = make_shared<Lk>();
    auto cv = make_shared<co_condition_variable>();
    auto v = make_shared<int>(0);
    for (int i = 0; i < 2; ++i)
        spawn("p" + to_string(i), [=] {
            for (int k = 0; k < 2; ++k)
            {
                l->lock();
                while (*v % 2 != i)
                    lib([&] { cv->wait(*l); });
                require(l->mine(), "a wait returned without the lock");
                ++*v;
                l->unlock();
                lib([&] { cv->notify_one(); });
            }
        });
    run();
    require_all_done();
    require(*v == 4, "lost turn");
}

SCENARIO(cv_pred_true, 2)
{
    auto l = make_shared<Lk>();
    auto cv = make_shared<co_condition_variable>();
    auto v = make_shared<int>(0);
    spawn("w", [=] {
        l->lock();
        lib([&] { cv->wait(*l, [&] { return true; }); });
        require(l->mine(), "a wait returned without the lock");
        l->unlock();
        l->lock();
        lib([&] { cv->wait(*l, [&] { return hush([&] { return *v == 2; }); }); });
        require(l->mine(), "a wait returned without the lock");
        require(*v == 2, "a predicate wait returned although the predicate is false");
        l->unlock();
    });
    spawn("n", [=] {
        for (int i = 0; i < 2; ++i)
        {
            l->lock();
            ++*v;
            l->unlock();
            lib([&] { cv->notify_one(); });
        }
    });
    run();
    require_all_done();
}

// ------------------------------------------------------------------ timed waits
static bool timers_left()
{
    return !co_manager::instance()->timer_queue__.empty();
}

static void timed_wait(bool pred, bool use_for)
{
    auto l = make_shared<Lk>();
    auto cv = make_shared<co_condition_variable>();
    auto flag = make_shared<bool>(false);
    auto notified = make_shared<long>(-1);  // when the notification was complete
    auto starting = make_shared<long>(-1);  // when it began
    auto deadline = make_shared<long>(0);
    long d = pick(3) * 100000000L - 50000000L; // in the past, soon, later
    spawn("w", [=] {
        l->lock();
        *deadline = now_ns() + d;
        long dl = *deadline;
        bool r;
        if (use_for)
        {
            dl = now_ns() + d;
            r = pred ? lib([&] { return cv->wait_for(*l, std::chrono::nanoseconds(d), [&] { return hush([&] { return *flag; }); }); })
                     : lib([&] { return cv->wait_for(*l, std::chrono::nanoseconds(d)); });
        }
        else
            r = pred ? lib([&] { return cv->wait_until(*l, at(dl), [&] { return hush([&] { return *flag; }); }); })
                     : lib([&] { return cv->wait_until(*l, at(dl)); });
        require(l->mine(), "a timed wait returned without the lock");
        require(!timers_left(), "a timed wait left its timer active");
        if (pred)
            require(r == *flag, "a timed predicate wait did not return the value of its predicate");
        if (r)
            require(pred || *starting >= 0, "a timed wait reports a notification although there was none");
        else
            require(now_ns() >= dl, "a timed wait reports a timeout before its deadline");
        l->unlock();
    });
    spawn("n", [=] {
        for (int i = pick(2) * 30; i; --i)
            advance_ns(5000000), relax();
        l->lock();
        *flag = true;
        *starting = now_ns();
        lib([&] { cv->notify_one(); });
        *notified = now_ns();
        l->unlock();
    });
    run();
    require_all_done();
    require(preempt_count() == 0, "preemption count not restored");
}
SCENARIO(cvt_plain, 2) { timed_wait(false, false); }
SCENARIO(cvt_plain_for, 2) { timed_wait(false, true); }
SCENARIO(cvt_pred, 2) { timed_wait(true, false); }
SCENARIO(cvt_pred_for, 2) { timed_wait(true, true); }

// nobody notifies; afterwards the waiter is forgotten
SCENARIO(cvt_forgotten, 2)
{
    auto l = make_shared<Lk>();
    auto cv = make_shared<co_condition_variable>();
    auto st = make_shared<int>(0);
    bool pred = pick(2);
    spawn("t", [=] {
        l->lock();
        long dl = now_ns() + 20000000;
        bool r = pred ? lib([&] { return cv->wait_until(*l, at(dl), [] { return false; }); }) : lib([&] { return cv->wait_until(*l, at(dl)); });
        require(!r, "a timed wait without a notification did not report a timeout");
        require(l->mine(), "a timed wait returned without the lock");
        require(now_ns() >= dl, "a timed wait reports a timeout before its deadline");
        *st = 1;
        l->unlock();
    });
    spawn("w", [=] {
        while (*st == 0)
            relax();
        l->lock();
        *st = 2;
        lib([&] { cv->wait(*l); });
        l->unlock();
    });
    spawn("n", [=] {
        while (*st != 2 || !is_blocked("w"))
            relax();
        lib([&] { cv->notify_one(); });
    });
    run();
    require_all_done();
}

// an earlier timeout of this or another wait does not matter later
SCENARIO(cvt_sticky, 1)
{
    auto l = make_shared<Lk>();
    auto cv = make_shared<co_condition_variable>();
    auto st = make_shared<int>(0);
    bool pred = pick(2);
    spawn("t", [=] {
        l->lock();
        bool r = lib([&] { return cv->wait_for(*l, 10ms); });
        require(!r, "a timed wait without a notification did not report a timeout");
        *st = 1;
        long dl = now_ns() + 1000000000000L;
        r = pred ? lib([&] { return cv->wait_until(*l, at(dl), [&] { return hush([&] { return *st == 2; }); }); }) : lib([&] { return cv->wait_until(*l, at(dl)); });
        require(r || now_ns() >= dl, "a timed wait reports a timeout that happened in an earlier wait");
        require(l->mine(), "a timed wait returned without the lock");
        l->unlock();
        *st = 3;
    });
    spawn("n", [=] {
        while (*st == 0 || !is_blocked("t"))
        {
            if (*st == 3)
                return;
            relax();
        }
        l->lock();
        *st = 2;
        lib([&] { cv->notify_one(); });
        l->unlock();
    });
    run();
    require_all_done();
}

// two timed waiters, one times out, the other one is notified; also with the same deadline
SCENARIO(cvt_two, 1)
{
    auto l = make_shared<Lk>();
    auto cv = make_shared<co_condition_variable>();
    auto res = make_shared<std::vector<int> >(2, -1);
    auto base = make_shared<long>(now_ns() + 300000000L);
    bool same = pick(2);
    bool notify = pick(2);
    auto told = make_shared<long>(0);
    for (int i = 0; i < 2; ++i)
        spawn("w" + to_string(i), [=] {
            l->lock();
            long dl = *base + (same ? 0 : i * 100000000000L);
            bool r = lib([&] { return cv->wait_until(*l, at(dl)); });
            require(l->mine(), "a timed wait returned without the lock");
            (*res)[i] = r;
            require(r || now_ns() >= dl, "a timed wait reports a timeout before its own deadline");
            require(!r || *told, "a timed wait reports a notification although there was none");
            l->unlock();
        });
    spawn("n", [=] {
        if (!notify)
            return;
        while (!is_done("w0") && !(is_blocked("w0") && is_blocked("w1")))
            relax();
        if (!same)
            while (!is_done("w0"))
            {
                if (is_blocked("w0"))
                    advance_ns(100000000);
                relax();
            }
        *told = now_ns();
        lib([&] { cv->notify_all(); });
    });
    run();
    require_all_done();
    if (!notify)
        require((*res)[0] == 0 && (*res)[1] == 0, "a timed wait without a notification did not report a timeout");
}

// the condition variable goes away right after the wait
SCENARIO(cvt_destroyed, 3)
{
    void *mem = malloc(sizeof(co_condition_variable));
    auto cv = new (mem) co_condition_variable;
    auto l = make_shared<Lk>();
    bool pred = pick(2);
    spawn("t", [=] {
        l->lock();
        if (pred)
            lib([&] { return cv->wait_for(*l, 10ms, [] { return false; }); });
        else
            lib([&] { return cv->wait_for(*l, 10ms); });
        l->unlock();
    });
    spawn("n", [=] {
        lib([&] { cv->notify_all(); });
    });
    auto gone = make_shared<bool>(false);
    spawn("d", [=] {
        while (!is_done("t") || !is_done("n"))
            relax();
        cv->~co_condition_variable();
        memset(mem, 0xff, sizeof(co_condition_variable));
        *gone = true;
    });
    run();
    require_all_done();
    bool touched = false;
    for (size_t i = 0; i < sizeof(co_condition_variable); ++i)
        touched |= ((unsigned char *)mem)[i] != 0xff;
    require(!touched, "the condition variable was used after its last wait had returned");
    free(mem);
}

// ------------------------------------------------------------------ semaphore
template <std::ptrdiff_t MAX>
static int value_of(co_counting_semaphore<MAX> &s)
{
    int n = 0;
    while (n <= MAX + 1 && s.try_acquire())
        ++n;
    for (int i = 0; i < n && i < MAX; ++i)
        s.release();
    return n;
}

SCENARIO(sem_holders, 3)
{
    auto s = make_shared<co_counting_semaphore<2> >(1);
    auto in = make_shared<int>(0);
    for (int i = 0; i < 3; ++i)
        spawn("c" + to_string(i), [=] {
            if (i == 2)
            {
                if (!lib([&] { return s->try_acquire(); }))
                    return;
            }
            else
                lib([&] { s->acquire(); });
            ++*in;
            require(*in <= 1, "more coroutines hold a permit than there are permits");
            point();
            --*in;
            lib([&] { s->release(); });
        });
    run();
    require_all_done();
    int n = 0;
    spawn("v", [&] { n = value_of(*s); });
    run();
    require(n == 1, "permits were lost or multiplied");
    require(preempt_count() == 0, "preemption count not restored");
}

SCENARIO(sem_release_n, 2)
{
    auto s = make_shared<co_counting_semaphore<4> >(0);
    int n = 1 + pick(3);
    auto got = make_shared<int>(0);
    for (int i = 0; i < 3; ++i)
        spawn("a" + to_string(i), [=] {
            lib([&] { s->acquire(); });
            ++*got;
        });
    spawn("r", [=] { lib([&] { s->release(n); }); });
    run();
    require(is_done("r"), "a release blocked although there was room");
    require(*got == n, "a release did not let the right number of coroutines continue");
    spawn("r2", [=] { lib([&] { s->release(3 - n); }); });
    run();
    require_all_done();
    int left = 0;
    spawn("v", [&] { left = value_of(*s); });
    run();
    require(left == 0, "permits were lost or multiplied");
}

// a release of more than there is room for waits for somebody to acquire
SCENARIO(sem_full, 2)
{
    auto s = make_shared<co_counting_semaphore<2> >(pick(3));
    int init = 0;
    spawn("v", [&] { init = value_of(*s); });
    run();
    auto taken = make_shared<int>(0);
    spawn("r", [=] {
        lib([&] { s->release(2); });
        require(init + 2 - *taken <= 2, "a release returned although there was no room");
    });
    auto how = pick(2);
    spawn("a", [=] {
        for (int i = 0; i < init; ++i)
        {
            ++*taken; // from here on the permit may already be gone
            if (how)
                lib([&] { s->acquire(); });
            else
                while (!lib([&] { return s->try_acquire(); }))
                    relax();
        }
    });
    run();
    require_all_done();
    int n = 0;
    spawn("v2", [&] { n = value_of(*s); });
    run();
    require(n == 2, "permits were lost or multiplied");
}

SCENARIO(sem_two_sided, 2)
{
    auto s = make_shared<co_binary_semaphore>(0);
    auto rel = make_shared<int>(0);
    auto acq = make_shared<int>(0);
    for (int i = 0; i < 2; ++i)
        spawn("r" + to_string(i), [=] {
            lib([&] { s->release(); });
            ++*rel;
        });
    for (int i = 0; i < 2; ++i)
        spawn("a" + to_string(i), [=] {
            lib([&] { s->acquire(); });
            ++*acq;
        });
    run();
    require_all_done();
    bool b = false;
    spawn("v", [&] { b = s->try_acquire(); });
    run();
    require(!b, "permits were lost or multiplied");
}

SCENARIO(sem_try, 1)
{
    auto s = make_shared<co_counting_semaphore<3> >(pick(4));
    spawn("t", [=] {
        int n = value_of(*s);
        require(n <= 3, "the value exceeds its maximum");
        for (int i = 0; i < n; ++i)
        {
            bool b = i == 0 ? lib([&] { return s->try_acquire_for(0ms); }) : lib([&] { return s->try_acquire(); });
            require(b, "try_acquire failed although a permit was available");
        }
        require(!lib([&] { return s->try_acquire(); }), "try_acquire succeeded although no permit was available");
        long t0 = now_ns();
        require(!lib([&] { return s->try_acquire_for(30ms); }), "try_acquire_for succeeded although no permit was available");
        require(now_ns() - t0 >= 30000000, "try_acquire_for gave up too early");
        require(value_of(*s) == 0, "a failed try_acquire changed the value");
        require(s->max() == 3, "wrong maximum");
    });
    run();
    require_all_done();
    require(preempt_count() == 0, "preemption count not restored");
}

// ------------------------------------------------------------------ latch, wait group
SCENARIO(latch_open, 3)
{
    int n = 1 + pick(2);
    auto l = make_shared<co_latch>(n + 1);
    auto arr = make_shared<int>(0);
    auto complete = make_shared<bool>(false);
    spawn("w", [=] {
        lib([&] { l->wait(); });
        require(*arr == n + 1, "a wait on a latch returned before all arrivals");
        require(l->try_wait(), "try_wait denies that the latch is open");
        lib([&] { l->wait(); });
    });
    spawn("p", [=] {
        bool before = *complete;
        bool r = lib([&] { return l->try_wait(); });
        require(!r || *arr == n + 1, "try_wait claims an open latch before all arrivals");
        require(r || !before, "try_wait denies that the latch is open");
    });
    spawn("a", [=] {
        *arr += n;
        lib([&] { l->count_down(n); });
        if (*arr == n + 1 && is_done("b"))
            *complete = true;
    });
    spawn("b", [=] {
        ++*arr;
        lib([&] { l->arrive_and_wait(); });
        require(*arr == n + 1, "arrive_and_wait returned before all arrivals");
        *complete = true;
    });
    run();
    require_all_done();
    require(preempt_count() == 0, "preemption count not restored");
}

// arrivals that stand for several participants
SCENARIO(latch_arrive_many, 2)
{
    int n = 2 + pick(2);
    auto l = make_shared<co_latch>(n + 1);
    auto arr = make_shared<int>(0);
    spawn("a", [=] {
        *arr += n;
        lib([&] { l->arrive_and_wait(n); });
        require(*arr == n + 1, "arrive_and_wait returned before all arrivals");
    });
    spawn("b", [=] {
        ++*arr;
        lib([&] { l->arrive_and_wait(1); });
        require(*arr == n + 1, "arrive_and_wait returned before all arrivals");
    });
    run();
    require_all_done();
    require(l->try_wait(), "the latch is not open after all arrivals");
}

SCENARIO(latch_reject, 1)
{
    int n = pick(3);
    auto l = make_shared<co_latch>(n);
    spawn("a", [=] {
        require(lib([&] { return throws([&] { l->count_down(n + 1); }); }), "counting a latch below zero was accepted");
        require(l->try_wait() == (n == 0), "a rejected count changed the latch");
        for (int i = 0; i < n; ++i)
        {
            require(!l->try_wait(), "the latch is open too early");
            l->count_down();
        }
        require(l->try_wait(), "the latch is not open after all arrivals");
        require(throws([&] { l->count_down(1); }), "counting a latch below zero was accepted");
        require(l->try_wait(), "a rejected count changed the latch");
        l->wait();
    });
    run();
    require_all_done();
}

SCENARIO(latch_two_waiters, 2)
{
    auto l = make_shared<co_latch>(2);
    auto arr = make_shared<int>(0);
    for (int i = 0; i < 2; ++i)
        spawn("w" + to_string(i), [=] {
            l->wait();
            require(*arr == 2, "a wait on a latch returned before all arrivals");
        });
    for (int i = 0; i < 2; ++i)
        spawn("a" + to_string(i), [=] {
            ++*arr;
            l->count_down();
        });
    run();
    require_all_done();
}

SCENARIO(wg_open, 3)
{
    auto w = make_shared<co_wait_group>(2);
    auto arr = make_shared<int>(0);
    for (int i = 0; i < 2; ++i)
        spawn("w" + to_string(i), [=] {
            lib([&] { w->wait(); });
            require(*arr == 2, "a wait on a wait group returned before all were done");
        });
    for (int i = 0; i < 2; ++i)
        spawn("a" + to_string(i), [=] {
            ++*arr;
            lib([&] { w->done(); });
        });
    run();
    require_all_done();
    require(preempt_count() == 0, "preemption count not restored");
    spawn("x", [w = std::move(w)]() mutable { w.reset(); });
    run();
    require_all_done();
}

SCENARIO(wg_destructor, 3)
{
    auto w = make_shared<co_wait_group *>(new co_wait_group(2));
    auto arr = make_shared<int>(0);
    spawn("d", [=] {
        lib([&] { delete *w; });
        require(*arr == 2, "a wait group was destroyed before all were done");
    });
    for (int i = 0; i < 2; ++i)
        spawn("a" + to_string(i), [=] {
            ++*arr;
            lib([&] { (*w)->done(); });
        });
    run();
    require_all_done();
}

// ------------------------------------------------------------------ barrier
static void phases(int n, int rounds)
{
    auto b = make_shared<co_barrier>(n);
    auto arr = make_shared<vector<int> >(rounds, 0);
    for (int i = 0; i < n; ++i)
        spawn("p" + to_string(i), [=] {
            for (int r = 0; r < rounds; ++r)
            {
                ++(*arr)[r];
                lib([&] { b->arrive_and_wait(); });
                require((*arr)[r] == n, "a coroutine passed the barrier before all had arrived");
            }
        });
    run();
    require_all_done();
    require(preempt_count() == 0, "preemption count not restored");
}
SCENARIO(barrier_two, 3) { phases(2, 2); }
SCENARIO(barrier_three, 2) { phases(3, 2); }

// arriving and waiting apart from each other
SCENARIO(barrier_split, 2)
{
    auto b = make_shared<co_barrier>(3);
    auto arr = make_shared<int>(0);
    spawn("a", [=] {
        ++*arr;
        auto t = lib([&] { return b->arrive(); });
        point();
        lib([&] { b->wait(std::move(t)); });
        require(*arr == 3, "a coroutine passed the barrier before all had arrived");
    });
    spawn("b", [=] {
        *arr += 2;
        auto t = lib([&] { return b->arrive(2); });
        if (pick(2))
        {
            lib([&] { b->wait(std::move(t)); });
            require(*arr == 3, "a coroutine passed the barrier before all had arrived");
        }
    });
    run();
    require_all_done();
}

SCENARIO(barrier_drop, 2)
{
    auto b = make_shared<co_barrier>(3);
    auto arr = make_shared<vector<int> >(2, 0);
    for (int i = 0; i < 3; ++i)
        spawn("p" + to_string(i), [=] {
            if (i == 2)
            {
                ++(*arr)[0];
                lib([&] { b->arrive_and_drop(); });
                return;
            }
            ++(*arr)[0];
            lib([&] { b->arrive_and_wait(); });
            require((*arr)[0] == 3, "a coroutine passed the barrier before all had arrived");
            for (int r = 0; r < 2; ++r)
            {
                ++(*arr)[1];
                lib([&] { b->arrive_and_wait(); });
                require((*arr)[1] >= (r + 1) * 2, "a coroutine passed the barrier before the remaining ones had arrived");
            }
        });
    run();
    require_all_done();
    bool late = false;
    spawn("x", [&] {
        b->arrive(2);
        late = throws([&] { b->arrive(3); });
    });
    run();
    require(late, "more arrivals than participants were accepted");
}

SCENARIO(barrier_reject, 1)
{
    auto b = make_shared<co_barrier>(2);
    auto c = make_shared<co_barrier>(2);
    spawn("a", [=] {
        require(throws([&] { b->arrive(3); }), "more arrivals than participants were accepted");
        auto t = b->arrive();
        auto f = t;
        require(throws([&] { c->wait(std::move(f)); }), "a token of another barrier was accepted");
        require(throws([&] { b->arrive(2); }), "more arrivals than participants were accepted");
        auto old = t;
        b->arrive();
        b->wait(std::move(t)); // completes the phase
        b->arrive(2);          // and the next one
        require(throws([&] { b->wait(std::move(old)); }), "a token of an earlier phase was accepted");
        // nothing of this disturbed the barrier
        b->arrive();
        b->arrive_and_wait();
        c->arrive();
        c->arrive_and_wait();
    });
    run();
    require_all_done();
}

// ------------------------------------------------------------------ call once
SCENARIO(once_all, 3)
{
    auto f = make_shared<co_once_flag>();
    auto runs = make_shared<int>(0);
    auto done = make_shared<int>(-1);
    auto started = make_shared<int>(-1);
    for (int i = 0; i < 3; ++i)
        spawn("c" + to_string(i), [=] {
            lib([&] {
                co_call_once(
                    *f, [&](int a, int b) { hush([&] {
                                                require(a == i && b == i + 10, "call_once passed the wrong arguments");
                                                ++*runs;
                                                *started = i;
                                                point();
                                                CoYield();
                                                *done = i;
                                            }); },
                    i, i + 10);
            });
            require(*runs == 1, "call_once ran its function not exactly once");
            require(*done != -1, "call_once returned before the function was complete");
        });
    run();
    require_all_done();
    require(*runs == 1, "call_once ran its function not exactly once");
    require(preempt_count() == 0, "preemption count not restored");
}

SCENARIO(once_throw, 3)
{
    auto f = make_shared<co_once_flag>();
    auto runs = make_shared<int>(0);
    auto complete = make_shared<int>(0);
    for (int i = 0; i < 3; ++i)
        spawn("c" + to_string(i), [=] {
            try
            {
                lib([&] {
                    co_call_once(*f, [&] { hush([&] {
                                               point();
                                               if ((*runs)++ == 0)
                                                   throw std::logic_error("first");
                                               point();
                                               ++*complete;
                                           }); });
                });
                require(*complete == 1, "call_once returned before the function was complete");
            }
            catch (std::logic_error &)
            {
            }
        });
    run();
    require_all_done();
    require(*complete == 1, "call_once did not run its function to completion exactly once");
}
