#include "vsched.h"
#include "cocpp/sync/co_recursive_mutex.h"
#include "cocpp/sync/co_recursive_timed_mutex.h"
#include "cocpp/sync/co_shared_mutex.h"
#include "cocpp/sync/co_shared_timed_mutex.h"
#include "cocpp/sync/co_timed_mutex.h"
#include <set>
using namespace cocpp;
using namespace vs;
using namespace std::chrono_literals;
using std::make_shared;
using std::string;
using std::to_string;
using std::vector;

// ------------------------------------------------------------------ recursive mutex
SCENARIO(rmutex_nesting, 3)
{
    auto m = make_shared<co_recursive_mutex>();
    auto in = make_shared<int>(-1);
    for (int i = 0; i < 3; ++i)
        spawn("c" + to_string(i), [=] {
            int depth = i + 1;
            for (int k = 0; k < depth; ++k)
            {
                if (i == 1 && k)
                    require(m->try_lock(), "the owner of a recursive mutex could not acquire it again");
                else
                    m->lock();
                require(*in == -1 || *in == i, "two coroutines hold the recursive mutex");
                *in = i;
                point();
            }
            for (int k = 0; k < depth; ++k)
            {
                require(*in == i, "the recursive mutex was lost before it was released as often as acquired");
                if (k == depth - 1)
                    *in = -1;
                m->unlock();
            }
        });
    run();
    require_all_done();
    require(preempt_count() == 0, "preemption count not restored");
}

SCENARIO(rmutex_foreign, 3)
{
    auto m = make_shared<co_recursive_mutex>();
    auto st = make_shared<int>(0);
    spawn("owner", [=] {
        m->lock();
        m->lock();
        m->unlock();
        *st = 1;
        while (*st == 1)
            relax();
        m->unlock();
        *st = 3;
    });
    spawn("other", [=] {
        while (*st == 0)
            relax();
        bool thrown = false;
        require(!m->try_lock(), "try_lock succeeded while another coroutine holds the recursive mutex");
        try
        {
            m->unlock();
        }
        catch (std::logic_error &)
        {
            thrown = true;
        }
        require(thrown, "unlock by a coroutine that does not own the mutex was accepted");
        require(!m->try_lock(), "a refused unlock released the mutex");
        *st = 2;
        while (*st != 3)
            relax();
        require(m->try_lock(), "the mutex is not free after the last release");
        m->unlock();
        thrown = false;
        try
        {
            m->unlock();
        }
        catch (std::logic_error &)
        {
            thrown = true;
        }
        require(thrown, "unlock of a free mutex was accepted");
    });
    run();
    require_all_done();
}

// whoever receives the mutex from a release holds it exactly once
SCENARIO(rmutex_handover, 2)
{
    auto m = make_shared<co_recursive_mutex>();
    auto order = make_shared<vector<int> >();
    auto st = make_shared<int>(0);
    spawn("holder", [=] {
        m->lock();
        m->lock();
        *st = 1;
        while (!is_blocked("w1"))
            relax();
        m->unlock();
        require(order->empty(), "the mutex was handed over before the last release");
        require(is_blocked("w0") && is_blocked("w1"), "a waiter was woken before the last release");
        m->unlock();
    });
    for (int k = 0; k < 2; ++k)
        spawn("w" + to_string(k), [=] {
            while (!*st || (k && !is_blocked("w0")))
                relax();
            m->lock();
            order->push_back(k);
            m->lock();
            m->unlock();
            relax();
            require((int)order->size() == k + 1, "the mutex was handed over while it was still held");
            m->unlock();
        });
    run();
    require_all_done();
    require(*order == vector<int>({0, 1}), "the mutex was not handed over in the order of waiting");
    bool ok = false;
    spawn("last", [&] { ok = m->try_lock(); });
    run();
    require(ok, "the mutex is not free although everybody released it");
}

// ------------------------------------------------------------------ shared mutex
struct Book
{
    int excl = 0, shared = 0;
    void in(bool x)
    {
        (x ? excl : shared)++;
        check();
    }
    void out(bool x)
    {
        check();
        (x ? excl : shared)--;
    }
    void check()
    {
        require(excl == 0 || (excl == 1 && shared == 0), "a shared mutex is held exclusively together with another holder");
    }
};

static void modes(const string &kinds, bool tries = false)
{
    auto m = make_shared<co_shared_mutex>();
    auto b = make_shared<Book>();
    for (size_t i = 0; i < kinds.size(); ++i)
        spawn("c" + to_string(i), [=] {
            bool x = kinds[i] == 'x' || kinds[i] == 'X';
            bool t = kinds[i] == 'X' || kinds[i] == 'S';
            if (t)
            {
                if (!(x ? m->try_lock() : m->try_lock_shared()))
                    return;
            }
            else if (x)
                m->lock();
            else
                m->lock_shared();
            b->in(x);
            point();
            CoYield();
            b->out(x);
            if (x)
                m->unlock();
            else
                m->unlock_shared();
        });
    run();
    require_all_done();
    require(preempt_count() == 0, "preemption count not restored");
    bool ok = false;
    spawn("last", [&] { ok = m->try_lock(); });
    run();
    require(ok, "the shared mutex is not free although everybody released it");
}

SCENARIO(smutex_modes_xs, 4) { modes("xs"); }
SCENARIO(smutex_modes_xsx, 3) { modes("xsx"); }
SCENARIO(smutex_modes_xss, 3) { modes("xss"); }
SCENARIO(smutex_modes_ssx, 3) { modes("ssx"); }
SCENARIO(smutex_modes_try, 2) { modes("xXsS"); }

SCENARIO(smutex_results, 2)
{
    auto m = make_shared<co_shared_mutex>();
    auto st = make_shared<int>(0);
    auto throws = [=](bool x) {
        try
        {
            if (x)
                m->unlock();
            else
                m->unlock_shared();
        }
        catch (std::logic_error &)
        {
            return true;
        }
        return false;
    };
    spawn("a", [=] {
        require(throws(true) && throws(false), "a release of a free shared mutex was accepted");
        require(m->try_lock_shared(), "shared mode refused on a free mutex");
        require(throws(true), "an exclusive release by a shared holder was accepted");
        *st = 1;
        while (*st == 1)
            relax();
        m->unlock_shared();
        *st = 3;
        while (*st == 3)
            relax();
        require(!m->try_lock() && !m->try_lock_shared(), "a try succeeded although the mutex is held exclusively");
        require(throws(true) && throws(false), "a release by a coroutine that holds nothing was accepted");
        require(!m->try_lock() && !m->try_lock_shared(), "a refused release had an effect");
        *st = 5;
    });
    spawn("b", [=] {
        while (*st == 0)
            relax();
        require(throws(false), "a release by a coroutine that is no holder was accepted");
        require(!m->try_lock(), "exclusive mode granted next to a shared holder");
        require(m->try_lock_shared(), "shared mode refused next to a shared holder");
        m->unlock_shared();
        require(!m->try_lock(), "exclusive mode granted next to a shared holder");
        *st = 2;
        while (*st != 3)
            relax();
        require(m->try_lock(), "exclusive mode refused on a free mutex");
        require(throws(false), "a shared release by the exclusive holder was accepted");
        *st = 4;
        while (*st != 5)
            relax();
        m->unlock();
    });
    run();
    require_all_done();
}

// every sequence of up to four parked waiters, released by an exclusive or a shared holder
static void wake(bool holder_exclusive, int n)
{
    auto m = make_shared<co_shared_mutex>();
    vector<bool> kind;
    for (int i = 0; i < n; ++i)
        kind.push_back(pick(2));
    if (!holder_exclusive)
        kind[0] = true; // a shared request does not wait behind a shared holder
    auto st = make_shared<int>(0);
    auto woken = make_shared<std::set<int> >();
    auto in = make_shared<std::set<int> >();
    auto log = make_shared<vector<int> >();
    for (int i = 0; i < n; ++i)
        if (!holder_exclusive && !kind[i])
            kind[i] = true;
    spawn("holder", [=] {
        if (holder_exclusive)
            m->lock();
        else
            m->lock_shared();
        *st = 1;
        while (!is_blocked("w" + to_string(n - 1)))
            relax();
        for (int i = 0; i < n; ++i)
            require(is_blocked("w" + to_string(i)), "a waiter runs although the mutex is held");
        if (holder_exclusive)
            m->unlock();
        else
            m->unlock_shared();
    });
    for (int k = 0; k < n; ++k)
        spawn("w" + to_string(k), [=] {
            while (!*st || (k && !is_blocked("w" + to_string(k - 1))))
                relax();
            bool x = kind[k];
            if (x)
                m->lock();
            else
                m->lock_shared();
            in->insert(k);
            log->push_back(k);
            for (int j : *in)
                require(j == k || (!x && !kind[j]), "incompatible holders of a shared mutex");
            for (int i = 0; i < 3; ++i)
                relax();
            in->erase(k);
            if (x)
                m->unlock();
            else
                m->unlock_shared();
        });
    run();
    require_all_done();
    // the exclusive ones keep their order; a shared group goes together before later exclusive ones
    vector<int> expect, shared_group;
    vector<int> q;
    for (int k = 0; k < n; ++k)
        q.push_back(k);
    size_t at = 0;
    while (!q.empty())
    {
        if (kind[q[0]])
        {
            require((*log)[at] == q[0], "the exclusive waiter at the head did not get the mutex next");
            ++at;
            q.erase(q.begin());
            continue;
        }
        std::set<int> g, got;
        vector<int> rest;
        for (int k : q)
            if (kind[k])
                rest.push_back(k);
            else
                g.insert(k);
        for (size_t i = 0; i < g.size(); ++i)
            got.insert((*log)[at++]);
        require(g == got, "the shared waiters did not get the mutex together");
        q = rest;
    }
    bool ok = false;
    spawn("last", [&] { ok = m->try_lock(); });
    run();
    require(ok, "the shared mutex is not free although everybody released it");
}
SCENARIO(smutex_wake_x4, 2) { wake(true, 4); }
SCENARIO(smutex_wake_x3, 2) { wake(true, 3); }
SCENARIO(smutex_wake_s3, 2) { wake(false, 2); }

// two shared holders: only the last release wakes
SCENARIO(smutex_last_shared, 2)
{
    auto m = make_shared<co_shared_mutex>();
    auto held = make_shared<int>(0);
    for (int i = 0; i < 2; ++i)
        spawn("h" + to_string(i), [=] {
            m->lock_shared();
            ++*held;
            while (!is_blocked("w"))
                relax();
            --*held;
            m->unlock_shared();
        });
    spawn("w", [=] {
        while (*held < 2)
            relax();
        m->lock();
        require(*held == 0, "exclusive mode granted while shared holders are left");
        m->unlock();
    });
    run();
    require_all_done();
}

// ------------------------------------------------------------------ timed
template <class M, class Try, class Un>
static void timed(const char *what, Try try_until, Un unlock, bool compatible)
{
    auto m = make_shared<M>();
    auto st = make_shared<int>(0);
    auto held = make_shared<int>(0);
    int ms = pick(3) * 20; // already expired, short, long
    auto released = make_shared<long>(-1);
    spawn("holder", [=] {
        m->lock();
        *held = 1;
        *st = 1;
        for (int i = 0; i < 3; ++i)
            relax();
        *held = 0;
        m->unlock();
        *released = now_ns();
    });
    spawn("timed", [=] {
        while (!*st)
            relax();
        long t0 = now_ns();
        auto deadline = std::chrono::steady_clock::time_point(std::chrono::nanoseconds(t0)) + std::chrono::milliseconds(ms);
        bool ok = try_until(*m, deadline);
        if (ok)
        {
            require(*held == 0, "a timed attempt succeeded although the lock was held");
            unlock(*m);
        }
        else
        {
            require(now_ns() >= t0 + ms * 1000000L, "a timed attempt gave up before its deadline");
        }
        while (!is_done("holder"))
            relax();
        // an attempt on a free lock succeeds even if the deadline has passed
        bool late = try_until(*m, std::chrono::steady_clock::time_point(std::chrono::nanoseconds(1)));
        require(late, "a timed attempt on a free lock failed");
        *held = 2;
        *st = 2;
        while (*st == 2)
            relax();
        unlock(*m);
        *st = 4;
    });
    spawn("probe", [=] {
        while (*st != 2)
            relax();
        require(!m->try_lock(), "the lock taken by a timed attempt is not held");
        *st = 3;
        while (*st != 4)
            relax();
        require(m->try_lock(), "a timed attempt left a trace");
        m->unlock();
    });
    run();
    require_all_done();
    require(preempt_count() == 0, "preemption count not restored");
}

SCENARIO(timed_mutex, 2)
{
    timed<co_timed_mutex>("mutex", [](auto &m, auto t) { return m.try_lock_until(t); }, [](auto &m) { m.unlock(); }, false);
}
SCENARIO(timed_recursive, 2)
{
    timed<co_recursive_timed_mutex>("recursive", [](auto &m, auto t) { return m.try_lock_until(t); }, [](auto &m) { m.unlock(); }, false);
}
SCENARIO(timed_shared_exclusive, 2)
{
    timed<co_shared_timed_mutex>("shared", [](auto &m, auto t) { return m.try_lock_until(t); }, [](auto &m) { m.unlock(); }, false);
}
SCENARIO(timed_shared_shared, 2)
{
    timed<co_shared_timed_mutex>("shared", [](auto &m, auto t) { return m.try_lock_shared_until(t); }, [](auto &m) { m.unlock_shared(); }, false);
}

template <class M, class Try, class Un>
static void timed_for(Try try_for, Un unlock)
{
    auto m = make_shared<M>();
    auto st = make_shared<int>(0);
    spawn("holder", [=] {
        m->lock();
        *st = 1;
        while (*st == 1)
            relax();
        m->unlock();
        *st = 3;
    });
    spawn("timed", [=] {
        while (!*st)
            relax();
        int ms = pick(3) * 15;
        long t0 = now_ns();
        require(!try_for(*m, std::chrono::milliseconds(ms)), "a timed attempt succeeded although the lock was held");
        require(now_ns() - t0 >= ms * 1000000L, "a timed attempt gave up before its time");
        require(now_ns() - t0 <= ms * 1000000L + 100000000L, "a timed attempt lasted much longer than asked for");
        *st = 2;
        while (*st != 3)
            relax();
        require(try_for(*m, 0ms), "a timed attempt on a free lock failed");
        unlock(*m);
    });
    run();
    require_all_done();
    require(preempt_count() == 0, "preemption count not restored");
}
SCENARIO(timed_mutex_for, 1)
{
    timed_for<co_timed_mutex>([](auto &m, auto t) { return m.try_lock_for(t); }, [](auto &m) { m.unlock(); });
}
SCENARIO(timed_recursive_for, 1)
{
    timed_for<co_recursive_timed_mutex>([](auto &m, auto t) { return m.try_lock_for(t); }, [](auto &m) { m.unlock(); });
}
SCENARIO(timed_shared_for, 1)
{
    timed_for<co_shared_timed_mutex>([](auto &m, auto t) { return m.try_lock_for(t); }, [](auto &m) { m.unlock(); });
}
SCENARIO(timed_shared_shared_for, 1)
{
    timed_for<co_shared_timed_mutex>([](auto &m, auto t) { return m.try_lock_shared_for(t); }, [](auto &m) { m.unlock_shared(); });
}

// compatible shared holders do not make a timed shared attempt fail
SCENARIO(timed_shared_compatible, 2)
{
    auto m = make_shared<co_shared_timed_mutex>();
    auto st = make_shared<int>(0);
    spawn("holder", [=] {
        m->lock_shared();
        *st = 1;
        while (*st == 1)
            relax();
        m->unlock_shared();
    });
    spawn("timed", [=] {
        while (!*st)
            relax();
        require(m->try_lock_shared_for(0ms), "a timed shared attempt failed next to a shared holder");
        require(!m->try_lock_for(20ms), "a timed exclusive attempt succeeded next to shared holders");
        m->unlock_shared();
        *st = 2;
    });
    run();
    require_all_done();
}
