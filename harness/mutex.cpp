#include "vsched.h"
#include "cocpp/sync/co_mutex.h"
#include <deque>
using namespace cocpp;
using namespace vs;


static void exclusion(int n, bool tryer)
{
    auto m = std::make_shared<co_mutex>();
    auto in = std::make_shared<int>(0);
    auto got = std::make_shared<int>(0);
    long p0 = preempt_count();
    for (int i = 0; i < n; ++i)
        spawn("c" + std::to_string(i), [=] {
            m->lock();
            require(++*in == 1, "two coroutines hold the mutex at the same time");
            point();
            require(*in == 1, "two coroutines hold the mutex at the same time");
            --*in;
            m->unlock();
            ++*got;
        });
    if (tryer)
        spawn("try", [=] {
            if (m->try_lock())
            {
                require(++*in == 1, "try_lock succeeded on a held mutex");
                point();
                require(*in == 1, "two coroutines hold the mutex at the same time");
                --*in;
                m->unlock();
            }
        });
    run();
    require_all_done();
    require(preempt_count() == p0, "preemption count not restored");
    require(*got == n, "a lock() did not return");
}

SCENARIO(mutex_exclusion2, 4) { exclusion(2, false); }
SCENARIO(mutex_exclusion3, 2) { exclusion(3, false); }
SCENARIO(mutex_exclusion_try, 3) { exclusion(2, true); }

SCENARIO(mutex_try_lock_results, 2)
{
    auto m = std::make_shared<co_mutex>();
    spawn("a", [=] {
        require(m->try_lock(), "try_lock failed on a free mutex");
        require(!m->try_lock(), "try_lock succeeded twice");
        m->unlock();
        require(m->try_lock(), "try_lock failed on a free mutex");
        m->unlock();
    });
    run();
    require_all_done();
}

SCENARIO(mutex_foreign_unlock, 3)
{
    auto m = std::make_shared<co_mutex>();
    auto st = std::make_shared<int>(0);
    spawn("owner", [=] {
        m->lock();
        *st = 1;
        while (*st == 1)
            relax();
        require(!m->try_lock(), "a refused unlock released the mutex");
        m->unlock();
    });
    spawn("other", [=] {
        while (*st == 0)
            relax();
        bool thrown = false;
        try
        {
            m->unlock();
        }
        catch (std::logic_error &)
        {
            thrown = true;
        }
        require(thrown, "unlock by a coroutine that does not own the mutex was accepted");
        require(preempt_count() == 0, "preemption count not restored");
        *st = 2;
    });
    run();
    require_all_done();
}

// coroutines that are parked on the mutex receive it in the order in which they were parked, and nobody overtakes them
SCENARIO(mutex_fifo, 2)
{
    auto m = std::make_shared<co_mutex>();
    auto order = std::make_shared<std::vector<int> >();
    auto held = std::make_shared<int>(0);
    spawn("holder", [=] {
        m->lock();
        *held = 1;
        while (!is_blocked("w2"))
            relax();
        *held = 2;
        m->unlock();
        require(order->size() == 3 || !m->try_lock(), "a released mutex with waiters was taken by somebody who was not waiting");
    });
    for (int k = 0; k < 3; ++k)
        spawn("w" + std::to_string(k), [=] {
            while (!*held || (k && !is_blocked("w" + std::to_string(k - 1))))
                relax();
            m->lock();
            order->push_back(k);
            relax();
            relax();
            m->unlock();
        });
    spawn("late", [=] {
        while (*held != 2)
            relax();
        m->lock();
        order->push_back(3);
        m->unlock();
    });
    run();
    require_all_done();
    require(*order == std::vector<int>({0, 1, 2, 3}), "the mutex was not handed over in the order of waiting");
}

SCENARIO(mutex_handoff_chain, 3)
{
    auto m = std::make_shared<co_mutex>();
    auto cnt = std::make_shared<int>(0);
    for (int k = 0; k < 3; ++k)
        spawn("w" + std::to_string(k), [=] {
            for (int r = 0; r < 2; ++r)
            {
                m->lock();
                ++*cnt;
                if (r == 0)
                    CoYield();
                m->unlock();
            }
        });
    run();
    require_all_done();
    require(*cnt == 6, "a critical section was lost");
}
