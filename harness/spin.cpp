// Scenarios for the spin lock itself: every atomic access of it is a switching point.
#include "vsched.h"
using namespace cocpp;
using namespace vs;
using std::make_shared;

SCENARIO(spin_exclusion, 3)
{
    auto l = make_shared<co_spinlock>();
    auto in = make_shared<int>(0);
    for (int i = 0; i < 3; ++i)
        spawn("t" + std::to_string(i), [=] {
            for (int k = 0; k < 2; ++k)
            {
                l->lock();
                require(++*in == 1, "two threads hold the spin lock");
                point();
                --*in;
                l->unlock();
            }
        });
    run();
    require_all_done();
}
SCENARIO(spin_try, 3)
{
    auto l = make_shared<co_spinlock>();
    auto in = make_shared<int>(0);
    auto got = make_shared<int>(0);
    for (int i = 0; i < 3; ++i)
        spawn("t" + std::to_string(i), [=] {
            bool alone = i == 2;
            if (l->try_lock())
            {
                ++*got;
                require(++*in == 1, "two threads hold the spin lock");
                point();
                --*in;
                l->unlock();
            }
            (void)alone;
        });
    run();
    require_all_done();
    require(*got > 0, "every attempt to take a free spin lock failed");
}
SCENARIO(spin_mixed, 3)
{
    auto l = make_shared<co_spinlock>();
    auto in = make_shared<int>(0);
    auto held = make_shared<bool>(false);
    spawn("a", [=] {
        l->lock();
        *held = true;
        require(++*in == 1, "two threads hold the spin lock");
        point();
        point();
        --*in;
        *held = false;
        l->unlock();
    });
    spawn("b", [=] {
        bool r = l->try_lock();
        require(!r || !*held, "a held spin lock was taken");
        if (r)
        {
            require(++*in == 1, "two threads hold the spin lock");
            point();
            --*in;
            l->unlock();
        }
        l->lock();
        require(++*in == 1, "two threads hold the spin lock");
        point();
        --*in;
        l->unlock();
    });
    run();
    require_all_done();
}
SCENARIO(spin_alone, 0)
{
    auto l = make_shared<co_spinlock>();
    spawn("a", [=] {
        require(l->try_lock(), "a free spin lock was not taken");
        require(!l->try_lock(), "a held spin lock was taken");
        require(!l->try_lock(), "a held spin lock was taken");
        l->unlock();
        l->lock();
        require(!l->try_lock(), "a held spin lock was taken");
        l->unlock();
        require(l->try_lock(), "a freed spin lock was not taken");
        l->unlock();
    });
    run();
    require_all_done();
}
