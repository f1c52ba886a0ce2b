#include "vsched.h"
#include "cocpp/event/co_chan.h"
#include <set>
using namespace cocpp;
using namespace vs;
using std::make_shared;
using std::optional;
using std::string;
using std::to_string;
using std::vector;
INSTRUMENTED;

using Chan = co_chan<int>;

static bool send(Chan &c, int v)
{
    return lib([&] { return c.push(v); });
}
static optional<int> recv(Chan &c)
{
    return lib([&] { return c.pop(); });
}
static void close(Chan &c)
{
    lib([&] { c.close(); });
}

// each producer sends its numbers in order; everything arrives once, per producer in order
static void flow(int cap, int producers, int each, int consumers)
{
    auto c = make_shared<Chan>(cap);
    auto got = make_shared<vector<int> >();
    auto begun = make_shared<int>(0); // sends begun
    auto ended = make_shared<int>(0);
    auto taken = make_shared<int>(0); // receives begun
    auto prod = make_shared<int>(producers);
    require(c->max_size() == cap, "the capacity is not the one asked for");
    for (int i = 0; i < producers; ++i)
        spawn("p" + to_string(i), [=] {
            for (int k = 0; k < each; ++k)
            {
                ++*begun;
                require(send(*c, i * 100 + k), "a send on an open channel was refused");
                ++*ended;
                // completed sends that nobody can have received yet are in the channel
                if (cap > 0)
                    require(*ended - *taken <= cap, "a channel holds more values than its capacity");
                if (cap == 0)
                    require(*ended <= *taken, "an unbuffered send returned before its value was taken");
            }
            if (--*prod == 0)
                close(*c);
        });
    for (int i = 0; i < consumers; ++i)
        spawn("c" + to_string(i), [=] {
            for (;;)
            {
                ++*taken;
                auto v = recv(*c);
                if (!v)
                {
                    --*taken;
                    require(c->closed() && c->empty(), "a receive reported the end although the channel is open or not drained");
                    return;
                }
                require(*v / 100 < producers && *v % 100 < each, "a value was received that nobody sent");
                if (consumers == 1)
                    for (int o : *got)
                        require(o / 100 != *v / 100 || o < *v, "values of one sender arrived out of order or twice");
                got->push_back(*v);
            }
        });
    run();
    require_all_done();
    require((int)got->size() == producers * each, "values were lost or multiplied");
    std::set<int> s(got->begin(), got->end());
    require(s.size() == got->size(), "a value was received twice");
    require(preempt_count() == 0, "preemption count not restored");
}
SCENARIO(chan_flow_1, 3) { flow(1, 1, 3, 1); }
SCENARIO(chan_flow_1_two_senders, 2) { flow(1, 2, 2, 1); }
SCENARIO(chan_flow_1_two_receivers, 2) { flow(1, 1, 3, 2); }
SCENARIO(chan_flow_2, 2) { flow(2, 1, 4, 1); }
SCENARIO(chan_flow_2_two, 2) { flow(2, 2, 2, 2); }
SCENARIO(chan_flow_unlimited, 2) { flow(-1, 2, 2, 1); }
SCENARIO(chan_flow_unlimited_two, 2) { flow(-1, 1, 3, 2); }
SCENARIO(chan_sync_flow, 3) { flow(0, 1, 2, 1); }
SCENARIO(chan_sync_two_senders, 2) { flow(0, 2, 2, 1); }
SCENARIO(chan_sync_three_senders, 2) { flow(0, 3, 1, 1); }
SCENARIO(chan_sync_two_receivers, 2) { flow(0, 2, 1, 2); }

// no scheduling involved: order and acceptance
SCENARIO(chan_fifo, 1)
{
    int cap = pick(3);
    auto c = make_shared<Chan>(cap == 2 ? -1 : 3 + cap);
    int n = pick(4);
    spawn("a", [=] {
        for (int r = 0; r < 2; ++r)
        {
            for (int i = 0; i < n; ++i)
                require(send(*c, i + r * 10), "a send with room was refused");
            require(c->empty() == (n == 0), "empty() is wrong");
            for (int i = 0; i < n; ++i)
            {
                auto v = recv(*c);
                require(v && *v == i + r * 10, "values are not received in the order they were sent");
            }
        }
        require(!c->closed(), "an open channel claims to be closed");
        for (int i = 0; i < n; ++i)
            require(send(*c, i), "a send with room was refused");
        close(*c);
        require(c->closed(), "a closed channel claims to be open");
        require(!send(*c, 99), "a send on a closed channel was accepted");
        for (int i = 0; i < n; ++i)
        {
            auto v = recv(*c);
            require(v && *v == i, "values left in a closed channel were lost");
        }
        require(!recv(*c), "a closed and drained channel delivered a value");
        close(*c);
        require(!recv(*c), "a closed and drained channel delivered a value");
    });
    run();
    require_all_done();
}

// closing wakes everybody
static void close_wakes(int cap, int senders, int receivers)
{
    auto c = make_shared<Chan>(cap);
    auto refused = make_shared<int>(0);
    if (senders && cap > 0)
    {
        spawn("fill", [=] {
            for (int i = 0; i < cap; ++i)
                require(send(*c, -1), "a send with room was refused");
        });
        run();
    }
    for (int i = 0; i < senders; ++i)
        spawn("s" + to_string(i), [=] {
            if (!send(*c, i))
                ++*refused;
        });
    for (int i = 0; i < receivers; ++i)
        spawn("r" + to_string(i), [=] {
            require(!recv(*c), "a closed and drained channel delivered a value");
        });
    auto held = make_shared<bool>(false);
    spawn("c", [=] {
        if (pick(2))
            for (int i = 0; i < 20; ++i)
                relax();
        close(*c);
    });
    run();
    require_all_done();
    if (cap > 0)
        require(*refused == senders, "a send was accepted although the channel was full until it was closed");
}
SCENARIO(chan_close_receivers, 2) { close_wakes(1, 0, 2); }
SCENARIO(chan_close_senders, 2) { close_wakes(1, 2, 0); }
SCENARIO(chan_close_unlimited, 2) { close_wakes(-1, 0, 2); }
SCENARIO(chan_sync_close_senders, 2) { close_wakes(0, 2, 0); }
SCENARIO(chan_sync_close_receivers, 2) { close_wakes(0, 0, 2); }

// nobody stays blocked when room or a value appears
SCENARIO(chan_wake_senders, 2)
{
    int cap = 1 + pick(2);
    auto c = make_shared<Chan>(cap);
    for (int i = 0; i < 2; ++i)
        spawn("s" + to_string(i), [=] {
            require(send(*c, i) && send(*c, 10 + i), "a send on an open channel was refused");
        });
    spawn("r", [=] {
        for (int i = 0; i < 4 - cap; ++i)
            require(!!recv(*c), "a receive on an open channel reported the end");
    });
    run();
    require_all_done();
}
SCENARIO(chan_wake_receivers, 2)
{
    int cap = pick(3) - 1;
    auto c = make_shared<Chan>(cap);
    for (int i = 0; i < 2; ++i)
        spawn("r" + to_string(i), [=] {
            require(!!recv(*c), "a receive on an open channel reported the end");
        });
    spawn("s", [=] {
        require(send(*c, 1) && send(*c, 2), "a send on an open channel was refused");
    });
    run();
    require_all_done();
}

// a send on a full channel stays blocked until there is room
SCENARIO(chan_full_blocks, 2)
{
    int cap = 1 + pick(2);
    auto c = make_shared<Chan>(cap);
    auto sent = make_shared<int>(0);
    spawn("s", [=] {
        for (int i = 0; i < cap + 1; ++i)
        {
            require(send(*c, i), "a send on an open channel was refused");
            ++*sent;
        }
    });
    run();
    require(*sent == cap && is_blocked("s"), "a send on a full channel did not wait");
    spawn("r", [=] {
        auto v = recv(*c);
        require(v && *v == 0, "values are not received in the order they were sent");
    });
    run();
    require_all_done();
}

SCENARIO(chan_sync_turns, 2)
{
    auto c = make_shared<Chan>(0);
    int n = 1 + pick(3);
    auto sent = make_shared<int>(0);
    for (int i = 0; i < n; ++i)
        spawn("s" + to_string(i), [=] {
            require(send(*c, i), "a send on an open channel was refused");
            ++*sent;
        });
    run();
    require(*sent == 0, "an unbuffered send returned before its value was taken");
    for (int k = 1; k <= n; ++k)
    {
        spawn("r" + to_string(k), [=] {
            require(!!recv(*c), "a receive on an open channel reported the end");
        });
        run();
        require(is_done("r" + to_string(k)), "a receive stays blocked although a sender is there");
        require(*sent == k, "not exactly the sender whose value was taken has returned");
    }
    require_all_done();
}

// ------------------------------------------------------------------ iteration, operators
SCENARIO(chan_iter, 2)
{
    int cap = pick(3) - 1;
    auto c = make_shared<Chan>(cap);
    int n = pick(3);
    auto got = make_shared<vector<int> >();
    spawn("p", [=] {
        for (int i = 0; i < n; ++i)
            require(send(*c, i), "a send on an open channel was refused");
        close(*c);
    });
    spawn("i", [=] {
        for (auto &v : *c)
            got->push_back(v);
    });
    run();
    require_all_done();
    vector<int> want;
    for (int i = 0; i < n; ++i)
        want.push_back(i);
    require(*got == want, "the iteration did not visit exactly the values of the channel in order");
}

// several iterations share the values, none ends early, none visits something that is not there
SCENARIO(chan_iter_two, 2)
{
    auto c = make_shared<Chan>(pick(2) ? 1 : -1);
    auto got = make_shared<std::multiset<int> >();
    for (int k = 0; k < 2; ++k)
        spawn("i" + to_string(k), [=] {
            for (auto it = lib([&] { return c->begin(); }); lib([&] { return it != c->end(); }); lib([&] { ++it; }))
                got->insert(*it);
        });
    spawn("p", [=] {
        for (int i = 0; i < 3; ++i)
            require(send(*c, i), "a send on an open channel was refused");
        close(*c);
    });
    run();
    require_all_done();
    require(*got == std::multiset<int>({0, 1, 2}), "the iterations did not visit exactly the values of the channel");
}

SCENARIO(chan_ops, 1)
{
    auto c = make_shared<Chan>(pick(2) ? 4 : -1);
    struct Pair
    {
        int a;
    };
    spawn("a", [=] {
        int v = 7;
        require(lib([&] { return *c < 1; }), "a send through an operator was refused");
        lib([&] { *c << 2 << 3; });
        require(lib([&] { return *c > v; }) && v == 1, "a receive through an operator is wrong");
        int w = 0;
        lib([&] { *c >> v >> w; });
        require(v == 2 && w == 3, "a receive through an operator is wrong");
        require(lib([&] { return *c < 5; }), "a send through an operator was refused");
        close(*c);
        require(!lib([&] { return *c < 4; }), "a send on a closed channel was accepted");
        lib([&] { *c << 6; });
        auto it = c->begin();
        require(it != c->end() && *it == 5 && *it.operator->() == 5, "iteration is wrong");
        ++it;
        require(!(it != c->end()), "iteration does not end");
        v = 42;
        require(!lib([&] { return *c > v; }) && v == 42, "a failed receive through an operator changed the target or claimed success");
        bool failed = false;
        try
        {
            lib([&] { *c >> v; });
        }
        catch (std::bad_optional_access &)
        {
            failed = true;
        }
        require(failed && v == 42, "a failed receive through an operator changed the target or claimed success");
    });
    run();
    require_all_done();
}
