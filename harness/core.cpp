// Scenarios for the scheduler's choice, the run queues, waiting and priorities, on the repository's own scheduler.
#include "plain.h"
using namespace cocpp;
using namespace pl;
using std::make_shared;
using std::string;
using std::vector;

static bool background = false;
namespace cocpp
{
void co_manager::create_background_task__()
{
}
void set_up_signal_handler(const std::vector<int> &)
{
}
}

// ---------------------------------------------------------------- a model of who runs next
namespace
{
struct Co
{
    int id;
    int prio;
    std::set<long> waits;
    bool finished = false;
    co_ctx *ctx = nullptr;
};
struct World
{
    co_env *env = nullptr;
    std::map<int, std::deque<Co *>> q; // by priority, least recently chosen first
    vector<std::unique_ptr<Co>> all;
    Co *cur = nullptr;
    int live = 0, dead = 0;
    bool stopping = false;

    static int clamp(long p)
    {
        return p < 0 ? 0 : p >= CO_MAX_PRIORITY ? CO_MAX_PRIORITY - 1 : (int)p;
    }
    bool can_run(Co *c)
    {
        return !c->finished && c->waits.empty();
    }
    void out(Co *c)
    {
        auto &l = q[c->prio];
        l.erase(std::find(l.begin(), l.end(), c));
    }
    Co *choose(bool commit)
    {
        for (auto &kv : q)
            for (auto c : kv.second)
                if (can_run(c))
                {
                    if (commit)
                    {
                        out(c);
                        q[c->prio].push_back(c);
                    }
                    return c;
                }
        return nullptr;
    }
    Co *create(int p, bool shared, std::function<void(Co *)> body)
    {
        all.push_back(std::make_unique<Co>());
        Co *c = all.back().get();
        c->id = (int)all.size() - 1;
        c->prio = clamp(p);
        q[c->prio].push_back(c);
        ++live;
        co_ctx_config cfg;
        cfg.priority = p;
        cfg.bind_env = env;
        cfg.shared_stack = shared;
        cfg.stack_size = 64 * 1024;
        c->ctx = co_manager::instance()->create_and_schedule_ctx(
            cfg, [this, c, body](co_any &) {
                resumed(c);
                body(c);
                c->finished = true;
                --live;
                ++dead;
                out(c);
                // finished: somebody else must run now
                if (!live && !stopping)
                {
                    stopping = true;
                    env->stop_schedule();
                }
            },
            false);
        require((int)c->ctx->priority() == c->prio, "a new coroutine does not have the priority asked for, limited to the range");
        return c;
    }
    void counts()
    {
        int n = (int)env->ctx_count();
        require(n >= live && n <= live + dead, "the number of coroutines differs from the number queued");
        require(env->has_ctx() == (n > 0), "the environment reports wrongly whether it has coroutines");
        require((int)env->workload() == n, "the workload differs from the number of coroutines");
    }
    void resumed(Co *c)
    {
        Co *m = choose(true);
        note("coroutine %d (priority %d) runs, expected %d", c->id, c->prio, m ? m->id : -1);
        require(!c->finished, "a finished coroutine was resumed");
        require(c->waits.empty(), "a waiting coroutine was resumed");
        require(m == nullptr || m->prio >= c->prio, "a less urgent coroutine runs although a more urgent one is runnable");
        require(m == nullptr || m->prio <= c->prio, "a coroutine runs that is not to be chosen");
        require(m == c, "coroutines of equal priority do not take turns");
        require(env->current_ctx() == c->ctx || c->ctx == nullptr, "the current coroutine is not the one that runs");
        cur = c;
        counts();
    }
    void yield(Co *c)
    {
        env->schedule_switch();
        resumed(c);
    }
    void set_priority(Co *c, int p)
    {
        int n = clamp(p);
        if (n != c->prio)
        {
            out(c);
            c->prio = n;
            q[n].push_back(c);
        }
        c->ctx->set_priority(p);
        require((int)c->ctx->priority() == n, "the priority is not the one set, limited to the range");
        counts();
    }
    void wait_on(Co *c, long r)
    {
        c->waits.insert(r);
        c->ctx->enter_wait_resource_state((void *)r);
        require(!c->ctx->can_schedule(), "a coroutine that waits is runnable");
    }
    void wake(Co *c, long r)
    {
        c->waits.erase(r);
        c->ctx->leave_wait_resource_state((void *)r);
        require(c->finished || c->ctx->can_schedule() == c->waits.empty(), "a coroutine is runnable exactly if it waits for nothing");
    }
    bool other_runnable(Co *c)
    {
        for (auto &o : all)
            if (o.get() != c && can_run(o.get()))
                return true;
        return false;
    }
    void go(std::function<void()> first)
    {
        current_env__ = nullptr;
        env = co_env_factory::create_env_from_this_thread(1 << 16);
        env->set_state(co_env_state::idle);
        first();
        if (live)
            env->schedule_in_this_thread();
        require(live == 0, "the scheduler ended although coroutines are left");
        require(env->ctx_count() == 0, "finished coroutines stay queued after the end");
    }
};
}

static const int PRIOS[] = {0, 3, 3, 50, 99, 1, 98, 7};

SCENARIO(sched_random)
{
    Rng r(pick(100000) + 1);
    World w;
    int budget = 60;
    std::function<void(Co *)> body = [&](Co *c) {
        int n = 3 + r(12);
        while (n-- > 0 && budget-- > 0)
        {
            Co *o = w.all[r((int)w.all.size())].get();
            switch (r(9))
            {
            case 0:
            case 1:
            case 2:
                w.yield(c);
                break;
            case 3:
                w.set_priority(c, PRIOS[r(8)]);
                break;
            case 4:
                if (!o->finished)
                    w.set_priority(o, r(5) == 0 ? (r(2) ? -5 : 1000) : PRIOS[r(8)]);
                break;
            case 5:
            case 6:
                if (w.other_runnable(c))
                {
                    w.wait_on(c, 1 + r(2));
                    if (r(3) == 0)
                        w.wait_on(c, 3);
                    w.yield(c);
                }
                break;
            case 7:
                if (!o->finished && o != c)
                    w.wake(o, 1 + r(3));
                break;
            case 8:
                if (w.all.size() < 12)
                    w.create(PRIOS[r(8)], false, body);
                break;
            }
        }
        for (auto &o : w.all)
            if (o.get() != c && !o->finished)
                for (long k = 1; k <= 3; ++k)
                    if (o->waits.count(k))
                        w.wake(o.get(), k);
    };
    w.go([&] {
        int k = 2 + r(5);
        for (int i = 0; i < k; ++i)
            w.create(PRIOS[r(8)], false, body);
    });
}

SCENARIO(sched_turns)
{
    // equal priorities take turns, whoever is woken waits its turn
    World w;
    int n = 2 + pick(4);
    int p = pick(3) * 49;
    int blocked = pick(n);
    w.go([&] {
        for (int i = 0; i < n; ++i)
            w.create(p, false, [&, i](Co *c) {
                for (int k = 0; k < 4; ++k)
                {
                    if (i == blocked && k == 1 && w.other_runnable(c))
                        w.wait_on(c, 1);
                    w.yield(c);
                    for (auto &o : w.all)
                        if (k >= 2 && !o->waits.empty())
                            w.wake(o.get(), 1);
                }
                for (auto &o : w.all)
                    if (!o->waits.empty() && o.get() != c)
                        w.wake(o.get(), 1);
            });
    });
}

SCENARIO(sched_urgent)
{
    // a more urgent coroutine that becomes runnable runs next
    World w;
    int a = pick(5) * 24, b = pick(5) * 24;
    int how = pick(3);
    w.go([&] {
        w.create(a, false, [&](Co *c) {
            Co *o = nullptr;
            if (how == 0)
                o = w.create(b, false, [&](Co *d) { w.yield(d); });
            if (how == 1)
            {
                o = w.create(99, false, [&](Co *d) { w.yield(d); });
                w.set_priority(o, b);
            }
            if (how == 2)
            {
                o = w.create(b, false, [&](Co *d) {
                    w.wait_on(d, 5);
                    w.yield(d);
                    w.yield(d);
                });
                w.set_priority(c, 99);
                w.yield(c);
                w.set_priority(c, a);
                w.yield(c);
                if (!o->waits.empty())
                    w.wake(o, 5);
            }
            w.yield(c);
            w.yield(c);
            if (!o->waits.empty())
                w.wake(o, 5);
        });
    });
}

SCENARIO(sched_stop)
{
    // stopping: nobody is chosen any more although somebody is runnable
    World w;
    int n = 1 + pick(3);
    bool after = false;
    current_env__ = nullptr;
    w.env = co_env_factory::create_env_from_this_thread(1 << 16);
    w.env->set_state(co_env_state::idle);
    for (int i = 0; i < n; ++i)
    {
        co_ctx_config cfg;
        cfg.bind_env = w.env;
        co_manager::instance()->create_and_schedule_ctx(
            cfg, [&](co_any &) {
                require(!after, "a coroutine is chosen although the environment is to end");
                after = true;
                w.env->stop_schedule();
                w.env->schedule_switch();
                require(false, "a coroutine is chosen although the environment is to end");
            },
            false);
    }
    w.env->schedule_in_this_thread();
    require(w.env->ctx_count() == 0, "coroutines stay queued after the end of their environment");
}

// ---------------------------------------------------------------- the queues themselves
SCENARIO(queue_move)
{
    // add, take and move between environments: every coroutine is queued exactly once
    Rng r(pick(100000) + 1);
    current_env__ = nullptr;
    co_env *e[2];
    for (auto &x : e)
    {
        x = co_env_factory::create_env_from_this_thread(1 << 16);
        x->set_state(co_env_state::idle);
    }
    struct Item
    {
        co_ctx *c;
        int at; // which environment, -1 nowhere
    };
    vector<Item> items;
    auto check = [&] {
        int n[2] = {0, 0};
        for (auto &i : items)
            if (i.at >= 0)
            {
                ++n[i.at];
                require(i.c->env() == e[i.at], "a coroutine does not know the environment it is queued in");
            }
        for (int k = 0; k < 2; ++k)
            require((int)e[k]->ctx_count() == n[k], "the number of coroutines differs from the number queued");
    };
    for (int i = 0; i < 4; ++i)
    {
        co_ctx_config cfg;
        cfg.priority = PRIOS[r(8)];
        cfg.stack_size = 8192;
        if (r(3) == 0)
            cfg.bind_env = e[0];
        auto c = co_ctx_factory::create_ctx(cfg, [](co_any &) {});
        co_manager::instance()->subscribe_ctx_event__(c);
        items.push_back({c, 0});
        e[0]->add_ctx(c);
        check();
    }
    auto find = [&](co_ctx *c) -> Item * {
        for (auto &i : items)
            if (i.c == c)
                return &i;
        require(false, "something that is no coroutine was taken from a queue");
        return nullptr;
    };
    for (int step = 0; step < 30; ++step)
    {
        int k = r(2);
        switch (r(5))
        {
        case 0: {
            auto c = e[k]->take_one_movable_ctx();
            bool any = false;
            for (auto &i : items)
                any |= i.at == k && i.c->can_move();
            require(!c || any, "a coroutine was taken although none may be moved");
            if (c)
            {
                auto i = find(c);
                require(i->at == k, "a coroutine was taken from a queue it is not in");
                require(c->can_move(), "a coroutine that must stay was taken");
                i->at = -1;
                check();
                i->at = 1 - k;
                e[1 - k]->move_ctx_to_here(c);
            }
            break;
        }
        case 1: {
            auto l = e[k]->take_all_movable_ctx();
            std::set<co_ctx *> seen;
            for (auto c : l)
            {
                auto i = find(c);
                require(i->at == k && c->can_move() && seen.insert(c).second, "a coroutine was taken that must not be");
                i->at = -1;
            }
            check();
            for (auto c : l)
            {
                e[1 - k]->move_ctx_to_here(c);
                find(c)->at = 1 - k;
            }
            break;
        }
        case 2: {
            auto &i = items[r((int)items.size())];
            if (i.at >= 0)
                i.c->set_priority(PRIOS[r(8)]);
            break;
        }
        case 3: {
            // everybody can be chosen once, in turn
            std::set<co_ctx *> got;
            int n = 0;
            for (auto &i : items)
                n += i.at == k && i.c->can_schedule();
            int best = 1000, same = 0;
            for (auto &i : items)
                if (i.at == k && i.c->can_schedule())
                    best = std::min(best, (int)i.c->priority());
            for (auto &i : items)
                same += i.at == k && i.c->can_schedule() && (int)i.c->priority() == best;
            for (int t = 0; t < same; ++t)
            {
                auto c = e[k]->next_ctx__();
                auto i = find(c);
                require(i->at == k && (int)c->priority() == best && got.insert(c).second, "a runnable coroutine cannot be reached");
            }
            if (!n)
                require(e[k]->next_ctx__() == e[k]->idle_ctx__, "somebody was chosen although nobody is runnable");
            break;
        }
        case 4: {
            auto &i = items[r((int)items.size())];
            if (i.at < 0)
                break;
            if (i.c->can_schedule())
                i.c->enter_wait_resource_state(&i);
            else
                for (auto &j : items)
                    i.c->leave_wait_resource_state(&j);
            break;
        }
        }
        check();
    }
    for (auto &i : items)
        if (i.at >= 0)
        {
            int at = i.at;
            i.at = -1;
            e[at]->remove_ctx(i.c);
            check();
        }
}

// ---------------------------------------------------------------- waiting
SCENARIO(wait_marks)
{
    // any sequence of entering and leaving waits for three resources
    current_env__ = nullptr;
    auto env = co_env_factory::create_env_from_this_thread(1 << 16);
    env->set_state(co_env_state::idle);
    co_ctx_config cfg;
    cfg.stack_size = 8192;
    auto c = co_ctx_factory::create_ctx(cfg, [](co_any &) {});
    env->add_ctx(c);
    std::set<long> m;
    for (int i = 0; i < 6; ++i)
    {
        int k = pick(6);
        long res = 1 + k / 2;
        if (k & 1)
        {
            c->leave_wait_resource_state((void *)res);
            m.erase(res);
        }
        else
        {
            c->enter_wait_resource_state((void *)res);
            m.insert(res);
        }
        require(c->can_schedule() == m.empty(), "a coroutine is runnable exactly if it waits for nothing");
        require(env->next_ctx__() == (m.empty() ? c : env->idle_ctx__), "a waiting coroutine is chosen, or a runnable one is not");
    }
    c->leave_wait_resource_state((void *)1);
    c->leave_wait_resource_state((void *)2);
    c->leave_wait_resource_state((void *)3);
    env->remove_ctx(c);
}

SCENARIO(wait_wakes)
{
    // an environment with a thread of its own is woken whenever its only coroutine may go on
    auto env = co_env_factory::create_env(1 << 16);
    std::atomic<long> turn {0}, stop {0};
    co_ctx_config cfg;
    cfg.bind_env = env;
    long res = 7;
    std::atomic<co_ctx *> ctx {nullptr};
    ctx = co_manager::instance()->create_and_schedule_ctx(
        cfg, [&](co_any &) {
            auto me = env->current_ctx();
            while (!stop)
            {
                me->enter_wait_resource_state(&res);
                turn.fetch_add(1);
                env->schedule_switch();
                // resumed: it waits for nothing
                require(me->can_schedule(), "a waiting coroutine was resumed");
            }
            turn = -1;
        },
        false);
    int n = 200 + 100 * pick(20);
    int spin = pick(4) * 400;
    long seen = 0;
    double t0 = wall();
    for (int i = 0; i < n && wall() - t0 < 10; ++i)
    {
        double t = wall();
        while (turn.load() == seen)
            if (wall() - t > 15)
                fail("a coroutine that waits for nothing any more is not resumed by a sleeping environment");
        seen = turn.load();
        for (volatile int k = 0; k < spin; k = k + 1)
            ;
        if (i == n - 1)
            stop = 1;
        ctx.load()->leave_wait_resource_state(&res);
    }
    if (!stop)
    {
        while (turn.load() == seen)
            ;
        stop = 1;
        ctx.load()->leave_wait_resource_state(&res);
    }
    double t = wall();
    while (turn.load() != -1)
        if (wall() - t > 15)
            fail("a coroutine that waits for nothing any more is not resumed by a sleeping environment");
    env->stop_schedule();
    env->worker__.wait();
}

SCENARIO(wait_new)
{
    // a sleeping environment takes up a new coroutine
    auto env = co_env_factory::create_env(1 << 16);
    int n = 50 + pick(10);
    int spin = pick(4) * 3000;
    for (int i = 0; i < n; ++i)
    {
        std::atomic<bool> done {false};
        co_ctx_config cfg;
        cfg.bind_env = env;
        cfg.priority = PRIOS[i % 8];
        co_manager::instance()->create_and_schedule_ctx(cfg, [&](co_any &) { done = true; }, false);
        double t = wall();
        while (!done)
            if (wall() - t > 15)
                fail("a new coroutine is not taken up by a sleeping environment");
        for (volatile int k = 0; k < spin; k = k + 1)
            ;
    }
    env->stop_schedule();
    env->worker__.wait();
}

// ---------------------------------------------------------------- priorities and options
SCENARIO(prio_range)
{
    static const long P[] = {0, 1, 5, 42, 50, 98, 99, 100, 101, 1000, 2147483647L};
    static const int S[] = {0, 1, 50, 98, 99, 100, 101, -1, -2, -100, 2147483647, -2147483647 - 1};
    current_env__ = nullptr;
    auto env = co_env_factory::create_env_from_this_thread(1 << 16);
    env->set_state(co_env_state::idle);
    co_ctx_config cfg;
    cfg.stack_size = 8192;
    cfg.priority = P[pick(11)];
    bool queued = pick(2);
    auto c = co_ctx_factory::create_ctx(cfg, [](co_any &) {});
    int seen_old = -1, seen_new = -1, n = 0;
    c->priority_changed().sub([&](int o, int w) {
        seen_old = o;
        seen_new = w;
        ++n;
    });
    co_manager::instance()->subscribe_ctx_event__(c);
    require((int)c->priority() == World::clamp(cfg.priority), "a new coroutine does not have the priority asked for, limited to the range");
    int cur = World::clamp(cfg.priority);
    if (queued)
        env->add_ctx(c);
    for (int i = 0; i < 2; ++i)
    {
        int p = S[pick(12)];
        n = 0;
        c->set_priority(p);
        int want = World::clamp(p);
        require((int)c->priority() == want, "the priority is not the one set, limited to the range");
        if (queued)
        {
            require(n == (want != cur), "a change of priority is announced exactly if it changes");
            require(n == 0 || (seen_old == cur && seen_new == want), "a change of priority is announced with other values");
            require(env->ctx_count() == 1, "a change of priority changes the number of coroutines");
            require(env->next_ctx__() == c, "a coroutine is not found after its priority changed");
        }
        cur = want;
    }
    auto idle = env->idle_ctx__;
    auto ip = idle->priority();
    idle->set_priority(S[pick(3)]);
    require(idle->priority() == ip, "the priority of the idle coroutine changed");
    if (queued)
        env->remove_ctx(c);
}

SCENARIO(prio_options)
{
    co_ctx_config d;
    co_ctx_config c;
    bool s = pick(2), p = pick(2), b = pick(2), n = pick(2), sh = pick(2);
    int e = 0;
    if (s)
        with_stack_size(12345)(c);
    if (p)
        with_priority(17)(c);
    if (b)
        with_bind_env((co_env *)&e)(c);
    if (n)
        with_name("abc")(c);
    if (sh)
        with_shared_stack(true)(c);
    require(c.stack_size == (s ? 12345 : d.stack_size), "an option sets another stack size");
    require(c.priority == (p ? 17 : d.priority), "an option sets another priority");
    require(c.bind_env == (b ? (co_env *)&e : d.bind_env), "an option sets another environment");
    require(c.name == (n ? "abc" : d.name), "an option sets another name");
    require(c.shared_stack == (sh ? true : d.shared_stack), "an option sets another kind of stack");
    if (s)
        c.stack_size = 20480;
    auto x = co_ctx_factory::create_ctx(c, [](co_any &) {});
    require(x->name() == c.name, "a coroutine has another name than configured");
    require((int)x->priority() == (int)c.priority, "a coroutine has another priority than configured");
    require(x->test_flag(CO_CTX_FLAG_BIND) == b, "a coroutine is bound exactly if configured so");
    require(x->test_flag(CO_CTX_FLAG_SHARED_STACK) == sh, "a coroutine uses the shared stack exactly if configured so");
    require(sh ? x->stack() == nullptr : x->stack()->stack_size() >= c.stack_size, "a coroutine has a smaller stack than configured");
    co_ctx_factory::destroy_ctx(x);
}
