// Scenarios for the life of coroutines and their stacks, on the repository's own scheduler.
#include "plain.h"
#include <algorithm>
using namespace cocpp;
using namespace pl;
using std::make_shared;
using std::make_unique;
using std::unique_ptr;
using std::vector;

extern "C" int __asan_address_is_poisoned(void const volatile *) __attribute__((weak));

// stacks that are given back stay reserved and cannot be accessed until the scenario is over
static std::map<void *, size_t> mapped;
static vector<std::pair<void *, size_t>> given_back;
namespace cocpp
{
void co_manager::create_background_task__()
{
}
void set_up_signal_handler(const std::vector<int> &)
{
}
void *alloc_mem_by_mmap(size_t size)
{
    void *p = mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mapped[p] = size;
    return p;
}
bool free_mem_by_munmap(void *p, size_t size)
{
    auto it = mapped.find(p);
    require(it != mapped.end(), "a stack is given back that is not in use");
    require(it->second == size, "a stack is given back with another size");
    mapped.erase(it);
    mprotect(p, size, PROT_NONE);
    given_back.push_back({p, size});
    return true;
}
}

// timers expire when the scenario says so
struct Timed
{
    std::shared_ptr<co_timer> t;
    bool on = true;
    bool taken = false; // the service has taken it and is about to run it
};
static vector<Timed> timed;
namespace cocpp
{
void co_timer::start()
{
    timed.push_back({shared_from_this()});
}
void co_timer::stop()
{
    for (auto &e : timed)
        if (e.t.get() == this)
            e.on = false;
}
}
static void take_timer()
{
    for (auto &e : timed)
        if (e.on)
            e.on = false, e.taken = true;
}
static void run_timer()
{
    for (auto &e : timed)
        if (e.taken)
        {
            e.taken = false;
            e.t->run();
        }
}

namespace
{
struct Rec
{
    int id;
    co_ctx *ctx = nullptr;
    void *stack = nullptr;
    bool shared = false;
    bool ended = false;    // its function is over
    bool released = false; // its handle has given it up
};
vector<unique_ptr<Rec>> recs;
co_env *env;

void audit(const char *when)
{
    for (auto &r : recs)
        if (r->ctx && !(r->ended && r->released))
        {
            bool gone = __asan_address_is_poisoned && __asan_address_is_poisoned(r->ctx);
            if (gone || (r->stack && !mapped.count(r->stack)))
            {
                note("coroutine %d, ended=%d, given up=%d (%s)", r->id, r->ended, r->released, when);
                fail(!r->ended ? "a coroutine was reclaimed before it finished" : "a coroutine was reclaimed although its handle still refers to it");
            }
        }
}

struct Handle
{
    unique_ptr<co> h;
    Rec *rec = nullptr;
    bool waited = false;
};

std::function<void(co_ctx_config &)> with(bool shared, size_t size)
{
    return [shared, size](co_ctx_config &c) {
        c.bind_env = env;
        c.shared_stack = shared;
        c.stack_size = size;
    };
}

void consume(int depth, std::function<void()> f)
{
    volatile char pad[600];
    for (size_t i = 0; i < sizeof pad; ++i)
        pad[i] = (char)(i * 7 + depth);
    if (depth > 0)
        consume(depth - 1, f);
    else
        f();
    for (size_t i = 0; i < sizeof pad; ++i)
        if (pad[i] != (char)(i * 7 + depth))
            fail("the contents of a coroutine's stack changed while it was suspended");
}

Handle start(Rng &r, bool may_share, bool may_throw)
{
    recs.push_back(make_unique<Rec>());
    Rec *rec = recs.back().get();
    rec->id = (int)recs.size() - 1;
    rec->shared = may_share && r(2);
    int yields = r(5), depth = r(6);
    bool throws = may_throw && r(4) == 0;
    Handle h;
    h.rec = rec;
    h.h.reset(new co({with(rec->shared, 128 * 1024)}, [rec, yields, depth, throws] {
        consume(depth, [&] {
            for (int i = 0; i < yields; ++i)
            {
                this_co::yield();
                audit("a coroutine goes on");
            }
        });
        rec->ended = true;
        if (throws)
            throw rec->id;
    }));
    rec->ctx = h.h->ctx__;
    if (!rec->shared)
        rec->stack = rec->ctx->stack()->stack();
    return h;
}

void quiet(Handle &h)
{
    if (h.h && h.h->ctx__)
        try
        {
            h.h->wait<void>();
        }
        catch (int)
        {
        }
}

void world(std::function<void()> root, bool root_shared = false)
{
    recs.clear();
    mapped.clear();
    timed.clear();
    for (auto &g : given_back)
        munmap(g.first, g.second);
    given_back.clear();
    current_env__ = nullptr;
    env = co_env_factory::create_env_from_this_thread(1 << 18);
    env->set_state(co_env_state::idle);
    size_t before = mapped.size();
    bool over = false;
    co_ctx_config cfg;
    with(root_shared, 256 * 1024)(cfg);
    co_manager::instance()->create_and_schedule_ctx(
        cfg, [&](co_any &) {
            root();
            over = true;
            env->stop_schedule();
        },
        false);
    env->schedule_in_this_thread();
    require(over, "the scheduler ended although coroutines are left");
    size_t left = mapped.size() - before - (env->shared_stack__ ? 1 : 0);
    note("%zu stacks left", left);
    if (strncmp(scn_name, "stack", 5) == 0)
        require(left == 0, "stack memory stays allocated after its coroutine is gone");
}
}

// everybody finished and was given up: all are reclaimed
static void gone()
{
    for (int i = 0; i < 4; ++i)
        this_co::yield();
    for (auto &c : recs)
        require(__asan_address_is_poisoned(c->ctx), "a coroutine that was given up was never reclaimed");
}

SCENARIO(life_handles)
{
    Rng r(pick(100000) + 1);
    bool share = r(2), thr = r(2);
    world([&] {
        vector<Handle> hs;
        for (int n = 8 + r(30); n-- > 0;)
        {
            audit("between operations");
            int k = hs.empty() ? -1 : r((int)hs.size());
            switch (hs.empty() ? 0 : r(9))
            {
            case 0:
                hs.push_back(start(r, share, thr));
                break;
            case 1:
            case 2:
                this_co::yield();
                break;
            case 3: {
                Rec *c = hs[k].rec;
                note("detach %d", c ? c->id : -1);
                hs[k].h->detach();
                require(hs[k].h->ctx__ == nullptr && hs[k].h->id() == 0, "a detached handle still refers to a coroutine");
                if (c)
                    c->released = true;
                hs[k].rec = nullptr;
                break;
            }
            case 4: {
                Rec *c = hs[k].rec;
                note("join %d", c ? c->id : -1);
                try
                {
                    hs[k].h->join();
                }
                catch (int)
                {
                }
                if (c)
                {
                    require(c->ended, "a join returned before the coroutine finished");
                    c->released = true;
                }
                require(hs[k].h->ctx__ == nullptr, "a joined handle still refers to a coroutine");
                hs[k].rec = nullptr;
                break;
            }
            case 5: {
                Rec *c = hs[k].rec;
                note("destroy the handle of %d", c ? c->id : -1);
                quiet(hs[k]);
                hs.erase(hs.begin() + k);
                if (c)
                {
                    require(c->ended, "a handle was destroyed before its coroutine finished");
                    c->released = true;
                }
                break;
            }
            case 6: {
                note("move %d", hs[k].rec ? hs[k].rec->id : -1);
                Handle n;
                n.rec = hs[k].rec;
                n.h.reset(new co(std::move(*hs[k].h)));
                require(hs[k].h->ctx__ == nullptr && hs[k].h->id() == 0, "a moved-from handle still refers to a coroutine");
                require(n.h->ctx__ == (n.rec ? n.rec->ctx : nullptr), "a moved handle does not refer to the coroutine");
                if (r(2))
                    hs[k].h->detach();
                else
                    hs[k].h->join();
                hs[k].h = std::move(n.h);
                break;
            }
            case 7: {
                int j = r((int)hs.size());
                Rec *c = hs[j].rec;
                note("assign %d to the handle of %d", hs[k].rec ? hs[k].rec->id : -1, c ? c->id : -1);
                if (j != k)
                    quiet(hs[j]);
                *hs[j].h = std::move(*hs[k].h);
                if (j == k)
                {
                    require(hs[k].h->ctx__ == (c ? c->ctx : nullptr), "a handle assigned to itself lost its coroutine");
                    break;
                }
                if (c)
                {
                    require(c->ended, "a handle was assigned to before its coroutine finished");
                    c->released = true;
                }
                require(hs[k].h->ctx__ == nullptr, "a moved-from handle still refers to a coroutine");
                require(hs[j].h->ctx__ == (hs[k].rec ? hs[k].rec->ctx : nullptr), "an assigned handle does not refer to the coroutine");
                hs[j].rec = hs[k].rec;
                hs[k].rec = nullptr;
                break;
            }
            case 8:
                quiet(hs[k]);
                if (hs[k].rec)
                    require(hs[k].rec->ended, "a wait returned before the coroutine finished");
                break;
            }
        }
        for (auto &h : hs)
        {
            quiet(h);
            h.h->detach();
            if (h.rec)
                h.rec->released = true;
        }
        bool all = false;
        while (!all)
        {
            this_co::yield();
            all = true;
            for (auto &c : recs)
                all = all && c->ended;
        }
        gone();
    },
          share && r(2));
}

SCENARIO(life_order)
{
    // the handle is given up before, while or after the coroutine runs
    int shared = pick(2), root_shared = pick(2), yields = pick(3), when = pick(4), how = pick(4), after = pick(3);
    world([&] {
        recs.push_back(make_unique<Rec>());
        Rec *rec = recs.back().get();
        rec->shared = shared;
        auto h = make_unique<co>(co({with(shared, 64 * 1024)}, [rec, yields] {
            for (int i = 0; i < yields; ++i)
            {
                this_co::yield();
                audit("the coroutine goes on");
            }
            rec->ended = true;
        }));
        rec->ctx = h->ctx__;
        if (!shared)
            rec->stack = rec->ctx->stack()->stack();
        for (int i = 0; i < when; ++i)
        {
            this_co::yield();
            audit("held");
        }
        if (how == 0)
            h->detach();
        if (how == 1)
            h->join();
        if (how == 2)
            h.reset();
        if (how == 3)
        {
            co none({with(false, 64 * 1024)}, [] {});
            none.detach();
            *h = std::move(none);
            require(h->ctx__ == nullptr, "an assigned handle still refers to its old coroutine");
        }
        if (how)
            require(rec->ended, "a handle was given up before its coroutine finished");
        rec->released = true;
        for (int i = 0; i < after || !rec->ended; ++i)
        {
            this_co::yield();
            audit("given up");
        }
        gone();
    },
          root_shared);
}

SCENARIO(stack_contents)
{
    // what a coroutine has on its stack survives whatever the others do
    Rng r(pick(100000) + 1);
    int n = 2 + r(5), mode = r(3);
    world([&] {
        vector<unique_ptr<co>> cs;
        for (int i = 0; i < n; ++i)
        {
            bool shared = mode == 0 || (mode == 1 && r(2));
            auto seed = r(1 << 20);
            cs.push_back(unique_ptr<co>(new co({with(shared, 192 * 1024)}, [seed] {
                Rng q(seed + 1);
                for (int k = 0; k < 4; ++k)
                    consume(q(40), [&] {
                        for (int y = q(4); y-- > 0;)
                        {
                            consume(q(60), [] {});
                            this_co::yield();
                        }
                    });
            })));
            if (r(2))
                this_co::yield();
        }
        for (auto &c : cs)
            if (r(3) == 0)
                c->detach();
        consume(r(20), [&] {
            for (int i = 0; i < 60; ++i)
                this_co::yield();
        });
        for (auto &c : cs)
            c->join();
    },
          r(2));
}

SCENARIO(stack_shrink)
{
    // a stack is trimmed after many switches: only what is not in use goes
    int shared = pick(2), depth = pick(4) * 30, swing = pick(3) * 60;
    world([&] {
        co a({with(shared, 256 * 1024)}, [&] {
            consume(depth, [&] {
                for (int i = 0; i < 2200; ++i)
                {
                    consume(swing, [] {});
                    this_co::yield();
                }
            });
        });
        consume(depth / 2, [&] {
            for (int i = 0; i < 2200; ++i)
                this_co::yield();
        });
        a.join();
    });
}

static void preempt(int, siginfo_t *, void *uc)
{
    switch_from_outside(reinterpret_cast<sigcontext_64 *>(&reinterpret_cast<ucontext_t *>(uc)->uc_mcontext));
}

// what a leaf function keeps below its stack pointer, over a preemption
__attribute__((noinline)) static long leaf(long pid, long tid)
{
    long lost = 0;
    asm volatile("movq $16, %%rcx\n"
                 "1: movq %%rcx, %%rax\n"
                 "negq %%rax\n"
                 "movq %%rcx, (%%rsp,%%rax,8)\n"
                 "decq %%rcx\n"
                 "jnz 1b\n"
                 "movq $234, %%rax\n"
                 "syscall\n"
                 "movq $16, %%rcx\n"
                 "2: movq %%rcx, %%rax\n"
                 "negq %%rax\n"
                 "cmpq %%rcx, (%%rsp,%%rax,8)\n"
                 "je 3f\n"
                 "incq %0\n"
                 "3: decq %%rcx\n"
                 "jnz 2b\n"
                 : "+r"(lost)
                 : "D"(pid), "S"(tid), "d"(SIGUSR1)
                 : "rax", "rcx", "r11", "memory", "cc");
    return lost;
}

SCENARIO(stack_preempt)
{
    // a coroutine on the shared stack loses the processor at any point: nothing of its stack is lost
    int others = 1 + pick(3), own = pick(2), depth = pick(4) * 9, times = 1 + pick(3);
    struct sigaction sa = {};
    sa.sa_sigaction = preempt;
    sa.sa_flags = SA_SIGINFO;
    sigaction(SIGUSR1, &sa, nullptr);
    world([&] {
        vector<unique_ptr<co>> cs;
        for (int i = 0; i < others; ++i)
            cs.push_back(unique_ptr<co>(new co({with(own == 0 || i > 0, 128 * 1024)}, [&, i] {
                consume(depth + i, [&] {
                    for (int k = 0; k < times; ++k)
                    {
                        consume(depth, [] {});
                        require(leaf(::getpid(), ::gettid()) == 0, "the contents of a coroutine's stack changed while it was suspended");
                    }
                });
            })));
        for (int i = 0; i < 40; ++i)
            consume(depth, [] { this_co::yield(); });
        for (auto &c : cs)
            c->join();
    });
}

SCENARIO(join_value)
{
    // several wait for one: everybody gets the value, the first one the error, and keeps their priority
    int yields = pick(4), waiters = 1 + pick(3), throws = pick(2), limited = pick(3), late = pick(3);
    world([&] {
        bool ended = false;
        int got = 0, errors = 0, over = 0;
        auto h = make_unique<co>(co({with(false, 64 * 1024), with_priority(40)}, [&]() -> int {
            for (int i = 0; i < yields; ++i)
                this_co::yield();
            ended = true;
            if (throws)
                throw 5;
            return 4711;
        }));
        vector<unique_ptr<co>> ws;
        for (int w = 0; w < waiters; ++w)
        {
            ws.push_back(make_unique<co>(co({with(false, 64 * 1024), with_priority(30 + w)}, [&, w] {
                auto me = env->current_ctx();
                auto before = me->priority();
                for (int i = 0; i < late * w; ++i)
                    this_co::yield();
                try
                {
                    int v;
                    if (limited > w)
                    {
                        auto r = h->wait_for(std::chrono::milliseconds(10));
                        require(r.has_value(), "a timed wait returned without a result although its time is not over");
                        v = *r;
                    }
                    else
                        v = h->wait<int>();
                    require(v == 4711 || throws, "the waiter received another value");
                    ++got;
                }
                catch (int e)
                {
                    require(throws && e == 5, "the waiter received another error");
                    ++errors;
                }
                catch (std::bad_cast &)
                {
                    require(throws, "the waiter did not receive the value");
                    ++got;
                }
                require(ended, "a wait returned before the coroutine finished");
                require(me->priority() == before, "the waiter came back with another priority");
                ++over;
            })));
        }
        for (int i = 0; i < 60 && over < waiters; ++i)
            this_co::yield();
        require(over == waiters, "a waiter was not woken by the completion");
        require(errors == throws, "the error was not delivered to exactly one waiter");
        for (auto &w : ws)
            w->join();
    });
}

SCENARIO(join_timed)
{
    // completion and expiry in any order; the expiry may be under way when the wait returns
    int finish = pick(5), expire = pick(5), run = pick(8), again = pick(2);
    world([&] {
        bool ended = false;
        int over = 0;
        auto h = make_unique<co>(co({with(false, 64 * 1024)}, [&] {
            for (int i = 0; i < finish; ++i)
                this_co::yield();
            ended = true;
        }));
        auto w = make_unique<co>(co({with(false, 64 * 1024), with_priority(20)}, [&] {
            auto me = env->current_ctx();
            auto before = me->priority();
            for (int k = 0; k <= again; ++k)
            {
                auto r = h->wait_for(std::chrono::milliseconds(10));
                require(r.has_value() == ended, "a timed wait reported something else than whether the coroutine has finished");
                require(me->priority() == before, "the waiter came back with another priority");
                ++over;
                if (r.has_value())
                    break;
            }
            h->detach();
            over = 10;
        }));
        auto wc = w->ctx__;
        for (int i = 0; i < 12; ++i)
        {
            if (i == expire)
                take_timer();
            if (i == expire + run)
                run_timer();
            this_co::yield();
            if (over == 10 && w)
            {
                w->join();
                w.reset();
            }
            if (i > expire + run && ended)
                take_timer(), run_timer();
        }
        for (int i = 0; i < 6; ++i)
        {
            take_timer();
            run_timer();
            this_co::yield();
        }
        require(over == 10, "a timed wait did not end although its time is over");
        (void)wc;
        if (w)
            w->join();
        auto left = h->ctx__;
        require(left == nullptr, "the handle still refers to a coroutine");
    });
}
