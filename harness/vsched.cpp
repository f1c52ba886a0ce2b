#include "vsched.h"
#include <algorithm>
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include <csignal>
#include <cxxabi.h>

using namespace cocpp;
using namespace std;

namespace __cxxabiv1
{
struct __cxa_eh_globals;
extern "C" __cxa_eh_globals *__cxa_get_globals() noexcept;
}

namespace vs
{
bool instrumented = false;
static bool fine = false; // also switch at memory accesses
int step_limit = 3000; // 10 times as many with memory accesses
constexpr size_t STK = 256 * 1024;
constexpr long TICK = 5000000; // each look at the clock takes 5 ms of virtual time

struct EhGlobals
{
    void *caught;
    unsigned int uncaught;
};

struct Task
{
    int id;
    string name;
    function<void()> fn;
    ucontext_t uc;
    char *stack;
    co_ctx *ctx;
    bool done = false;
    bool yielded = false;
    bool timer = false;
    int loud = 0;
    long pcount = 0;      // preemption count: each coroutine runs on a thread of its own until it gives it up
    bool pinned = false;  // interrupted where it could not be preempted: its thread goes on whatever its state
    string exc;
    EhGlobals eh {nullptr, 0};
};

// decided by a check of its own
#ifdef VS_PREEMPT
static const bool check_preempt = true;
#else
static const bool check_preempt = false;
#endif

struct Stop
{
};

struct Choice
{
    int c, n;
    bool data;
};

static vector<Task *> tasks;
static Task *cur = nullptr;
static ucontext_t main_uc;
static EhGlobals main_eh;
static co_env *env = nullptr;
static long vt = 0;
static vector<Choice> trace;
static vector<int> prefix;
static size_t pos = 0;
static bool failed = false;
static bool abandoned = false;
static string fail_msg;
static string notes;
static int steps = 0;
static vector<char *> stacks;
static char *shared_buf = nullptr; // what is being tried, survives a crash
static const size_t SHARED = 1 << 16;

vector<Scenario> &scenarios()
{
    static vector<Scenario> s;
    return s;
}
Reg::Reg(const char *n, function<void()> f, int depth)
{
    scenarios().push_back({n, f, depth});
}

static int choose(int n, bool data)
{
    if (n <= 1)
        return 0;
    int c = 0;
    if (pos < prefix.size())
        c = prefix[pos];
    if (c >= n)
        c = 0;
    ++pos;
    trace.push_back({c, n, data});
    return c;
}

long yields = 0;
int pick(int n)
{
    return choose(n, true);
}

void note(const char *fmt, ...)
{
    char b[512];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    notes += string("    ") + (cur ? cur->name : "main") + ": " + b + "\n";
}

static void swap_eh(EhGlobals &save, EhGlobals &load)
{
    auto g = reinterpret_cast<EhGlobals *>(__cxxabiv1::__cxa_get_globals());
    save = *g;
    *g = load;
}

static void to_main()
{
    Task *me = cur;
    me->pcount = env->schedule_lock__.count__;
    swap_eh(me->eh, main_eh);
    swapcontext(&me->uc, &main_uc);
}

static void to_task(Task *t)
{
    cur = t;
    t->pinned = false;
    env->curr_ctx__ = t->ctx;
    env->schedule_lock__.count__ = t->pcount;
    swap_eh(main_eh, t->eh);
    swapcontext(&main_uc, &t->uc);
    cur = nullptr;
    env->curr_ctx__ = nullptr;
}

static void fail(const string &m)
{
    if (!failed)
    {
        failed = true;
        fail_msg = m;
    }
    if (cur)
        to_main(); // never resumed
}

void require(bool c, const char *msg)
{
    if (c)
        return;
    fail(msg);
    throw Stop();
}

void abandon()
{
    abandoned = true;
    if (cur)
        to_main();
    throw Stop();
}

static void entry(unsigned lo, unsigned hi)
{
    Task *t = reinterpret_cast<Task *>((unsigned long)lo | ((unsigned long)hi << 32));
    try
    {
        t->fn();
    }
    catch (std::exception &e)
    {
        t->exc = e.what();
        fail("coroutine " + t->name + " ended with an unexpected exception: " + t->exc);
    }
    catch (...)
    {
        fail("coroutine " + t->name + " ended with an unexpected exception");
    }
    if (check_preempt && env->schedule_lock__.count__ != 0)
        fail("coroutine " + t->name + " ended with another preemption count than it began with");
    t->done = true;
    t->ctx->set_state(co_state::finished);
    to_main();
}

static Task *add(string name, function<void()> fn)
{
    Task *t = new Task;
    t->id = tasks.size();
    t->name = name;
    t->fn = fn;
    if (stacks.empty())
        t->stack = (char *)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    else
    {
        t->stack = stacks.back();
        stacks.pop_back();
    }
    co_ctx_config cfg;
    cfg.shared_stack = true; // the harness provides the stack
    t->ctx = co_ctx_factory::create_ctx(cfg, [](co_any &) {});
    t->ctx->unset_flag(CO_CTX_FLAG_SHARED_STACK);
    t->ctx->set_env(env);
    getcontext(&t->uc);
    t->uc.uc_stack.ss_sp = t->stack;
    t->uc.uc_stack.ss_size = STK;
    t->uc.uc_link = nullptr;
    makecontext(&t->uc, (void (*)())entry, 2, (unsigned)(unsigned long)t, (unsigned)((unsigned long)t >> 32));
    tasks.push_back(t);
    return t;
}

void spawn(string name, function<void()> fn)
{
    add(name, fn);
}

static bool runnable(Task *t)
{
    return !t->done && (t->pinned || t->ctx->can_schedule());
}

int self()
{
    return cur ? cur->id : -1;
}
co_ctx *self_ctx()
{
    return cur ? cur->ctx : nullptr;
}
long now_ns()
{
    return vt;
}
void advance_ns(long d)
{
    vt += d;
}
bool is_done(const string &n)
{
    for (auto t : tasks)
        if (t->name == n)
            return t->done;
    return false;
}
bool is_blocked(const string &n)
{
    for (auto t : tasks)
        if (t->name == n)
            return !runnable(t) && !t->done;
    return false;
}
long preempt_count()
{
    return !check_preempt ? 0 : env->schedule_lock().count();
}

static auto next_timer()
{
    auto &q = co_manager::instance()->timer_queue__;
    return q.empty() ? shared_ptr<co_timer>() : *q.begin();
}

static bool fire_timer(bool force)
{
    auto tm = next_timer();
    if (!tm)
        return false;
    long e = tm->expire_time__.time_since_epoch().count();
    if (e > vt)
    {
        if (!force)
            return false;
        vt = e;
    }
    if (tm->expire_type() == co_expire_type::once)
        tm->stop();
    else
        tm->reset();
    Task *t = add("timer", [tm] { tm->run(); });
    t->timer = true;
    t->loud = 1;
    return true;
}

// the next coroutine to run after `from` gave up the processor (from==nullptr: start)
static Task *select(Task *from, bool must_leave)
{
    while (fire_timer(false))
        ;
    vector<Task *> c;
    if (from && runnable(from) && !must_leave)
        c.push_back(from);
    size_t b = from ? from->id + 1 : 0;
    for (size_t i = 0; i < tasks.size(); ++i)
    {
        Task *t = tasks[(b + i) % tasks.size()];
        if (t != from && runnable(t))
            c.push_back(t);
    }
    if (c.empty() && from && runnable(from))
        c.push_back(from);
    bool tm = next_timer() != nullptr;
    if (c.empty())
    {
        if (tm && fire_timer(true))
            return select(from, must_leave);
        return nullptr;
    }
    int n = c.size() + (tm ? 1 : 0);
    int k = choose(n, false);
    if (k == (int)c.size())
    {
        fire_timer(true);
        return tasks.back();
    }
    return c[k];
}

bool run()
{
    Task *last = nullptr;
    while (!failed && !abandoned)
    {
        bool all = true;
        for (auto t : tasks)
            all &= t->done;
        if (all)
            return true;
        if (++steps > step_limit * (fine ? 10 : 1))
        {
            fail("the coroutines keep running without finishing");
            throw Stop();
        }
        Task *t = select(last, last ? last->yielded : false);
        if (!t)
            return false;
        t->yielded = false;
        to_task(t);
        last = t;
    }
    throw Stop();
}

void require_all_done()
{
    for (auto t : tasks)
        if (!t->done)
        {
            fail("coroutine " + t->name + " is never resumed");
            throw Stop();
        }
}

void point()
{
    if (!cur)
        return;
    cur->pinned = env->schedule_lock__.count__ > 0;
    to_main();
}

int set_loud(int v)
{
    if (!cur)
        return 0;
    int o = cur->loud;
    cur->loud = v;
    return o;
}

void relax()
{
    if (!cur)
        return;
    vt += 1000000;
    cur->yielded = true;
    to_main();
}



static void access(void *a)
{
    if (!fine || !cur || (instrumented && !cur->loud) || ((char *)a >= cur->stack && (char *)a < cur->stack + STK))
        return;
    point();
}

static void guarded()
{
    if (check_preempt && cur && env->schedule_lock__.count__ <= 0)
        fail("a spin lock is held while preemption is enabled");
}

static void yield_now()
{
    if (!cur)
        return;
    cur->yielded = true;
    to_main();
}
}

// ---------------------------------------------------------------- replaced runtime
namespace cocpp
{
void co_env::schedule_switch()
{
    ++vs::yields;
    vs::yield_now();
}
#ifndef VS_REAL_SPINLOCK
void co_spinlock::lock()
{
    vs::point();
    while (locked__.test_and_set(memory_order::acq_rel))
        vs::yield_now();
    vs::guarded();
}
bool co_spinlock::try_lock()
{
    vs::point();
    bool r = !locked__.test_and_set(memory_order::acq_rel);
    if (r)
        vs::guarded();
    return r;
}
void co_spinlock::unlock()
{
    locked__.clear(memory_order::release);
    vs::point();
}
#endif
void co_manager::create_background_task__()
{
}
void set_up_signal_handler(const std::vector<int> &)
{
}
}
namespace std::chrono
{
inline namespace _V2
{
steady_clock::time_point steady_clock::now() noexcept
{
    vs::vt += vs::TICK;
    return time_point(duration(vs::vt));
}
}
}

// ---------------------------------------------------------------- memory accesses of the instrumented files
#define ACC(n)                             \
    extern "C" void __tsan_##n(void *a)    \
    {                                      \
        vs::access(a);                     \
    }
ACC(read1) ACC(read2) ACC(read4) ACC(read8) ACC(read16)
ACC(write1) ACC(write2) ACC(write4) ACC(write8) ACC(write16)
ACC(unaligned_read2) ACC(unaligned_read4) ACC(unaligned_read8) ACC(unaligned_read16)
ACC(unaligned_write2) ACC(unaligned_write4) ACC(unaligned_write8) ACC(unaligned_write16)
extern "C" void __tsan_init()
{
}
extern "C" void __tsan_vptr_update(void **, void *)
{
}
extern "C" void __tsan_vptr_read(void **)
{
}

namespace vs
{
static void cleanup()
{
    co_manager::instance()->timer_queue__.clear();
    // in reverse, so that the next execution gets the same addresses
    reverse(tasks.begin(), tasks.end());
    for (auto t : tasks)
    {
        if (t->done)
        {
            t->ctx->set_stack(nullptr);
            delete t->ctx;
            stacks.push_back(t->stack);
        }
        else
            munmap(t->stack, STK); // abandoned in the middle
        delete t;
    }
    tasks.clear();
}

// the places where the schedule differs from the default one
static string sparse(const vector<int> &v)
{
    string s;
    for (size_t i = 0; i < v.size(); ++i)
        if (v[i])
            s += (s.empty() ? "" : ",") + to_string(i) + ":" + to_string(v[i]);
    return s.empty() ? "-" : s;
}

static string choices()
{
    vector<int> v;
    for (auto &c : trace)
        v.push_back(c.c);
    return sparse(v);
}

static bool once(const Scenario &s)
{
    trace.clear();
    pos = 0;
    failed = abandoned = false;
    fail_msg.clear();
    notes.clear();
    steps = 0;
    vt = 1000000000;
    env->schedule_lock__.count__ = 0;
    try
    {
        s.fn();
    }
    catch (Stop &)
    {
    }
    bool ok = !failed;
    cleanup();
    return ok;
}

static double wall()
{
    timeval t;
    gettimeofday(&t, nullptr);
    return t.tv_sec + t.tv_usec * 1e-6;
}
}

namespace vs
{
static void explore(const Scenario &s, double per, int extra)
{
    double t0 = wall();
    long n = 0;
    int reached[2] = {-1, -1};
    for (int f = 0; f < 2; ++f)
    {
        fine = f;
        bool exhausted = true;
        int depth = (f ? max(s.depth - 1, 1) : s.depth) + extra;
        double stop = t0 + (f ? per : per * 0.7);
        // d grows so that short counterexamples come first
        for (int d = 0; d <= depth && exhausted; ++d)
        {
            prefix.clear();
            vector<Choice> path;
            bool more = true;
            while (more)
            {
                snprintf(shared_buf, SHARED, "%s%s", f ? "f" : "c", sparse(prefix).c_str());
                bool ok = once(s);
                ++n;
                if (!ok)
                {
                    printf("FAIL scenario=%s choices=%s%s : %s\n%s", s.name, f ? "f" : "c", choices().c_str(), fail_msg.c_str(), notes.c_str());
                    fflush(stdout);
                    _exit(1);
                }
                // next prefix in depth first order within the budget; an execution that
                // could not follow its prefix (addresses differ) must not lead back
                if (trace.size() < path.size())
                    trace.resize(path.size());
                copy(path.begin(), path.end(), trace.begin());
                more = false;
                int cost = 0;
                vector<int> costs;
                for (auto &c : trace)
                {
                    costs.push_back(cost);
                    if (!c.data && c.c)
                        ++cost;
                }
                for (int i = (int)trace.size() - 1; i >= 0; --i)
                {
                    auto &c = trace[i];
                    if (c.c + 1 >= c.n || costs[i] + (c.data ? 0 : 1) > d)
                        continue;
                    prefix.clear();
                    for (int j = 0; j < i; ++j)
                        prefix.push_back(trace[j].c);
                    prefix.push_back(c.c + 1);
                    ++c.c;
                    path.assign(trace.begin(), trace.begin() + i + 1);
                    more = true;
                    break;
                }
                if (wall() > stop)
                {
                    exhausted = false;
                    more = false;
                }
            }
            if (exhausted)
                reached[f] = d;
        }
    }
    printf("OK scenario=%s executions=%ld deviations=%d at locks, %d at memory accesses wall=%.1f\n", s.name, n, reached[0], reached[1], wall() - t0);
    fflush(stdout);
    _exit(0);
}
}

int main(int argc, char **argv)
{
    using namespace vs;
    string only, replay;
    double limit = 20;
    int extra = 0;
    for (int i = 1; i < argc; ++i)
    {
        string a = argv[i];
        if (a == "--scn")
            only = argv[++i];
        else if (a == "--replay")
            replay = argv[++i];
        else if (a == "--time")
            limit = atof(argv[++i]);
        else if (a == "--list")
        {
            for (auto &s : scenarios())
                printf("%s\n", s.name);
            return 0;
        }
        else if (a == "--deeper")
            extra = atoi(argv[++i]);
    }
    signal(SIGPIPE, SIG_IGN);
    shared_buf = (char *)mmap(nullptr, SHARED, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int total_fail = 0;
    int nsel = 0;
    for (auto &s : scenarios())
        nsel += only.empty() || only == s.name;
    double per = limit / (nsel ? nsel : 1);
    for (auto &s : scenarios())
    {
        if (!only.empty() && only != s.name)
            continue;
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0)
        {
            alarm((unsigned)(per * 3 + 30));
            auto idle = new co_ctx(nullptr, co_ctx_config {}, nullptr);
            idle->set_flag(CO_CTX_FLAG_IDLE);
            env = new co_env(1 << 16, idle, false);
            env->state_manager__.set_state(co_env_state::idle);
            if (!replay.empty())
            {
                fine = replay[0] == 'f';
                replay = replay.substr(1);
                if (replay != "-")
                    for (char *p = strtok(strdup(replay.c_str()), ","); p; p = strtok(nullptr, ","))
                    {
                        size_t at = atoi(p);
                        char *q = strchr(p, ':');
                        if (prefix.size() <= at)
                            prefix.resize(at + 1);
                        prefix[at] = q ? atoi(q + 1) : 1;
                    }
                bool ok = once(s);
                if (!ok)
                    printf("REPLAY-FAIL scenario=%s: %s\n%s", s.name, fail_msg.c_str(), notes.c_str());
                else
                    printf("REPLAY-OK scenario=%s\n", s.name);
                fflush(stdout);
                _exit(ok ? 0 : 1);
            }
            explore(s, per, extra);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFSIGNALED(st))
        {
            printf("FAIL scenario=%s choices=%s : crashed with signal %d\n", s.name, shared_buf, WTERMSIG(st));
            ++total_fail;
        }
        else if (WEXITSTATUS(st))
            ++total_fail;
    }
    return total_fail ? 1 : 0;
}

#ifdef VS_REAL_SPINLOCK
// atomic accesses of the spin lock are switching points
extern "C" {
typedef unsigned char u8;
u8 __tsan_atomic8_load(const volatile u8 *p, int)
{
    vs::point();
    return *p;
}
void __tsan_atomic8_store(volatile u8 *p, u8 v, int)
{
    vs::point();
    *p = v;
}
u8 __tsan_atomic8_exchange(volatile u8 *p, u8 v, int)
{
    vs::point();
    u8 o = *p;
    *p = v;
    return o;
}
u8 __tsan_atomic8_fetch_or(volatile u8 *p, u8 v, int)
{
    vs::point();
    u8 o = *p;
    *p = o | v;
    return o;
}
u8 __tsan_atomic8_fetch_and(volatile u8 *p, u8 v, int)
{
    vs::point();
    u8 o = *p;
    *p = o & v;
    return o;
}
int __tsan_atomic8_compare_exchange_strong(volatile u8 *p, u8 *c, u8 v, int, int)
{
    vs::point();
    u8 o = *p;
    if (o == *c)
    {
        *p = v;
        return 1;
    }
    *c = o;
    return 0;
}
int __tsan_atomic8_compare_exchange_weak(volatile u8 *p, u8 *c, u8 v, int a, int b)
{
    return __tsan_atomic8_compare_exchange_strong(p, c, v, a, b);
}
u8 __tsan_atomic8_compare_exchange_val(volatile u8 *p, u8 c, u8 v, int, int)
{
    vs::point();
    u8 o = *p;
    if (o == c)
        *p = v;
    return o;
}
void __tsan_atomic_thread_fence(int)
{
}
}
#endif
