// Scenarios for pipelines: every stage against its sequential definition, all in one environment.
#include "plain.h"
#include "cocpp/pipeline/co_pipeline.h"
using namespace cocpp;
using namespace pl;
using std::optional;
using std::vector;

namespace cocpp
{
void set_up_signal_handler(const std::vector<int> &)
{
}
}

namespace
{
using pipe_t = co_pipeline<long>;
using values = vector<long>;

void world(std::function<void()> root)
{
    auto m = co_manager::instance();
    co_env *env;
    m->set_base_schedule_thread_count(1);
    current_env__ = nullptr;
    {
        std::scoped_lock l(m->env_set__.normal_lock);
        env = co_env_factory::create_env_from_this_thread(1 << 16);
        env->set_state(co_env_state::idle);
        m->env_set__.normal_set.clear();
        m->env_set__.normal_set.insert(env);
    }
    bool over = false;
    co_ctx_config cfg;
    cfg.bind_env = env;
    m->create_and_schedule_ctx(
        cfg, [&](co_any &) {
            root();
            over = true;
            env->stop_schedule();
        },
        false);
    env->schedule_in_this_thread();
    require(over, "the scheduler ended although coroutines are left");
    std::scoped_lock l(m->env_set__.normal_lock);
    m->env_set__.normal_set.clear();
}

values some(int n)
{
    values v;
    long x = 5;
    for (int i = 0; i < n; ++i)
        v.push_back(x = (x * 7 + 3) % 23);
    return v;
}

// lets everybody run until nothing changes any more
void settle()
{
    for (int i = 0; i < 300; ++i)
        this_co::yield();
}

// reads the output of a stage: all of it, or some values and then closes it
void check(co_chan<long> out, const values &want, const char *what)
{
    int cut = pick(5); // 4: never closes
    values got;
    bool cutoff = false;
    if (pick(2))
        settle();
    for (;;)
    {
        if (cut < 4 && (int)got.size() == cut)
        {
            out.close();
            cutoff = true;
            break;
        }
        for (int i = 0; i < 400 && out.empty() && !out.closed(); ++i)
            this_co::yield();
        require(!out.empty() || out.closed() || out.max_size() == 0, "a stage neither emits nor closes");
        auto x = out.pop();
        if (!x)
            break;
        got.push_back(*x);
        note("%s emits %ld", what, *x);
        require(got.size() <= want.size(), "a stage emits more values than its definition gives");
        require(got.back() == want[got.size() - 1], "a stage emits another value than its definition gives");
    }
    if (!cutoff)
        require(got.size() == want.size(), "a stage emits fewer values than its definition gives");
    settle();
    require(out.closed(), "a stage does not close its output");
    if (cutoff)
    {
        while (out.pop())
            ;
        settle();
        require(!out.pop(), "a stage emits values after the consumer closed");
    }
}

long sent, asked;

// an input that counts what it gives and stops when told to
pipe_t input(const values &v)
{
    sent = 0;
    return pipe_t([v, i = size_t(0)]() mutable -> optional<long> {
        if (i == v.size())
            return std::nullopt;
        ++sent;
        return v[i++];
    },
                  pick(2) ? -1 : 1);
}
struct walk
{
    const long *p;
    long operator*() const
    {
        return *p;
    }
    walk &operator++()
    {
        ++p;
        return *this;
    }
    bool operator!=(const walk &o) const
    {
        return p != o.p;
    }
};
const int LENGTHS[] = {0, 1, 2, 3, 5, 8};
int length()
{
    return LENGTHS[pick(6)];
}
}

SCENARIO(pipe_map)
{
    world([] {
        auto v = some(length());
        values want;
        for (auto x : v)
            want.push_back(x * 3 + 1);
        auto in = input(v);
        auto q = in | [](long x) { return x * 3 + 1; };
        check(q | pipeline::chan(), want, "map");
    });
}

SCENARIO(pipe_filter)
{
    world([] {
        auto v = some(length());
        int mod = 1 + pick(4);
        values want;
        for (auto x : v)
            if (x % mod == 0)
                want.push_back(x);
        auto in = input(v);
        auto q = in | pipeline::filter([mod](long x) { return x % mod == 0; });
        check(q | pipeline::chan(), want, "filter");
    });
}

SCENARIO(pipe_stops)
{
    world([] {
        asked = 0;
        long called = 0;
        auto in = pipe_t([i = 0l]() mutable -> optional<long> {
            ++asked;
            this_co::yield();
            return i < 100 ? optional<long>(i++) : std::nullopt;
        },
                         1);
        auto stop = [&](auto q) {
            auto out = q | pipeline::chan();
            int n = pick(4);
            for (int i = 0; i < n; ++i)
                require(out.pop() == i, "a stage emits another value than its definition gives");
            out.close();
            settle();
            long a = asked, c = called;
            settle();
            note("asked for %ld values, then for %ld; called %ld times, then %ld", a, asked, c, called);
            require(asked == a && a < 20 && called == c && c < 20, "a stage goes on after the consumer closed");
        };
        auto keep = [&](long) { return ++called, true; };
        auto same = [&](long x) { return ++called, x; };
        auto half = [&](const values &g) { return ++called, g[0] / 2; };
        switch (pick(4))
        {
        case 0:
            stop(in | pipeline::filter(keep));
            break;
        case 1:
            stop(in | same);
            break;
        case 2:
            stop(in | pipeline::skip(0));
            break;
        default:
            stop(in | pipeline::group(2, half));
        }
    });
}

SCENARIO(pipe_reduce)
{
    world([] {
        auto v = some(length());
        long r = pick(2) ? 100 : -7;
        values want {r};
        for (auto x : v)
            want[0] = want[0] * 2 - x;
        auto in = input(v);
        auto q = in | pipeline::reduce([](long a, long x) { return a * 2 - x; }, r);
        check(q | pipeline::chan(), want, "reduce");
    });
}

SCENARIO(pipe_take)
{
    world([] {
        auto v = some(length());
        size_t n = pick(5);
        n = n == 4 ? size_t(-1) : n * 2;
        values want(v.begin(), v.begin() + std::min(n, v.size()));
        auto in = input(v);
        auto src = in | pipeline::chan();
        auto q = in | pipeline::take(n);
        check(q | pipeline::chan(), want, "take");
        require(src.closed(), "taking does not close its input");
    });
}

// the input stalls after exactly as many values as are taken
SCENARIO(pipe_take_stalled)
{
    world([] {
        int n = pick(4);
        co_chan<long> gate;
        auto in = pipe_t([=, i = 0]() mutable -> optional<long> {
            if (i < n)
                return i++;
            return gate.pop();
        });
        auto q = in | pipeline::take(n);
        auto out = q | pipeline::chan();
        settle();
        for (int i = 0; i < n; ++i)
            require(!out.empty() && out.pop() == i, "a stage emits another value than its definition gives");
        require(out.closed(), "taking waits for a value it does not need");
        gate.close();
        settle();
    });
}

SCENARIO(pipe_skip)
{
    world([] {
        auto v = some(length());
        size_t n = pick(6);
        values want;
        for (size_t i = n; i < v.size(); ++i)
            want.push_back(v[i]);
        auto in = input(v);
        auto q = in | pipeline::skip(n);
        check(q | pipeline::chan(), want, "skip");
    });
}

SCENARIO(pipe_group)
{
    world([] {
        auto v = some(length());
        size_t n = 1 + pick(4);
        auto fold = [](const values &g) {
            long r = g.size();
            for (auto x : g)
                r = r * 31 + x;
            return r;
        };
        values want;
        for (size_t i = 0; i + n <= v.size(); i += n)
            want.push_back(fold(values(v.begin() + i, v.begin() + i + n)));
        auto in = input(v);
        auto q = in | pipeline::group(n, fold);
        check(q | pipeline::chan(), want, "group");
    });
}

SCENARIO(pipe_sources)
{
    world([] {
        auto v = some(length());
        int max = pick(3) - 1;
        switch (pick(4))
        {
        case 0:
        {
            auto copy = new values(v);
            pipe_t q(*copy, max);
            std::fill(copy->begin(), copy->end(), -1);
            delete copy;
            check(q | pipeline::chan(), v, "collection");
            break;
        }
        case 1:
        {
            pipe_t q(walk {v.data()}, walk {v.data() + v.size()}, max);
            check(q | pipeline::chan(), v, "iterators");
            settle();
            break;
        }
        case 2:
        {
            long b = pick(2) ? -4 : 6, inc = pick(2) ? 2 : -3;
            int n = pick(4);
            values want;
            for (int i = 0; i < n; ++i)
                want.push_back(b + i * inc);
            pipe_t q(b, b + n * inc, inc, max);
            check(q | pipeline::chan(), want, "arithmetic");
            break;
        }
        default:
        {
            pipe_t q([v, i = size_t(0)]() mutable { return i < v.size() ? optional<long>(v[i++]) : std::nullopt; }, max);
            check(q | pipeline::chan(), v, "function");
        }
        }
    });
}

static __attribute__((noinline)) std::unique_ptr<pipe_t> from_list(long a, int n, int max)
{
    switch (n)
    {
    case 0:
        return std::unique_ptr<pipe_t>(new pipe_t(std::initializer_list<long> {}, max));
    case 1:
        return std::unique_ptr<pipe_t>(new pipe_t({a}, max));
    default:
        return std::unique_ptr<pipe_t>(new pipe_t({a, a + 1, a * 5, a - 3}, max));
    }
}
static __attribute__((noinline)) void scribble()
{
    volatile long a[256];
    for (auto &x : a)
        x = -77;
}

SCENARIO(pipe_list)
{
    world([] {
        int n = pick(3);
        volatile long a = 9;
        auto q = from_list(a, n, pick(3) - 1);
        scribble();
        values want;
        if (n)
            want = {9};
        if (n == 2)
            want = {9, 10, 45, 6};
        check(*q | pipeline::chan(), want, "list");
    });
}
