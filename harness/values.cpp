// Scenarios for events, type-erased values, coroutine results and coroutine-local variables.
#include "plain.h"
#include "cocpp/event/co_event.h"
#include "cocpp/utils/co_any.h"
using namespace cocpp;
using namespace pl;
using std::string;
using std::vector;

namespace cocpp
{
void set_up_signal_handler(const std::vector<int> &)
{
}
}

// ---------------------------------------------------------------- events
namespace
{
struct Subs
{
    co_event<int, string> ev;
    std::map<int, co_event_handle> handle;   // by number of the subscription
    std::map<int, bool> on;
    vector<co_event_handle> given;
    int next = 0;
    vector<int> calls;
    int depth = 0;
    int expect_a = 0;
    string expect_s;
    std::map<int, int> habit; // what a callback does when called: 0 nothing, 1 leaves, 2 removes the next one, 3 subscribes another, 4 publishes

    int sub(int h)
    {
        int id = next++;
        habit[id] = h;
        auto r = ev.sub([this, id](int a, string s) {
            called(id, a, s);
        });
        for (auto x : given)
            require(x != r, "a handle was given out twice");
        given.push_back(r);
        handle[id] = r;
        on[id] = true;
        note("subscription %d gets handle %llu", id, (unsigned long long)r);
        return id;
    }
    void unsub(int id)
    {
        note("subscription %d is removed", id);
        ev.unsub(handle[id]);
        on[id] = false;
    }
    void called(int id, int a, const string &s)
    {
        note("callback %d is called", id);
        require(a == expect_a && s == expect_s, "a callback got other arguments than published");
        calls.push_back(id);
        int h = habit[id];
        if (h == 1 && on[id])
        {
            skipped.insert(id);
            unsub(id);
        }
        if (h == 2)
            for (auto &kv : on)
                if (kv.first > id && kv.second)
                {
                    skipped.insert(kv.first);
                    unsub(kv.first);
                    break;
                }
        if (h == 3)
        {
            habit[id] = 0;
            added.insert(sub(0));
        }
        if (h == 4 && depth == 1)
        {
            auto outer = calls;
            auto sk = skipped;
            auto ad = added;
            pub(expect_a);
            calls = outer;
            for (auto x : sk)
                skipped.insert(x);
            for (auto x : ad)
                added.insert(x);
        }
    }
    std::set<int> skipped, added; // may or may not be called: removed or added while publishing
    void pub(int a)
    {
        vector<int> want;
        for (auto &kv : on)
            if (kv.second)
                want.push_back(kv.first);
        calls.clear();
        skipped.clear();
        added.clear();
        expect_a = a;
        expect_s = string(a % 40, 'x');
        ++depth;
        note("publish %d", a);
        ev.pub(a, expect_s);
        --depth;
        std::map<int, int> n;
        for (auto c : calls)
            ++n[c];
        for (auto w : want)
            if (!skipped.count(w))
                require(n[w] > 0, "a subscribed callback was not called");
        for (auto c : calls)
        {
            require(n[c] == 1, "a callback was called more than once");
            require(std::find(want.begin(), want.end(), c) != want.end() || added.count(c), "a callback that is not subscribed was called");
        }
        require(std::is_sorted(calls.begin(), calls.end()), "callbacks were not called in the order of subscription");
    }
};
void event_step(Subs &s, int op, int arg, int habits)
{
    vector<int> ids;
    for (auto &kv : s.on)
        ids.push_back(kv.first);
    switch (op)
    {
    case 0:
        s.sub(arg % habits);
        break;
    case 1:
        if (!ids.empty())
            s.unsub(ids[arg % ids.size()]); // may be gone already
        break;
    case 2:
        s.pub(arg);
        break;
    case 3:
    {
        // handles nobody has
        static const unsigned long long off[] = {1ull, 1ull << 31, 1ull << 32, 1ull << 63, 1ull << 8, 1ull << 16};
        unsigned long long base = s.given.empty() ? 0 : s.given[arg % s.given.size()];
        for (auto o : off)
        {
            auto h = base + o;
            if (std::find(s.given.begin(), s.given.end(), h) == s.given.end())
                s.ev.unsub(h);
        }
        break;
    }
    }
}
}

SCENARIO(event_orders)
{
    Subs s;
    for (int i = 0; i < 5; ++i)
    {
        int op = pick(4);
        event_step(s, op, op == 1 ? pick(3) : op == 0 ? 0 : i, 1);
    }
    s.pub(7);
    s.pub(8);
}

SCENARIO(event_callbacks_act)
{
    Subs s;
    int n = 1 + pick(4);
    for (int i = 0; i < n; ++i)
        s.sub(pick(5));
    s.pub(1);
    s.pub(2);
    s.sub(0);
    s.pub(3);
}

SCENARIO(event_random)
{
    Rng r(pick(400) + 1);
    Subs s;
    for (int i = 0; i < 60; ++i)
        event_step(s, r(3) == 0 ? r(4) : r(2) * 2, r(1000), 4);
    s.pub(3);
}

SCENARIO(event_no_arguments)
{
    co_event<> e;
    vector<int> log;
    int n = pick(5);
    vector<co_event_handle> hs;
    for (int i = 0; i < n; ++i)
        hs.push_back(e.sub([&log, i] { log.push_back(i); }));
    int gone = n ? pick(n + 1) - 1 : -1;
    if (gone >= 0)
        e.unsub(hs[gone]);
    for (int k = 0; k < 2; ++k)
    {
        log.clear();
        e.pub();
        vector<int> want;
        for (int i = 0; i < n; ++i)
            if (i != gone)
                want.push_back(i);
        require(log == want, "not every subscribed callback was called once and in order");
    }
}

SCENARIO(event_threads)
{
    // subscriptions of several threads at once
    co_event<int> e;
    std::atomic<int> calls {0};
    vector<co_event_handle> hs[3];
    vector<std::thread> ts;
    int rounds = 300 + pick(4);
    for (int t = 0; t < 3; ++t)
        ts.emplace_back([&, t] {
            for (int i = 0; i < rounds; ++i)
            {
                hs[t].push_back(e.sub([&](int) { ++calls; }));
                if (i % 3 == 0)
                    e.unsub(hs[t].back());
                if (i % 50 == 0)
                    e.pub(i);
            }
        });
    for (auto &t : ts)
        t.join();
    std::set<co_event_handle> all;
    for (auto &h : hs)
        all.insert(h.begin(), h.end());
    require(all.size() == (size_t)rounds * 3, "a handle was given out twice");
    calls = 0;
    e.pub(1);
    require(calls == 3 * (rounds - (rounds + 2) / 3), "not every subscribed callback was called once");
}

// ---------------------------------------------------------------- type-erased values
namespace
{
struct Big
{
    long a[9];
    bool operator==(const Big &o) const
    {
        return !memcmp(a, o.a, sizeof a);
    }
};
struct Counted
{
    static inline int live = 0;
    int v;
    Counted(int v = 0)
        : v(v)
    {
        ++live;
    }
    Counted(const Counted &o)
        : v(o.v)
    {
        ++live;
    }
    Counted &operator=(const Counted &) = default;
    ~Counted()
    {
        --live;
    }
    bool operator==(const Counted &o) const
    {
        return v == o.v;
    }
};
struct Derived : Counted
{
    int w;
    Derived(int v = 0)
        : Counted(v)
        , w(v + 1)
    {
    }
};
enum class Color
{
    red,
    blue
};
const int TYPES = 11;
template <class F>
void with_type(int t, int v, F f)
{
    switch (t)
    {
    case 0: return f((int)v - 7);
    case 1: return f((unsigned)v);
    case 2: return f((long)v << 33);
    case 3: return f(string(v % 50, 'a' + v % 7));
    case 4: return f((double)v / 3);
    case 5: return f(Big {{v, v + 1, v + 2, 0, 0, 0, 0, 0, v}});
    case 6: return f(Counted(v));
    case 7: return f(Derived(v));
    case 8: return f(vector<string> {string(v % 20, 'q'), "x"});
    case 9: return f(v % 2 ? Color::red : Color::blue);
    case 10: return f((char)v);
    }
}
struct Val
{
    int type = -1, v = 0;
};
void read_all(co_any &a, const Val &m)
{
    for (int t = 0; t < TYPES; ++t)
        with_type(t, m.v, [&](auto want) {
            using T = decltype(want);
            bool threw = false, good = false;
            try
            {
                good = a.get<T>() == want;
            }
            catch (const std::bad_cast &)
            {
                threw = true;
            }
            catch (...)
            {
                threw = true;
            }
            if (t == m.type)
                require(!threw && good, "a value read under its own type is not the one stored");
            else
                require(threw, m.type < 0 ? "reading an empty value is not reported" : "reading a value under another type is not reported");
        });
}
}

SCENARIO(any_all_types)
{
    int t = pick(TYPES), v = pick(6) * 37 + 1;
    int live = Counted::live;
    {
        co_any e;
        read_all(e, Val {});
        with_type(t, v, [&](auto x) {
            co_any a(x);
            read_all(a, Val {t, v});
            co_any b(a), c;
            c = a;
            read_all(b, Val {t, v});
            read_all(c, Val {t, v});
            e = x;
            read_all(e, Val {t, v});
            e = co_any();
            read_all(e, Val {});
            read_all(a, Val {t, v});
        });
    }
    require(Counted::live == live, "a stored value was not destroyed, or twice");
}

SCENARIO(any_sequences)
{
    Rng r(pick(800) + 1);
    co_any v[4];
    Val m[4];
    for (int i = 0; i < 25; ++i)
    {
        int k = r(4), o = r(4);
        switch (r(5))
        {
        case 0:
        case 1:
        {
            int t = r(TYPES), x = r(1000);
            with_type(t, x, [&](auto w) { v[k] = w; });
            m[k] = Val {t, x};
            break;
        }
        case 2:
            v[k] = v[o];
            m[k] = m[o];
            break;
        case 3:
        {
            co_any c(v[o]);
            read_all(c, m[o]);
            v[k] = c;
            m[k] = m[o];
            break;
        }
        case 4:
            v[k] = co_any();
            m[k] = Val {};
            break;
        }
        for (int q = 0; q < 4; ++q)
            read_all(v[q], m[q]);
    }
}

SCENARIO(any_coroutine_results)
{
    int t = pick(TYPES), v = pick(3) * 91 + 2, wrong = (t + 1 + pick(3)) % TYPES;
    with_type(t, v, [&](auto x) {
        using T = decltype(x);
        co c([x] { return x; });
        T got = c.template wait<T>();
        require(got == x, "the result of a coroutine is not what it returned");
        T again = c.template wait<T>();
        require(again == x, "the result of a coroutine is not what it returned");
        auto o = c.wait_for(std::chrono::seconds(20));
        require(o.has_value() && (T)*o == x, "the result of a coroutine is not what it returned");
        with_type(wrong, v, [&](auto y) {
            using U = decltype(y);
            bool threw = false;
            try
            {
                c.template wait<U>();
            }
            catch (const std::bad_cast &)
            {
                threw = true;
            }
            require(threw, "reading a result under another type is not reported");
        });
        c.join();
    });
    co n([] {});
    bool threw = false;
    try
    {
        n.wait<int>();
    }
    catch (const std::bad_cast &)
    {
        threw = true;
    }
    require(threw, "reading the result of a coroutine without one is not reported");
    n.join();
}

SCENARIO(local_variables)
{
    // several coroutines with variables of the same names
    int n = 2 + pick(3), rounds = 2 + pick(3);
    vector<std::unique_ptr<co>> cs;
    string bad;
    for (int i = 0; i < n; ++i)
        cs.push_back(std::make_unique<co>([&, i] {
            auto need = [&](bool b, const char *m) {
                if (!b)
                    bad = m;
            };
            need(CoLocal(num, int) == 0 && CoLocal(text, string).empty() && CoLocal(list, vector<int>).empty(), "a local variable is not default-created");
            need(CoLocal(num2, long) == 0, "a local variable is not default-created");
            int *p = &CoLocal(num, int);
            for (int r = 1; r <= rounds; ++r)
            {
                CoLocal(num, int) = i * 100 + r;
                CoLocal(num2, long) = -i;
                CoLocal(text, string) = string(i + 1, 'a' + r);
                CoLocal(list, vector<int>).push_back(r);
                this_co::yield();
                need(CoLocal(num, int) == i * 100 + r, "a local variable lost its value");
                need(CoLocal(num2, long) == -i, "a local variable lost its value");
                need(CoLocal(text, string) == string(i + 1, 'a' + r), "a local variable lost its value");
                need((int)CoLocal(list, vector<int>).size() == r && CoLocal(list, vector<int>).back() == r, "a local variable lost its value");
                need(&CoLocal(num, int) == p, "a local variable moved");
            }
        }));
    for (auto &c : cs)
        c->join();
    require(bad.empty(), bad.c_str());
}

SCENARIO(local_names)
{
    co c([] {
        auto ctx = co::current_env()->current_ctx();
        Rng r(pick(40) + 1);
        std::map<string, int> m;
        vector<string> names = {"", "a", "b", "ab", "a ", "num", string(60, 'z'), string(60, 'z') + "1"};
        for (int i = 0; i < 60; ++i)
        {
            auto &nm = names[r((int)names.size())];
            require(ctx->local_storage<int>(nm) == m[nm], "a local variable does not have the value last given to that name");
            if (r(2))
                ctx->local_storage<int>(nm) = m[nm] = r(1000);
        }
    });
    c.join();
}
