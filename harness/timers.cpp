// The timer service against a model, on a clock of its own.  The service runs on this thread; whenever it waits or
// schedules a callback the scenario acts.
#include "plain.h"
#include <pthread.h>
using namespace cocpp;
using namespace pl;
using std::make_shared;
using std::shared_ptr;
using std::vector;

static long vnow = 1000000;
static bool notified = false, active = false;
static std::function<int(bool, long)> on_wait;
static std::function<void(std::function<void(co_any &)>)> on_create;

namespace std::chrono
{
inline namespace _V2
{
steady_clock::time_point steady_clock::now() noexcept
{
    ++vnow;
    return time_point(nanoseconds(vnow));
}
}
}
static int wait_(pthread_mutex_t *m, bool timed, long until)
{
    if (!on_wait)
        return 0;
    pthread_mutex_unlock(m);
    int r = on_wait(timed, until);
    pthread_mutex_lock(m);
    return r;
}
extern "C" {
int pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *m)
{
    return wait_(m, false, 0);
}
int pthread_cond_clockwait(pthread_cond_t *, pthread_mutex_t *m, clockid_t, const timespec *t)
{
    return wait_(m, true, t->tv_sec * 1000000000l + t->tv_nsec);
}
int pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *m, const timespec *t)
{
    return wait_(m, true, t->tv_sec * 1000000000l + t->tv_nsec);
}
int pthread_cond_signal(pthread_cond_t *)
{
    notified = true;
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *)
{
    notified = true;
    return 0;
}
}
namespace cocpp
{
void co_manager::create_background_task__()
{
}
void set_up_signal_handler(const std::vector<int> &)
{
}
co_ctx *co_manager::create_and_schedule_ctx(const co_ctx_config &, std::function<void(co_any &)> f, bool)
{
    on_create(f);
    return nullptr;
}
}

namespace
{
struct Tm
{
    int id;
    shared_ptr<co_timer> t;
    bool loop = false, rel = true;
    long interval = 0;
    bool running = false;
    long expire = 0;
    long lo = 0; // the expiry time is not known to the instant
};
struct World
{
    Rng r;
    vector<std::unique_ptr<Tm>> all;
    int steps = 40;
    Tm *firing = nullptr;
    int fired = 0;
    co_manager *m = co_manager::instance();

    explicit World(int seed)
        : r(seed)
    {
    }
    Tm *create()
    {
        all.push_back(std::make_unique<Tm>());
        Tm *t = all.back().get();
        t->id = (int)all.size() - 1;
        auto cb = [this, t] { callback(t); };
        switch (r(3))
        {
        case 0:
            t->rel = false;
            // instants that several timers share, also in the past
            t->expire = t->lo = 1000000 + 1000000l * r(6);
            t->t = co_timer::create(cb, std::chrono::steady_clock::time_point(std::chrono::nanoseconds(t->expire)));
            break;
        default:
            t->loop = r(2);
            t->interval = 1 + r(3);
            t->t = co_timer::create(cb, t->loop ? co_expire_type::loop : co_expire_type::once, t->interval);
        }
        note("timer %d made%s", t->id, t->loop ? ", periodic" : "");
        check();
        return t;
    }
    void arm(Tm *t, long from)
    {
        t->running = true;
        if (t->rel)
        {
            auto e = t->t->expire_time().time_since_epoch().count();
            require(e >= from + t->interval * 1000000 && e <= vnow + t->interval * 1000000, "a timer does not expire an interval after its start");
            t->expire = e;
        }
        else
            require(t->t->expire_time().time_since_epoch().count() == t->expire, "a timer does not expire when it was told to");
    }
    void start(Tm *t)
    {
        note("start %d", t->id);
        long n = vnow;
        bool was = t->running;
        notified = false;
        t->t->start();
        if (!was)
            arm(t, n);
        check();
    }
    void stop(Tm *t)
    {
        note("stop %d", t->id);
        t->t->stop();
        t->running = false;
        check();
    }
    void reset(Tm *t)
    {
        note("reset %d", t->id);
        long n = vnow;
        t->t->reset();
        arm(t, n);
        check();
    }
    Tm *earliest()
    {
        Tm *e = nullptr;
        for (auto &t : all)
            if (t->running && (!e || t->expire < e->expire))
                e = t.get();
        return e;
    }
    void check()
    {
        size_t n = 0;
        for (auto &t : all)
        {
            n += t->running;
            require(t->t->is_running() == t->running, "a timer is running although it was stopped, or the other way round");
            bool in = false;
            for (auto &x : m->timer_queue__)
                in |= x.get() == t->t.get();
            require(in == t->running, "a timer is not queued although it is running, or the other way round");
            require(t->t->is_expired() == (vnow >= t->expire) || !t->running, "a timer reports wrongly whether it is expired");
        }
        require(m->timer_queue__.size() == n, "the number of queued timers differs from the number of running ones");
    }
    void act()
    {
        Tm *t = all[r((int)all.size())].get();
        switch (r(6))
        {
        case 0:
        case 1:
            start(t);
            break;
        case 2:
            stop(t);
            break;
        case 3:
            reset(t);
            break;
        case 4:
            if (all.size() < 8)
                create();
            break;
        case 5:
            vnow += 1000 * r(2000);
            break;
        }
    }
    void callback(Tm *t)
    {
        require(firing == t, "the callback of another timer is called");
        firing = nullptr;
        ++fired;
    }
    std::function<void(co_any &)> pending;
    // the timer that has just been taken from the queue or queued anew
    Tm *taken()
    {
        for (auto &t : all)
            if (t->running && (t->loop ? t->t->expire_time().time_since_epoch().count() != t->expire : !t->t->is_running()))
                return t.get();
        return nullptr;
    }
    void created(std::function<void(co_any &)> f)
    {
        require(!pending, "callbacks are scheduled for more timers than leave the queue or are queued anew");
        if (taken())
            fires(f);
        else
            pending = f;
    }
    void fires(std::function<void(co_any &)> f)
    {
        Tm *e = taken();
        require(e != nullptr, "a callback is scheduled although no timer has left the queue or was queued anew");
        note("timer %d fires at %ld, expiry %ld", e->id, vnow, e->expire);
        require(vnow >= e->expire, "a timer fires before its time");
        for (auto &t : all)
            require(!t->running || t->expire >= e->expire, "a timer fires before an earlier one");
        long n = e->expire;
        e->running = false;
        if (e->loop)
            arm(e, n);
        check();
        if (steps-- <= 0)
            m->clean_up__ = true;
        for (int k = r(3); k > 0; --k)
            act();
        firing = e;
        co_any a;
        f(a);
        require(firing == nullptr, "a timer fires without its callback being called");
        for (int k = r(3); k > 0; --k)
            act();
    }
    int waits(bool timed, long until)
    {
        if (pending)
        {
            fires(pending);
            pending = nullptr;
            return 0;
        }
        check();
        if (firing)
            fail("a timer fires without its callback being called");
        Tm *e = earliest();
        note("the service waits, now %ld, until %ld", vnow, timed ? until : -1);
        require(timed || !e, "the service waits without limit although a timer is queued");
        require(!timed || !e || until <= e->expire, "the service waits longer than to the earliest expiry time");
        notified = false;
        for (;;)
        {
            if (steps-- <= 0)
            {
                m->clean_up__ = true;
                return 0;
            }
            long before = vnow;
            Tm *first = earliest();
            long fe = first ? first->expire : 0;
            act();
            Tm *now = earliest();
            if (now && (!first || now->expire < fe) && now->running)
                require(notified, "the service is not told about a timer that expires first");
            if (notified)
                return 0;
            if (timed && (vnow >= until || r(4) == 0))
            {
                vnow = std::max(vnow, until);
                return ETIMEDOUT;
            }
            (void)before;
        }
    }
    void go()
    {
        m->clean_up__ = false;
        m->timer_queue__.clear();
        on_wait = [this](bool timed, long until) { return waits(timed, until); };
        on_create = [this](std::function<void(co_any &)> f) { created(f); };
        int n = 1 + r(4);
        while (n--)
        {
            create();
            if (r(2))
                start(all.back().get());
        }
        m->timer_routine__();
        on_wait = nullptr;
        m->timer_queue__.clear();
    }
};
}

SCENARIO(timer_service)
{
    World w(pick(100000) + 1);
    w.go();
}

// several timers that expire at the same instant
SCENARIO(timer_same_instant)
{
    int n = 2 + pick(4), stopped = pick(n + 1) - 1;
    auto m = co_manager::instance();
    m->clean_up__ = false;
    m->timer_queue__.clear();
    vector<int> calls(n, 0);
    vector<shared_ptr<co_timer>> ts;
    for (int i = 0; i < n; ++i)
    {
        ts.push_back(co_timer::create([&calls, i] { ++calls[i]; }, std::chrono::steady_clock::time_point(std::chrono::nanoseconds(vnow + 1000000000))));
    }
    // all of them end at the expiry time of the first
    auto at = ts[0]->expire_time();
    for (int i = 0; i < n; ++i)
        ts[i] = co_timer::create([&calls, i] { ++calls[i]; }, at);
    for (auto &t : ts)
        t->start();
    require((int)m->timer_queue__.size() == n, "a started timer displaces another one");
    if (stopped >= 0)
        ts[stopped]->stop();
    int w = 0;
    on_create = [](std::function<void(co_any &)> f) {
        co_any a;
        f(a);
    };
    on_wait = [&](bool timed, long until) {
        if (!timed || ++w > 20)
        {
            m->clean_up__ = true;
            return 0;
        }
        vnow = std::max(vnow, until);
        return ETIMEDOUT;
    };
    m->timer_routine__();
    on_wait = nullptr;
    for (int i = 0; i < n; ++i)
        require(calls[i] == (i == stopped ? 0 : 1), "a timer did not fire once per start, or fired although it was stopped");
}
