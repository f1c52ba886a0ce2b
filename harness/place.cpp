// Scenarios for the placement of coroutines and the retirement of environments: environments without threads, whose states
// the scenario chooses; whenever the lock of the set of environments becomes free the monitoring thread may come in.
#include "plain.h"
#include <dlfcn.h>
using namespace cocpp;
using namespace pl;

namespace cocpp
{
void co_manager::create_background_task__()
{
}
void set_up_signal_handler(const std::vector<int> &)
{
}
void co_env::start_schedule()
{
}
}

static std::function<void()> on_free;
extern "C" int fake_pthread_mutex_unlock(pthread_mutex_t *m)
{
    int r = pthread_mutex_unlock(m);
    if (on_free && m == (pthread_mutex_t *)co_manager::instance()->env_set__.normal_lock.native_handle() && m->__data.__count == 0)
    {
        auto f = std::move(on_free);
        on_free = nullptr;
        f();
        on_free = std::move(f);
    }
    return r;
}

namespace
{
struct Env
{
    co_env *e;
    co_env_state state;
    bool nothread, reserved, kept, converted;
    size_t load;
    bool can() const
    {
        return state != co_env_state::blocked && state != co_env_state::destroying && !nothread;
    }
    bool retirable() const
    {
        return state == co_env_state::idle && load == 0 && !kept && !converted && !nothread;
    }
};

co_ctx *add(co_env *bind)
{
    co_ctx_config cfg;
    cfg.bind_env = bind;
    cfg.stack_size = 16 * 1024;
    return co_manager::instance()->create_and_schedule_ctx(cfg, [](co_any &) {}, true);
}

Env look(co_env *e)
{
    return Env {e, e->state(), e->test_flag(CO_ENV_FLAG_NO_SCHE_THREAD), e->test_flag(CO_ENV_FLAG_EXCLUSIVE),
                e->test_flag(CO_ENV_FLAG_DONT_AUTO_DESTROY), e->test_flag(CO_ENV_FLAG_CONVERTED), e->workload()};
}

std::vector<Env> all()
{
    std::vector<Env> r;
    for (auto e : co_manager::instance()->env_set__.normal_set)
        r.push_back(look(e));
    return r;
}

std::vector<Env> world(int most)
{
    auto m = co_manager::instance();
    auto own = m->current_env();
    // what the run before left
    for (auto e : std::set<co_env *>(m->env_set__.normal_set))
        if (e != own)
        {
            for (auto c : e->all_ctx__())
                e->remove_ctx(c);
            m->env_set__.normal_set.erase(e);
            co_env_factory::destroy_env(e);
        }
    int n = pick(most + 1);
    for (int i = 0; i < n; ++i)
    {
        auto e = m->create_env(pick(2));
        if (pick(2))
            e->set_exclusive();
        int load = pick(3);
        for (int k = 0; k < load; ++k)
            add(e);
        int s = pick(4);
        e->set_state(s == 0 ? co_env_state::idle : s == 1 ? co_env_state::busy : s == 2 ? co_env_state::blocked : co_env_state::destroying);
        if (s != 0 && pick(2))
            e->set_flag(CO_ENV_FLAG_NO_SCHE_THREAD);
        auto v = look(e);
        note("environment %d: state %d load %zu reserved %d kept %d no thread %d", i, (int)v.state, v.load, v.reserved, v.kept, v.nothread);
    }
    return all();
}
}

SCENARIO(place_choice)
{
    auto m = co_manager::instance();
    auto before = world(3);
    size_t base = 1 + pick(3);
    m->set_base_schedule_thread_count(base);
    auto c = add(nullptr);
    auto e = c->env();
    const Env *was = nullptr;
    size_t able = 0, least = ~(size_t)0;
    bool idle = false;
    for (auto &b : before)
    {
        if (b.e == e)
            was = &b;
        if (b.state == co_env_state::idle)
            idle = true;
        if (b.can() && !b.reserved)
        {
            ++able;
            least = std::min(least, b.load);
        }
    }
    require(m->env_set__.normal_set.count(e), "a coroutine was placed in an environment that is not managed");
    require(e->ctx_count() == (was ? was->load : 0) + 1, "a coroutine was not placed exactly once");
    if (was)
    {
        require(!was->nothread, "a coroutine was placed in an environment without a scheduler");
        require(was->state != co_env_state::destroying, "a coroutine was placed in an environment that is shutting down");
        require(was->state != co_env_state::blocked, "a coroutine was placed in a blocked environment");
        require(was->state == co_env_state::idle || !was->reserved, "a coroutine was placed in a reserved environment");
        require(was->state == co_env_state::idle || !idle, "a coroutine was placed in a busy environment although one is idle");
        require(was->state == co_env_state::idle || was->load == least, "a coroutine was not placed in the least loaded environment");
        require(was->state == co_env_state::idle || able >= base, "no environment was made although there are fewer than the base number");
    }
    else
    {
        require(!idle && (able == 0 || able < base), "an environment was made although one could take the coroutine");
        require(m->env_set__.normal_set.size() == before.size() + 1, "more than one environment was made");
    }
}

SCENARIO(place_bound)
{
    auto before = world(2);
    std::vector<Env *> ok;
    for (auto &b : before)
        if (b.state != co_env_state::created && b.state != co_env_state::destroying)
            ok.push_back(&b);
    if (ok.empty())
        return;
    auto t = ok[pick((int)ok.size())];
    auto c = add(t->e);
    require(c->env() == t->e, "a bound coroutine was placed in another environment");
    require(t->e->ctx_count() == t->load + 1, "a bound coroutine was not placed exactly once");
    require(all().size() == before.size(), "an environment was made for a bound coroutine");
}

static void retire(const std::vector<Env> &before, size_t max)
{
    co_manager::instance()->destroy_redundant_env__();
    size_t able = 0, gone = 0;
    for (auto &b : before)
    {
        able += b.can();
        if (b.state != co_env_state::destroying && b.e->state() == co_env_state::destroying)
        {
            ++gone;
            require(b.state == co_env_state::idle, "an environment was retired that is not idle");
            require(b.load == 0, "an environment was retired that has coroutines");
            require(b.retirable(), "an environment was retired that is protected from it");
        }
    }
    require(gone <= (able > max ? able - max : 0), "more environments were retired than exceed the maximum");
}

SCENARIO(place_retire)
{
    auto before = world(4);
    size_t max = 1 + pick(3);
    co_manager::instance()->set_max_schedule_thread_count(max);
    retire(before, max);
}

SCENARIO(place_while_retiring)
{
    auto m = co_manager::instance();
    world(3);
    m->set_base_schedule_thread_count(1 + pick(2));
    m->set_max_schedule_thread_count(1);
    int left = 1 + pick(2);
    on_free = [&] {
        if (left && pick(2))
        {
            --left;
            note("the monitoring thread retires what is too much");
            retire(all(), 1);
        }
    };
    co_ctx *c = nullptr;
    try
    {
        c = add(nullptr);
    }
    catch (std::exception &e)
    {
        note("%s", e.what());
        fail("a coroutine could not be placed");
    }
    on_free = nullptr;
    require(c->env()->state() != co_env_state::destroying, "a coroutine was placed in an environment that is shutting down");
}
