// Layout of the runtime's own classes and entry points for its members.
#include "cocpp/cocpp.h"
#include "cocpp/core/co_ctx.h"
#include "cocpp/core/co_env.h"
#include "cocpp/core/co_manager.h"
#include "cocpp/core/co_ctx_config.h"
#include "cocpp/core/co_ctx_factory.h"
#include "off.h"

using namespace cocpp;
SIZE(ctx, co_ctx)
OFF(ctx_pre, co_ctx, pre_ctx__)
OFF(ctx_finished, co_ctx, finished__)
OFF(ctx_prio_event, co_ctx, priority_changed__)
OFF(ctx_flags, co_ctx, flag_manager__.flags__)
OFF(ctx_flags_mu, co_ctx, flag_manager__.mu__)
OFF(ctx_state, co_ctx, state_manager__.state__)
OFF(ctx_state_mu, co_ctx, state_manager__.mu_state__)
OFF(ctx_finish_lock, co_ctx, finish_lock__)
OFF(ctx_wait_mu, co_ctx, wait_data__.mu)
OFF(ctx_wait_set, co_ctx, wait_data__.resource)
OFF(ctx_stack, co_ctx, stack__)
OFF(ctx_config, co_ctx, config__)
OFF(ctx_ret, co_ctx, ret__)
OFF(ctx_priority, co_ctx, priority__)
OFF(ctx_priority_mu, co_ctx, priority_lock__)
OFF(ctx_env, co_ctx, env__)
SIZE(env, co_env)
OFF(env_flags, co_env, flag_manager__.flags__)
OFF(env_flags_mu, co_env, flag_manager__.mu__)
OFF(env_state, co_env, state_manager__.state__)
OFF(env_state_mu, co_env, state_manager__.mu_state__)
OFF(env_idle, co_env, idle_ctx__)
OFF(env_lists, co_env, all_normal_ctx__)
OFF(env_lists_mu, co_env, mu_normal_ctx__)
OFF(env_count, co_env, ctx_count__)
OFF(env_curr, co_env, curr_ctx__)
OFF(env_min, co_env, min_priority__)
OFF(env_min_mu, co_env, mu_min_priority__)
OFF(env_sched, co_env, schedule_lock__)
OFF(env_cv, co_env, cv_sleep__)
OFF(sched_count, co_recursive_mutex_with_count, count__)
SIZE(config, co_ctx_config)
OFF(config_stack_size, co_ctx_config, stack_size)
OFF(config_name, co_ctx_config, name)
OFF(config_priority, co_ctx_config, priority)
OFF(config_bind_env, co_ctx_config, bind_env)
OFF(config_shared_stack, co_ctx_config, shared_stack)

VAL(waiting, CO_CTX_FLAG_WAITING)
VAL(locked, CO_CTX_FLAG_LOCKED)
VAL(bind, CO_CTX_FLAG_BIND)
VAL(idle, CO_CTX_FLAG_IDLE)
VAL(shared, CO_CTX_FLAG_SHARED_STACK)
VAL(ctx_flags, CO_CTX_FLAG_MAX)
VAL(no_thread, CO_ENV_FLAG_NO_SCHE_THREAD)
VAL(env_flags, CO_ENV_FLAG_MAX)
VAL(max_priority, CO_MAX_PRIORITY)
VAL(idle_priority, CO_IDLE_CTX_PRIORITY)
VAL(suspended, co_state::suspended)
VAL(running, co_state::running)
VAL(finished, co_state::finished)
VAL(destroying, co_env_state::destroying)
VAL(created, co_env_state::created)

extern "C"
{
    void vf_set_state(co_ctx *c, co_state s)
    {
        c->set_state(s);
    }
    co_state vf_state(co_ctx *c)
    {
        return c->state();
    }
    bool vf_test_flag(co_ctx *c, size_t f)
    {
        return c->test_flag(f);
    }
    void vf_with_priority(co_ctx_config *c, size_t v)
    {
        with_priority(v)(*c);
    }
    void vf_with_stack_size(co_ctx_config *c, size_t v)
    {
        with_stack_size(v)(*c);
    }
    void vf_with_bind_env(co_ctx_config *c, co_env *v)
    {
        with_bind_env(v)(*c);
    }
    void vf_with_name(co_ctx_config *c, const std::string *v)
    {
        with_name(*v)(*c);
    }
    void vf_with_shared_stack(co_ctx_config *c, bool v)
    {
        with_shared_stack(v)(*c);
    }
}
