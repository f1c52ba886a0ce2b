// Layout of a coroutine's handle and entry points for its members.
#include "cocpp/cocpp.h"
#include "cocpp/core/co_ctx.h"
#include "cocpp/core/co_env.h"
#include "cocpp/core/co_manager.h"
#include "cocpp/core/co_ctx_config.h"
#include "cocpp/core/co_ctx_factory.h"
#include "cocpp/core/co_stack.h"
#include "off.h"
#include <new>
#include <utility>

using namespace cocpp;
SIZE(handle, co)
OFF(handle_ctx, co, ctx__)

extern "C"
{
    void vf_handle_make(co *h, void (*f)())
    {
        new (h) co(f);
    }
    void vf_handle_move(co *n, co *o)
    {
        new (n) co(std::move(*o));
    }
    void vf_handle_assign(co *n, co *o)
    {
        *n = std::move(*o);
    }
    void vf_handle_destroy(co *h)
    {
        h->~co();
    }
    void vf_handle_detach(co *h)
    {
        h->detach();
    }
    void vf_handle_join(co *h)
    {
        h->join();
    }
}

OFF(env_sw_from, co_env, shared_stack_switch_info__.from)
OFF(env_sw_to, co_env, shared_stack_switch_info__.to)
OFF(env_sw_need, co_env, shared_stack_switch_info__.need_switch)
