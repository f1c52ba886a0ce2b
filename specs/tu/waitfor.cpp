// Waiting for a coroutine: layout and access to the results.
#include "cocpp/cocpp.h"
#include "cocpp/core/co_ctx.h"
#include "cocpp/core/co_env.h"
#include "cocpp/core/co_return_value.h"
#include "off.h"
#include <optional>

using namespace cocpp;
OFF(ctx_exception, co_ctx, exception__)
SIZE(any, co_any)
SIZE(retval, co_return_value)
OFF(retval_any, co_return_value, value__)
SIZE(optret, std::optional<co_return_value>)

extern "C"
{
    bool vf_has_result(std::optional<co_return_value> *o)
    {
        return o->has_value();
    }
    co_return_value *vf_result(std::optional<co_return_value> *o)
    {
        return &**o;
    }
    void vf_wait_for(co *h, std::optional<co_return_value> *r, long ms)
    {
        new (r) std::optional<co_return_value>(h->wait_for(std::chrono::milliseconds(ms)));
    }
    void vf_wait_void(co *h)
    {
        h->wait<void>();
    }
    int vf_wait_int(co *h)
    {
        return h->wait<int>();
    }
}
#include "cocpp/core/co_timer.h"
VAL(timer_once, co_expire_type::once)
