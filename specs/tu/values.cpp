// Instances of the type-erased value and of coroutine-local variables under contract.
#include "cocpp/core/co_ctx.h"
#include "cocpp/core/co_return_value.h"
#include "cocpp/utils/co_any.h"
#include "off.h"

using namespace cocpp;

// any class that can be copied and default-created
struct vf_thing
{
    long id;
    vf_thing();
    vf_thing(const vf_thing &);
    vf_thing &operator=(const vf_thing &);
    ~vf_thing();
};

SIZE(any, co_any)
SIZE(retval, co_return_value)
SIZE(vctx, co_ctx)
OFF(ctx_locals, co_ctx, locals__)

#define INSTANCE(n, T)                                                  \
    extern "C" void vf_make_##n(co_any *a, const T *v)                  \
    {                                                                   \
        new (a) co_any(*v);                                             \
    }                                                                   \
    extern "C" void vf_store_##n(co_any *a, const T *v)                 \
    {                                                                   \
        *a = *v;                                                        \
    }                                                                   \
    extern "C" T *vf_read_##n(co_any *a)                                \
    {                                                                   \
        return &a->get<T>();                                            \
    }                                                                   \
    extern "C" void vf_result_##n(co_any *a, T *to)                     \
    {                                                                   \
        co_return_value r(*a);                                          \
        new (to) T((T)r);                                               \
    }                                                                   \
    extern "C" T *vf_local_##n(co_ctx *c, const std::string *name)      \
    {                                                                   \
        return &c->local_storage<T>(*name);                             \
    }                                                                   \
    extern "C" void vf_mklocal_##n(std::shared_ptr<co_local<T>> *p)     \
    {                                                                   \
        *p = std::make_shared<co_local<T>>();                           \
    }

INSTANCE(long, long)
INSTANCE(int, int)
INSTANCE(thing, vf_thing)

extern "C" void vf_empty(co_any *a)
{
    new (a) co_any();
}
extern "C" void vf_copy(co_any *a, const co_any *b)
{
    new (a) co_any(*b);
}
extern "C" void vf_assign(co_any *a, const co_any *b)
{
    *a = *b;
}
