// Layout of stacks and saved registers.
#include "cocpp/core/co_ctx.h"
#include "cocpp/core/co_env.h"
#include "cocpp/core/co_stack.h"
#include "cocpp/core/co_stack_factory.h"
#include "cocpp/core/co_vos.h"
#include "cocpp/exception/co_exception.h"
#include "off.h"

using namespace cocpp;
SIZE(stack, co_stack)
OFF(stack_mem, co_stack, stack__)
OFF(stack_size, co_stack, size__)
OFF(env_shared_stack, co_env, shared_stack__)
OFF(saved_sp, sigcontext_64, sp)
