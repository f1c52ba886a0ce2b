// Layout of saved registers.
#include "cocpp/core/co_ctx.h"
#include "cocpp/core/co_env.h"
#include "cocpp/core/co_stack.h"
#include "cocpp/exception/co_exception.h"
#include "off.h"
using namespace cocpp;
SIZE(sigc, sigcontext_64)
OFF(sc_r8, sigcontext_64, r8)
OFF(sc_r9, sigcontext_64, r9)
OFF(sc_r10, sigcontext_64, r10)
OFF(sc_r11, sigcontext_64, r11)
OFF(sc_r12, sigcontext_64, r12)
OFF(sc_r13, sigcontext_64, r13)
OFF(sc_r14, sigcontext_64, r14)
OFF(sc_r15, sigcontext_64, r15)
OFF(sc_rdi, sigcontext_64, di)
OFF(sc_rsi, sigcontext_64, si)
OFF(sc_rbp, sigcontext_64, bp)
OFF(sc_rbx, sigcontext_64, bx)
OFF(sc_rdx, sigcontext_64, dx)
OFF(sc_rax, sigcontext_64, ax)
OFF(sc_rcx, sigcontext_64, cx)
OFF(sc_rsp, sigcontext_64, sp)
OFF(sc_rip, sigcontext_64, ip)
OFF(sc_flags, sigcontext_64, flags)
SIZE(swctx, co_ctx)
SIZE(swenv, co_env)
SIZE(swstack, co_stack)
OFF(sw_regs, co_ctx, regs__)
OFF(sw_prectx, co_ctx, pre_ctx__)
OFF(sw_stack_ptr, co_stack, stack__)
OFF(sw_stack_size, co_stack, size__)
OFF(sw_schedlock, co_env, schedule_lock__)
OFF(sw_count, co_recursive_mutex_with_count, count__)
SIZE(sw_lock, co_recursive_mutex_with_count)
OFF(sw_stack, co_ctx, stack__)
