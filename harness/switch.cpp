// Scenarios for the switch between two coroutines and for forced preemption, on the repository's own switch.
#include "plain.h"
#include "cocpp/exception/co_exception.h"
#include <sys/syscall.h>
#include <thread>
#include <ucontext.h>
using namespace cocpp;
using namespace pl;
using std::string;
using std::vector;

namespace cocpp
{
void co_manager::create_background_task__()
{
}
void set_up_signal_handler(const std::vector<int> &)
{
}
}

typedef unsigned long word;

// ---------------------------------------------------------------- the bare switch
// order of the registers in the arrays below
static const char *const NAMES[] = {"r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15", "rbp", "rbx", "rdx", "rax", "rcx", "rdi", "rsi", "the stack pointer", "the flags"};
enum
{
    NREG = 17
};
extern "C" {
word sw_in[NREG], sw_out[NREG], sw_seen[NREG], sw_trash[NREG];
word *sw_a, *sw_b;
void sw_go();
void sw_other();
// forced preemption of a running coroutine
word fp_in[9], fp_out[9 + 16];
void fp_probe();
word fp_pid, fp_tid, fp_sig;
}
#define MANGLED "_ZN5cocpp9switch_toEPPhS1_"
asm(R"(
    .text
    .globl sw_go
sw_go:
    pushq %rbx
    pushq %rbp
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $264, %rsp
    movq sw_in+0(%rip), %r8
    movq sw_in+8(%rip), %r9
    movq sw_in+16(%rip), %r10
    movq sw_in+24(%rip), %r11
    movq sw_in+32(%rip), %r12
    movq sw_in+40(%rip), %r13
    movq sw_in+48(%rip), %r14
    movq sw_in+56(%rip), %r15
    movq sw_in+64(%rip), %rbp
    movq sw_in+72(%rip), %rbx
    movq sw_in+80(%rip), %rdx
    movq sw_in+88(%rip), %rax
    movq sw_in+96(%rip), %rcx
    movq sw_a(%rip), %rdi
    movq sw_b(%rip), %rsi
    movq %rdi, sw_in+104(%rip)
    movq %rsi, sw_in+112(%rip)
    movq %rsp, sw_in+120(%rip)
    pushq sw_in+128(%rip)
    popfq
    call )" MANGLED R"(
    pushfq
    popq sw_out+128(%rip)
    cld
    movq %r8, sw_out+0(%rip)
    movq %r9, sw_out+8(%rip)
    movq %r10, sw_out+16(%rip)
    movq %r11, sw_out+24(%rip)
    movq %r12, sw_out+32(%rip)
    movq %r13, sw_out+40(%rip)
    movq %r14, sw_out+48(%rip)
    movq %r15, sw_out+56(%rip)
    movq %rbp, sw_out+64(%rip)
    movq %rbx, sw_out+72(%rip)
    movq %rdx, sw_out+80(%rip)
    movq %rax, sw_out+88(%rip)
    movq %rcx, sw_out+96(%rip)
    movq %rdi, sw_out+104(%rip)
    movq %rsi, sw_out+112(%rip)
    movq %rsp, sw_out+120(%rip)
    movq sw_in+120(%rip), %rsp
    addq $264, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbp
    popq %rbx
    ret

    .globl sw_other
sw_other:
    movq %rsp, sw_seen+120(%rip)
    pushfq
    popq sw_seen+128(%rip)
    movq %r8, sw_seen+0(%rip)
    movq %r9, sw_seen+8(%rip)
    movq %r10, sw_seen+16(%rip)
    movq %r11, sw_seen+24(%rip)
    movq %r12, sw_seen+32(%rip)
    movq %r13, sw_seen+40(%rip)
    movq %r14, sw_seen+48(%rip)
    movq %r15, sw_seen+56(%rip)
    movq %rbp, sw_seen+64(%rip)
    movq %rbx, sw_seen+72(%rip)
    movq %rdx, sw_seen+80(%rip)
    movq %rax, sw_seen+88(%rip)
    movq %rcx, sw_seen+96(%rip)
    movq %rdi, sw_seen+104(%rip)
    movq %rsi, sw_seen+112(%rip)
    movq sw_trash+0(%rip), %r8
    movq sw_trash+8(%rip), %r9
    movq sw_trash+16(%rip), %r10
    movq sw_trash+24(%rip), %r11
    movq sw_trash+32(%rip), %r12
    movq sw_trash+40(%rip), %r13
    movq sw_trash+48(%rip), %r14
    movq sw_trash+56(%rip), %r15
    movq sw_trash+64(%rip), %rbp
    movq sw_trash+72(%rip), %rbx
    movq sw_trash+80(%rip), %rdx
    movq sw_trash+88(%rip), %rax
    movq sw_trash+96(%rip), %rcx
    movq sw_b(%rip), %rdi
    movq sw_a(%rip), %rsi
    call )" MANGLED R"(
    ud2

    .globl fp_probe
fp_probe:
    pushq %rbx
    pushq %rbp
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8, %rsp
    movq fp_in+0(%rip), %rbx
    movq fp_in+8(%rip), %rbp
    movq fp_in+16(%rip), %r8
    movq fp_in+24(%rip), %r9
    movq fp_in+32(%rip), %r10
    movq fp_in+40(%rip), %r12
    movq fp_in+48(%rip), %r13
    movq fp_in+56(%rip), %r14
    movq fp_in+64(%rip), %r15
    movq fp_pid(%rip), %rdi
    movq fp_tid(%rip), %rsi
    movq fp_sig(%rip), %rdx
    movq %rbx, -8(%rsp)
    movq %rbp, -16(%rsp)
    movq %r8, -24(%rsp)
    movq %r9, -32(%rsp)
    movq %r10, -40(%rsp)
    movq %r12, -48(%rsp)
    movq %r13, -56(%rsp)
    movq %r14, -64(%rsp)
    movq %r15, -72(%rsp)
    movq %rbx, -80(%rsp)
    movq %rbp, -88(%rsp)
    movq %r8, -96(%rsp)
    movq %r9, -104(%rsp)
    movq %r10, -112(%rsp)
    movq %r12, -120(%rsp)
    movq %r13, -128(%rsp)
    movl $234, %eax
    syscall
    movq %rbx, fp_out+0(%rip)
    movq %rbp, fp_out+8(%rip)
    movq %r8, fp_out+16(%rip)
    movq %r9, fp_out+24(%rip)
    movq %r10, fp_out+32(%rip)
    movq %r12, fp_out+40(%rip)
    movq %r13, fp_out+48(%rip)
    movq %r14, fp_out+56(%rip)
    movq %r15, fp_out+64(%rip)
    movq -8(%rsp), %rcx
    movq %rcx, fp_out+72(%rip)
    movq -16(%rsp), %rcx
    movq %rcx, fp_out+80(%rip)
    movq -24(%rsp), %rcx
    movq %rcx, fp_out+88(%rip)
    movq -32(%rsp), %rcx
    movq %rcx, fp_out+96(%rip)
    movq -40(%rsp), %rcx
    movq %rcx, fp_out+104(%rip)
    movq -48(%rsp), %rcx
    movq %rcx, fp_out+112(%rip)
    movq -56(%rsp), %rcx
    movq %rcx, fp_out+120(%rip)
    movq -64(%rsp), %rcx
    movq %rcx, fp_out+128(%rip)
    movq -72(%rsp), %rcx
    movq %rcx, fp_out+136(%rip)
    movq -80(%rsp), %rcx
    movq %rcx, fp_out+144(%rip)
    movq -88(%rsp), %rcx
    movq %rcx, fp_out+152(%rip)
    movq -96(%rsp), %rcx
    movq %rcx, fp_out+160(%rip)
    movq -104(%rsp), %rcx
    movq %rcx, fp_out+168(%rip)
    movq -112(%rsp), %rcx
    movq %rcx, fp_out+176(%rip)
    movq -120(%rsp), %rcx
    movq %rcx, fp_out+184(%rip)
    movq -128(%rsp), %rcx
    movq %rcx, fp_out+192(%rip)
    addq $8, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbp
    popq %rbx
    ret
)");

static word FLAGS[] = {0x202, 0x203, 0x206, 0x242, 0x282, 0xa02, 0x602, 0xed7};

SCENARIO(sw_registers)
{
    Rng r(pick(2000) + 1);
    auto any = [&] { return ((word)r(1 << 30) << 40) ^ ((word)r(1 << 30) << 18) ^ (word)r(1 << 30); };
    alignas(16) static unsigned char mem[2][sizeof(co_ctx)];
    alignas(16) static unsigned char stack[2048];
    memset(mem, 0, sizeof(mem));
    auto *a = (sigcontext_64 *)((co_ctx *)mem[0])->regs__, *b = (sigcontext_64 *)((co_ctx *)mem[1])->regs__;
    sw_a = (word *)a;
    sw_b = (word *)b;
    for (int i = 0; i < NREG; ++i)
        sw_in[i] = any(), sw_trash[i] = any(), sw_out[i] = sw_seen[i] = 0;
    sw_in[16] = FLAGS[r(8)];
    for (auto &c : stack)
        c = (unsigned char)r(256);
    word want[NREG] = {b->r8 = any(), b->r9 = any(), b->r10 = any(), b->r11 = any(), b->r12 = any(), b->r13 = any(), b->r14 = any(), b->r15 = any(),
                       b->bp = any(), b->bx = any(), b->dx = any(), b->ax = any(), b->cx = any(), b->di = any(), b->si = any(),
                       b->sp = (word)(stack + 1024), b->flags = FLAGS[r(5)]};
    b->ip = (word)&sw_other;
    sw_go();
    for (int i = 0; i < NREG; ++i)
    {
        if (sw_seen[i] != want[i])
        {
            note("%s is %lx instead of %lx", NAMES[i], sw_seen[i], want[i]);
            fail("a coroutine is resumed with other register contents than it was left with");
        }
        if (sw_out[i] != sw_in[i])
        {
            note("%s is %lx instead of %lx", NAMES[i], sw_out[i], sw_in[i]);
            fail("a coroutine finds other register contents after a switch than before");
        }
    }
    require(((co_ctx *)mem[1])->pre_ctx__ != nullptr, "the coroutine switched from is not known to the one switched to");
}

// ---------------------------------------------------------------- a scheduler on this thread
static volatile int handled = 0, wanted = 0;
static void handler(int, siginfo_t *, void *u)
{
    ++handled;
    switch_from_outside((sigcontext_64 *)((ucontext_t *)u)->uc_mcontext.gregs);
}
struct Env
{
    co_env *env;
    int live = 0;
    Env()
    {
        current_env__ = nullptr;
        env = co_env_factory::create_env_from_this_thread(1 << 16);
        current_env__ = env;
        env->set_state(co_env_state::idle);
        struct sigaction sa = {};
        sa.sa_sigaction = handler;
        sa.sa_flags = SA_SIGINFO;
        sigaction(SIGUSR1, &sa, nullptr);
        fp_pid = (word)::getpid();
        fp_tid = (word)::syscall(SYS_gettid);
        fp_sig = SIGUSR1;
        handled = 0;
    }
    co_ctx *create(std::function<void()> f, size_t stack = 1 << 16, int prio = 3)
    {
        ++live;
        co_ctx_config cfg;
        cfg.bind_env = env;
        cfg.priority = prio;
        cfg.stack_size = stack;
        return co_manager::instance()->create_and_schedule_ctx(
            cfg, [this, f](co_any &) {
                f();
                if (!--live)
                    env->stop_schedule();
            },
            false);
    }
    void go()
    {
        env->schedule_in_this_thread();
        require(live == 0, "the scheduler ended although coroutines are left");
    }
    long count()
    {
        return env->schedule_lock__.count__.load();
    }
    // does the thread's code lose the processor if a preemption signal arrives now?
    bool preempted(volatile int &others)
    {
        int before = others;
        ::syscall(SYS_tgkill, fp_pid, fp_tid, SIGUSR1);
        return others != before;
    }
};

SCENARIO(sw_new)
{
    static const size_t SIZES[] = {1 << 14, (1 << 14) + 1, (1 << 14) + 7, (1 << 14) + 8, (1 << 14) + 9, (1 << 14) + 15, (1 << 14) + 24, 20000, 65535, 65544, 100001, 1 << 17};
    size_t size = SIZES[pick(12)];
    Env e;
    struct alignas(16) V
    {
        float f[4];
    };
    static volatile int ran;
    ran = 0;
    for (int i = 0; i < 2; ++i)
    {
        e.create([&e, i, size] {
            volatile V v;
            auto ctx = e.env->current_ctx();
            auto p = (unsigned char *)&v;
            auto s = ctx->stack();
            note("stack of %zu bytes at %p, local variable at %p", size, (void *)s->stack(), (void *)p);
            require(p >= s->stack() && p + sizeof(v) <= s->stack() + s->stack_size(), "a coroutine runs outside of its own stack");
            // a compiler may rely on the alignment that calls have, so it is taken from the frame of this function
            auto fr = (word)__builtin_frame_address(0);
            require(fr % 16 == 0, "a coroutine starts on a stack that is not aligned as the calling convention asks for");
            ran = ran + 1;
            e.env->schedule_switch();
            ran = ran + 1;
        },
                 size);
    }
    e.go();
    require(ran == 4, "a new coroutine did not run its function");
}

// a coroutine is interrupted between two instructions and continues unchanged, whoever resumes it and however
static void probe(Rng &r)
{
    word in[9];
    for (auto &x : in)
        x = ((word)r(1 << 30) << 34) ^ (word)r(1 << 30);
    memcpy(fp_in, in, sizeof(in));
    fp_probe();
    word out[25];
    memcpy(out, fp_out, sizeof(out));
    static const char *const N[] = {"rbx", "rbp", "r8", "r9", "r10", "r12", "r13", "r14", "r15"};
    for (int i = 0; i < 9; ++i)
        if (out[i] != in[i])
        {
            note("%s is %lx instead of %lx", N[i], out[i], in[i]);
            fail("a preempted coroutine continues with other register contents");
        }
    for (int i = 0; i < 16; ++i)
        if (out[9 + i] != in[i % 9])
        {
            note("%d bytes below the stack pointer: %lx instead of %lx", 8 * (i + 1), out[9 + i], in[i % 9]);
            fail("a preempted coroutine continues with other contents of its stack");
        }
}

SCENARIO(sw_forced)
{
    Rng r(pick(3000) + 1);
    Env e;
    static volatile int turn;
    turn = -1;
    int n = 2 + r(3);
    for (int i = 0; i < n; ++i)
        e.create([&e, &r, i] {
            for (int k = 0; k < 6; ++k)
            {
                long mine[32];
                for (int j = 0; j < 32; ++j)
                    mine[j] = i * 1000 + k * 32 + j;
                asm volatile("" ::"r"(mine) : "memory");
                turn = i;
                if (r(2))
                    probe(r);
                else
                    e.env->schedule_switch();
                asm volatile("" ::"r"(mine) : "memory");
                for (int j = 0; j < 32; ++j)
                    require(mine[j] == i * 1000 + k * 32 + j, "a coroutine continues with other local variables");
            }
        });
    e.go();
}

// the preemption signal arrives at the n-th instruction of the switch itself
static int window_at, window_seen;
static void stepper(int, siginfo_t *, void *u)
{
    auto g = ((ucontext_t *)u)->uc_mcontext.gregs;
    static const word begin = (word)&switch_to;
    word ip = (word)g[REG_RIP];
    if (ip >= begin && ip < begin + 200)
    {
        if (window_seen++ < window_at)
            return;
        g[REG_EFL] &= ~0x100l;
        switch_from_outside((sigcontext_64 *)g);
    }
    else if (window_seen)
        g[REG_EFL] &= ~0x100l;
}

SCENARIO(sw_window)
{
    window_at = pick(30);
    window_seen = 0;
    Env e;
    struct sigaction sa = {};
    sa.sa_sigaction = stepper;
    sa.sa_flags = SA_SIGINFO;
    sigaction(SIGTRAP, &sa, nullptr);
    static volatile int resumed[3];
    for (int i = 0; i < 3; ++i)
    {
        resumed[i] = 0;
        e.create([&e, i] {
            for (int k = 0; k < 4; ++k)
            {
                if (i == 0 && k == 1)
                    asm volatile("pushfq; orq $0x100, (%%rsp); popfq" ::: "memory", "cc");
                int me = i, turn = k;
                asm volatile("" : "+r"(me), "+r"(turn)::"memory");
                e.env->schedule_switch();
                asm volatile("" : "+r"(me), "+r"(turn)::"memory");
                require(me == i && turn == k && resumed[i] == k, "a coroutine continues at another place than where it was suspended");
                resumed[i] = k + 1;
            }
        });
    }
    e.go();
    for (int i = 0; i < 3; ++i)
        require(resumed[i] == 4, "a coroutine was not resumed as often as it was suspended");
}

// ---------------------------------------------------------------- preemption is off where it has to be
SCENARIO(pre_guards)
{
    Rng r(pick(3000) + 1);
    Env e;
    static volatile int others, over;
    others = 0;
    over = 0;
    e.create([&] {
        std::function<void(int)> nest = [&](int depth) {
            long c0 = e.count();
            switch (r(4))
            {
            case 0: {
                CoPreemptGuard();
                require(!e.preempted(others), "a coroutine was preempted although it had disabled preemption");
                if (depth < 3 && r(2))
                    nest(depth + 1);
                require(!e.preempted(others), "a coroutine was preempted although it had disabled preemption");
                break;
            }
            case 1: {
                e.env->schedule_lock().lock();
                require(!e.preempted(others), "a coroutine was preempted although the scheduler's lock is held");
                if (depth < 3 && r(2))
                    nest(depth + 1);
                require(!e.preempted(others), "a coroutine was preempted although the scheduler's lock is held");
                e.env->schedule_lock().unlock();
                break;
            }
            case 2: {
                require(e.env->schedule_lock().try_lock(), "a free lock cannot be had");
                require(!e.preempted(others), "a coroutine was preempted although the scheduler's lock is held");
                if (depth < 3 && r(2))
                    nest(depth + 1);
                e.env->schedule_lock().unlock();
                break;
            }
            case 3: {
                co_schedule_guard g(e.env->schedule_lock());
                require(!e.preempted(others), "a coroutine was preempted although the scheduler's lock is held");
                if (depth < 3 && r(2))
                    nest(depth + 1);
                require(!e.preempted(others), "a coroutine was preempted although the scheduler's lock is held");
                break;
            }
            }
            require(e.count() == c0, "preemption is not left as it was found");
        };
        for (int i = 0; i < 4; ++i)
        {
            nest(0);
            require(e.preempted(others), "preemption does not happen although it is enabled");
        }
        over = 1;
    });
    e.create([&] {
        while (!over)
        {
            others = others + 1;
            e.env->schedule_switch();
        }
    });
    e.go();
}

// another thread holds the lock of the scheduler, or has tried in vain to get it
SCENARIO(pre_thread)
{
    int how = pick(3);
    Env e;
    static volatile int others, over;
    others = 0;
    over = 0;
    e.create([&] {
        std::atomic<int> at{0};
        std::thread t([&] {
            if (how < 2)
            {
                if (how == 0)
                    e.env->schedule_lock().lock();
                else
                    require(e.env->schedule_lock().try_lock(), "a free lock cannot be had");
                at = 1;
                while (at != 2)
                    ;
                e.env->schedule_lock().unlock();
            }
            else
            {
                while (at != 1)
                    ;
                require(!e.env->schedule_lock().try_lock(), "a lock that is held can be had");
                at = 2;
            }
        });
        if (how < 2)
        {
            while (at != 1)
                ;
            require(!e.preempted(others), "a coroutine was preempted although another thread holds the scheduler's lock");
            at = 2;
        }
        else
        {
            e.env->schedule_lock().lock();
            at = 1;
            while (at != 2)
                ;
            require(!e.preempted(others), "a coroutine was preempted although the scheduler's lock is held");
            e.env->schedule_lock().unlock();
        }
        t.join();
        require(e.count() == 0, "preemption is not left as it was found");
        require(e.preempted(others), "preemption does not happen although it is enabled");
        over = 1;
    });
    e.create([&] {
        while (!over)
        {
            others = others + 1;
            e.env->schedule_switch();
        }
    });
    e.go();
}
