// Controlled scheduler: runs the repository's synchronisation code on small scenarios under every schedule that
// deviates from round robin at most D times.
#pragma once
#include "cocpp/cocpp.h"
#include "cocpp/core/co_ctx.h"
#include "cocpp/core/co_ctx_factory.h"
#include "cocpp/core/co_env.h"
#include "cocpp/core/co_manager.h"
#include "cocpp/core/co_stack.h"
#include "cocpp/core/co_stack_factory.h"
#include "cocpp/core/co_timer.h"
#include "cocpp/sync/co_spinlock.h"
#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace vs
{
struct Task;
void spawn(std::string name, std::function<void()> fn); // adds a coroutine to the scenario
bool run();                                             // runs until everything finished; false if some coroutine is stuck
void require(bool c, const char *msg);                  // property violated if false
void require_all_done();
int pick(int n);         // input choice, always enumerated
void point();            // an additional place where another coroutine may run
void relax();            // let the others go first
long now_ns();           // virtual time
void advance_ns(long d); // let virtual time pass
bool is_done(const std::string &name);
bool is_blocked(const std::string &name); // marked waiting and not runnable
int self();                               // index of the running coroutine
cocpp::co_ctx *self_ctx();
long preempt_count();
void note(const char *fmt, ...); // added to the counterexample
void abandon();                  // give up this execution silently (outside the scenario's scope)
extern int step_limit;
extern long yields; // switches requested so far in this execution

// A scenario file that is itself instrumented (because it instantiates templates of the repository) is switched at
// memory accesses only inside lib(), and not inside hush().
extern bool instrumented;
int set_loud(int v);
struct Loud
{
    int old;
    Loud(int v)
        : old(set_loud(v))
    {
    }
    ~Loud()
    {
        set_loud(old);
    }
};
template <class F>
decltype(auto) lib(F &&f)
{
    Loud l(1);
    return f();
}
template <class F>
decltype(auto) hush(F &&f)
{
    Loud l(0);
    return f();
}

struct Scenario
{
    const char *name;
    std::function<void()> fn;
    int depth; // default number of deviations
};
struct Reg
{
    Reg(const char *n, std::function<void()> f, int depth = 2);
};
std::vector<Scenario> &scenarios();
}

#define INSTRUMENTED static bool instrumented_file = (vs::instrumented = true)
#define SCENARIO(n, d)                     \
    static void scn_##n();                 \
    static vs::Reg reg_##n(#n, scn_##n, d); \
    static void scn_##n()
