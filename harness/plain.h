// Scenarios that run the repository's own scheduler: one environment on this thread (or real threads), inputs
// enumerated by pick().  Same command line as the controlled scheduler.
#pragma once
#include "cocpp/cocpp.h"
#include "cocpp/core/co_ctx.h"
#include "cocpp/core/co_ctx_config.h"
#include "cocpp/core/co_ctx_factory.h"
#include "cocpp/core/co_env.h"
#include "cocpp/core/co_env_factory.h"
#include "cocpp/core/co_manager.h"
#include "cocpp/core/co_stack.h"
#include "cocpp/core/co_stack_factory.h"
#include "cocpp/core/co_timer.h"
#include "cocpp/core/co_vos.h"
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <vector>

namespace pl
{
struct Choice
{
    int c, n;
};
inline std::vector<Choice> trace;
inline std::vector<int> prefix;
inline std::string notes;
inline char *shared_buf = nullptr;
inline const size_t SHARED = 1 << 16;
inline const char *scn_name = "";
inline bool replaying = false;

inline std::string choices()
{
    std::string s;
    for (size_t i = 0; i < trace.size(); ++i)
        if (trace[i].c)
            s += (s.empty() ? "" : ",") + std::to_string(i) + ":" + std::to_string(trace[i].c);
    return "c" + (s.empty() ? std::string("-") : s);
}

inline int pick(int n)
{
    int c = trace.size() < prefix.size() ? prefix[trace.size()] : 0;
    if (c >= n)
        c = 0;
    trace.push_back({c, n});
    snprintf(shared_buf, SHARED, "%s", choices().c_str());
    return c;
}

inline void note(const char *fmt, ...)
{
    char b[512];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    notes += std::string("    ") + b + "\n";
}

[[noreturn]] inline void fail(const std::string &m)
{
    if (replaying)
        printf("REPLAY-FAIL scenario=%s: %s\n%s", scn_name, m.c_str(), notes.c_str());
    else
        printf("FAIL scenario=%s choices=%s : %s\n%s", scn_name, choices().c_str(), m.c_str(), notes.c_str());
    fflush(stdout);
    _exit(1);
}

inline void require(bool c, const char *m)
{
    if (!c)
        fail(m);
}

// a sequence that differs with every seed
struct Rng
{
    unsigned long s;
    explicit Rng(unsigned long seed)
        : s(seed * 0x9E3779B97F4A7C15ul + 0x1234567)
    {
    }
    int operator()(int n)
    {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        return (int)((s >> 11) % (unsigned long)n);
    }
};

struct Scenario
{
    const char *name;
    std::function<void()> fn;
};
inline std::vector<Scenario> &scenarios()
{
    static std::vector<Scenario> s;
    return s;
}
struct Reg
{
    Reg(const char *n, std::function<void()> f)
    {
        scenarios().push_back({n, f});
    }
};

inline double wall()
{
    timeval t;
    gettimeofday(&t, nullptr);
    return t.tv_sec + t.tv_usec * 1e-6;
}

inline void once(const Scenario &s)
{
    trace.clear();
    notes.clear();
    alarm(30);
    s.fn();
    alarm(0);
}

inline void explore(const Scenario &s, double per)
{
    double t0 = wall();
    long n = 0;
    bool more = true, all = true;
    prefix.clear();
    while (more)
    {
        snprintf(shared_buf, SHARED, "c-");
        once(s);
        ++n;
        more = false;
        for (int i = (int)trace.size() - 1; i >= 0; --i)
            if (trace[i].c + 1 < trace[i].n)
            {
                prefix.clear();
                for (int j = 0; j < i; ++j)
                    prefix.push_back(trace[j].c);
                prefix.push_back(trace[i].c + 1);
                more = true;
                break;
            }
        if (more && wall() - t0 > per)
            more = all = false;
    }
    printf("OK scenario=%s executions=%ld %s wall=%.1f\n", s.name, n, all ? "every listed input" : "time limit reached", wall() - t0);
    fflush(stdout);
    _exit(0);
}

inline int main_(int argc, char **argv)
{
    std::string only, replay;
    double limit = 20;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        if (a == "--scn")
            only = argv[++i];
        else if (a == "--replay")
            replay = argv[++i];
        else if (a == "--time")
            limit = atof(argv[++i]);
        else if (a == "--deeper")
            ++i;
        else if (a == "--list")
        {
            for (auto &s : scenarios())
                printf("%s\n", s.name);
            return 0;
        }
    }
    signal(SIGPIPE, SIG_IGN);
    shared_buf = (char *)mmap(nullptr, SHARED, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int bad = 0, nsel = 0;
    for (auto &s : scenarios())
        nsel += only.empty() || only == s.name;
    double per = limit / (nsel ? nsel : 1);
    for (auto &s : scenarios())
    {
        if (!only.empty() && only != s.name)
            continue;
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0)
        {
            scn_name = s.name;
            if (!replay.empty())
            {
                replaying = true;
                std::string r = replay.substr(1);
                if (r != "-")
                    for (char *p = strtok(strdup(r.c_str()), ","); p; p = strtok(nullptr, ","))
                    {
                        size_t at = atoi(p);
                        char *q = strchr(p, ':');
                        if (prefix.size() <= at)
                            prefix.resize(at + 1);
                        prefix[at] = q ? atoi(q + 1) : 1;
                    }
                once(s);
                printf("REPLAY-OK scenario=%s\n", s.name);
                fflush(stdout);
                _exit(0);
            }
            explore(s, per);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFSIGNALED(st))
        {
            if (WTERMSIG(st) == SIGALRM)
                printf("FAIL scenario=%s choices=%s : does not come to an end\n", s.name, shared_buf);
            else
                printf("FAIL scenario=%s choices=%s : crashed with signal %d\n", s.name, shared_buf, WTERMSIG(st));
            ++bad;
        }
        else if (WEXITSTATUS(st) == 77)
        {
            printf("FAIL scenario=%s choices=%s : crashed\n", s.name, shared_buf);
            ++bad;
        }
        else if (WEXITSTATUS(st))
            ++bad;
    }
    return bad ? 1 : 0;
}
}

#define SCENARIO(n)                     \
    static void scn_##n();              \
    static pl::Reg reg_##n(#n, scn_##n); \
    static void scn_##n()

extern "C" const char *__asan_default_options()
{
    return "detect_stack_use_after_return=0:detect_leaks=0:abort_on_error=1:exitcode=77";
}

int main(int argc, char **argv)
{
    return pl::main_(argc, argv);
}
