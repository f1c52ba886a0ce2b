"""The counting lock of a scheduler, preemption guards, and forced preemption.

The count is the number of reasons not to preempt the scheduler's thread.  Ghost 'own': how many of them belong to the thread
under consideration; other threads contribute any number at any time, but never take one of ours away."""
import z3
from values import *
import conc, oslock
from execu import Results, NOVAL, END

SRCS = ['core/co_env.cpp', 'core/co_vos_gcc_x86_64.cpp', 'core/co_ctx.cpp']
TUS = ['ctxsw.cpp']
REGS = ['r8', 'r9', 'r10', 'r11', 'r12', 'r13', 'r14', 'r15', 'rdi', 'rsi', 'rbp', 'rbx', 'rdx', 'rax', 'rcx', 'rsp', 'rip', 'flags']
K = 'cocpp::co_recursive_mutex_with_count::'


def counting(ex, P, st, obj, lock_off, own):
    """the count of the lock at obj+lock_off, accessed by atomic steps"""
    for f in ('increate_count', 'decreate_count', 'lock', 'unlock', 'try_lock'):
        ex.handlers.pop(K + f, None)
    ex.handlers.pop('cocpp::co_env::schedule_lock', None)
    off = lock_off + P.off('sw_count')
    st.ghost['own'] = own
    st.ghost['seen0'] = False

    def others(st):
        n = fresh_int('others')
        st.assume(n >= 0)
        c = fresh_int('count')
        st.assume(c == zi(st.ghost['own']) + n)
        st.assume(z3.And(c >= 0, c < 2 ** 62))
        st.cells(obj.id, True)[off] = (8, c)
        return c

    def hook(ex, st, what, p, ords):
        p = ex.resolve_sym(st, p)
        if not (isinstance(p, Ptr) and p.obj == obj.id and is_num(p.off) and p.off == off):
            return
        if what in ('load', 'rmw', 'store'):
            st.ghost['before'] = others(st)
        if what == 'store-done':
            ex.oblige(st, 'the preemption count changes by atomic additions only', False)
        if what == 'rmw-done':
            new = zi(st.mem[obj.id][off][1])
            d = simp(z3.If(new >= 2 ** 63, new - 2 ** 64, new) - zi(st.ghost['before']))
            st.ghost['own'] = simp(zi(st.ghost['own']) + d)
            ex.oblige(st, 'preemption is not enabled more often than it was disabled', zi(st.ghost['own']) >= 0)
            locked(ex, st, obj, lock_off)
    ex.atomic_hook = hook
    oslock.install(ex)
    for n in ('lock', 'unlock', 'try_lock'):
        h0 = ex.handlers['std::recursive_mutex::' + n]

        def h(ex, st, c, h0=h0):
            r = h0(ex, st, c)
            for s, v in (r.outs if isinstance(r, Results) else [(st, r)]):
                if v is not END:
                    locked(ex, s, obj, lock_off)
            return r
        ex.handlers['std::recursive_mutex::' + n] = h


def locked(ex, st, obj, lock_off):
    """the scheduling lock counts as a reason all the time it is held"""
    d = oslock.depth(st, (obj.id, lock_off))
    ex.oblige(st, 'preemption is off while the scheduling lock is held', zi(st.ghost['own']) >= d)


def one(P, name, fname, args, before, after, depth0=0, ret=None):
    """function on a lock: what it does to the count and to the lock"""
    def body(ex):
        st = conc.initial(ex)
        o = ex.new_obj(st, 'lock', P.size('sw_lock'), 'param')
        own = fresh_int('own')
        st.assume(z3.And(own >= max(before, depth0), own < 2 ** 40))
        counting(ex, P, st, o, 0, own)
        if depth0:
            st.ghost[('depth', (o.id, 0))] = depth0
            st.ghost['held'] = ((o.id, 0),)
        cov = {}
        for s, k, v in ex.run_function(st, fname(ex), args(ex, st, o)):
            ex.oblige(s, '%s does not throw' % name, k == 'ret', where='exit')
            if k != 'ret':
                continue
            d = after(v)
            for cond, dc, dd in d:
                if ex.reachable(s, cond):
                    cov['%+d' % dc] = True
                ex.oblige(s, 'the preemption count changes by the right amount', z3.Implies(zb(cond), zi(s.ghost['own']) == own + dc), where='exit')
                ex.oblige(s, 'preemption lock: it is taken and released as it should', z3.Implies(zb(cond), z3.BoolVal(oslock.depth(s, (o.id, 0)) == depth0 + dd)), where='exit')
        return {'returns': bool(cov)}
    return P.fn(name, body)


def guards(P):
    lk = lambda ex, st, o: [Ptr(o.id, 0)]
    meth = lambda n: (lambda ex: ex.get(K + n))
    always = lambda dc, dd: (lambda v: [(True, dc, dd)])
    one(P, 'counting lock: lock', meth('lock'), lk, 0, always(1, 1))
    one(P, 'counting lock: unlock', meth('unlock'), lk, 1, always(-1, -1), depth0=1)
    one(P, 'counting lock: try_lock', meth('try_lock'), lk, 0, lambda v: [(zb(v), 1, 1), (z3.Not(zb(v)), 0, 0)])
    one(P, 'counting lock: add a reason', meth('increate_count'), lk, 0, always(1, 0))
    one(P, 'counting lock: remove a reason', meth('decreate_count'), lk, 1, always(-1, 0))

    def guard(ex, st, o):
        g = ex.new_obj(st, 'guard', 8, 'param')
        return [Ptr(g.id, 0), Ptr(o.id, 0)]

    def guarded(ex, st, o):
        g = ex.new_obj(st, 'guard', 8, 'param')
        st.cells(g.id, True)[0] = (8, Ptr(o.id, 0))
        return [Ptr(g.id, 0)]
    for n, dd in (('co_preempt_guard', 0), ('co_schedule_guard', 1)):
        one(P, n + ' (begin)', lambda ex, n=n: ex.get('cocpp::%s::%s' % (n, n)), guard, 0, always(1, dd))
        one(P, n + ' (end)', lambda ex, n=n: ex.get('cocpp::%s::~%s' % (n, n)), guarded, 1, always(-1, -dd), depth0=dd)


def forced(P, keep=True):
    """forced preemption, from the signal handler"""
    def body(ex):
        st = conc.initial(ex)
        env = ex.new_obj(st, 'env', P.size('swenv'), 'param')
        own = fresh_int('own')
        st.assume(z3.And(own >= 0, own < 2 ** 40))
        counting(ex, P, st, env, P.off('sw_schedlock'), own)
        ex.handlers['cocpp::co_manager::current_env'] = lambda ex, st, c: Ptr(env.id, 0)

        def regs(o, base):
            out = {}
            for r in REGS:
                x = fresh_int(r)
                st.assume(z3.And(x >= 0, x < 2 ** 64))
                st.cells(o.id, True)[base + P.off('sc_' + r)] = (8, x)
                out[r] = x
            return out
        rb = P.off('sw_regs')
        ctx = [ex.new_obj(st, 'coroutine %d' % i, P.size('swctx'), 'param') for i in (0, 1)]
        saved = [regs(o, rb) for o in ctx]
        sig = ex.new_obj(st, 'interrupted registers', P.size('sigc'), 'param')
        run_ = regs(sig, 0)
        key = (env.id, P.off('sw_schedlock'))
        ok = {'called': False}

        def prepare(ex, st, c):
            ex.oblige(st, 'forced preemption happens only if preemption is enabled', own == 0)
            ex.oblige(st, 'forced preemption happens only with the scheduling lock taken', z3.BoolVal(oslock.depth(st, key) == 1))
            ok['called'] = True
            st.ghost['prepared'] = False
            s2 = st.fork()
            s2.ghost['prepared'] = True
            ex.store(s2, c.args[1], Ptr(ctx[0].id, 0), ('ptr',), ex.mods[0])
            ex.store(s2, c.args[2], Ptr(ctx[1].id, 0), ('ptr',), ex.mods[0])
            return Results([(st, False), (s2, True)])
        ex.handlers['cocpp::co_env::prepare_to_switch'] = prepare
        cov = {'no preemption': False, 'preemption': False}

        def at(s, o, base, r):
            c = s.mem[o.id].get(base + P.off('sc_' + r))
            if c is None or c[0] != 8:
                raise Unsupported('saved registers')
            return zi(c[1] if not isinstance(c[1], (Ptr, Sym)) else ex.pterm(s, c[1]))
        for s, k, v in ex.run_function(st, ex.get('cocpp::switch_from_outside'), [Ptr(sig.id, 0)]):
            ex.oblige(s, 'the signal handler does not throw', k == 'ret', where='exit')
            if k != 'ret':
                continue
            ex.oblige(s, 'preemption is left as found', z3.And(zi(s.ghost['own']) == own, z3.BoolVal(oslock.depth(s, key) == 0)), where='exit')
            sw = s.ghost.get('prepared', False)
            cov['preemption' if sw else 'no preemption'] = True
            if not keep:
                continue
            for r in REGS:
                if sw:
                    ex.oblige(s, 'the interrupted registers are saved (%s)' % r, at(s, ctx[0], rb, r) == run_[r], where='exit')
                    ex.oblige(s, 'the registers of the next coroutine are restored (%s)' % r, at(s, sig, 0, r) == saved[1][r], where='exit')
                    ex.oblige(s, 'the saved registers of the next coroutine stay (%s)' % r, at(s, ctx[1], rb, r) == saved[1][r], where='exit')
                else:
                    ex.oblige(s, 'nothing changes without a switch (%s)' % r, z3.And(at(s, sig, 0, r) == run_[r], at(s, ctx[0], rb, r) == saved[0][r], at(s, ctx[1], rb, r) == saved[1][r]), where='exit')
        return cov
    return P.fn('switch_from_outside', body)


def run(P):
    guards(P)
    forced(P, False)
