"""Contracts of the condition variable."""
import z3
from values import *
from execu import END
import conc, stl, msync
from conc import Monitor, Field, same, bool_array
from mutex import common_post
from msync import fresh_arg, signed

SRCS = ['sync/co_condition_variable.cpp', 'utils/co_utils.cpp', 'core/co_env.cpp']
TUS = ['cv.cpp']
C = 'cocpp::co_condition_variable_impl::'


def inv(v):
    q, W = v['waiters'], v['W']
    i, c = z3.Ints('i c')
    return [
        ('registered coroutines are distinct', q.wf()),
        ('nobody registered is null', z3.ForAll([i], z3.Implies(z3.And(q.lo <= i, i < q.hi), q.arr[i] != 0), patterns=[q.arr[i]])),
        ('a coroutine marked waiting is registered', z3.ForAll([c], z3.Implies(W[c], q.member(c)), patterns=[W[c]])),
        ('a registered coroutine is marked waiting', z3.ForAll([i], z3.Implies(z3.And(q.lo <= i, i < q.hi), W[q.arr[i]]), patterns=[q.arr[i]])),
    ]


def kept(q, p, lo, hi):
    i = z3.Int('i')
    return z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), p.arr[i] == q.arr[i]), patterns=[p.arr[i]])


def removed_one(q, p, c):
    """p is q without c"""
    i = z3.Int('i')
    k = q.pos[c]
    return z3.And(q.member(c), z3.Not(p.member(c)),
                  z3.Or(z3.And(p.lo == q.lo, p.hi == q.hi - 1,
                               z3.ForAll([i], z3.Implies(z3.And(p.lo <= i, i < p.hi), p.arr[i] == z3.If(i < k, q.arr[i], q.arr[i + 1])), patterns=[p.arr[i]])),
                        z3.And(k == q.lo, p.lo == q.lo + 1, p.hi == q.hi, kept(q, p, p.lo, p.hi))))


def guar(a, b, me):
    q, p = a['waiters'], b['waiters']
    c = z3.Int('c')
    front = q.arr[q.lo]
    nonempty = q.lo < q.hi
    return [
        ('the registered coroutines change only by appending the caller, removing the first, or removing all',
         z3.Or(same(q, p),
               z3.And(p.lo == q.lo, p.hi == q.hi + 1, p.arr[q.hi] == me, kept(q, p, q.lo, q.hi)),
               z3.And(nonempty, p.lo == q.lo + 1, p.hi == q.hi, kept(q, p, p.lo, p.hi)),
               p.lo == p.hi)),
        ('waiting marks of other coroutines are never set', z3.ForAll([c], z3.Implies(z3.And(c != me, b['W'][c]), a['W'][c]), patterns=[b['W'][c]])),
    ]


def rely(a, b, me):
    q, p = a['waiters'], b['waiters']
    return [('nobody is registered without asking', z3.Implies(z3.Not(q.member(me)), z3.Not(p.member(me)))),
            ('nobody else marks this coroutine waiting', z3.Implies(b['W'][me], a['W'][me]))]


def cands():
    return [('caller not registered', lambda v, me: z3.Not(v['waiters'].member(me))),
            ('caller registered', lambda v, me: v['waiters'].member(me)),
            ('caller not marked', lambda v, me: z3.Not(v['W'][me]))]


def setup(ex, P, user=True, guarantee=guar):
    st = conc.initial(ex)
    o = ex.new_obj(st, 'cv', P.size('cv'), 'param')
    cd = stl.ptr_codec('ctx')
    m = Monitor('condition variable', o, P.off('cv_lock'), [Field('waiters', P.off('cv_waiters'), 24, 'list', cd=cd, pos=True)],
                ghosts=[('W', bool_array)], inv=inv, guar=guarantee, rely=rely, cands=cands)
    m.entry_facts = lambda v, me: [z3.Not(v['waiters'].member(me))]
    m.on_release = track
    m.install(ex, st)
    ex.marks[(o.id, 0)] = m
    st.ghost.update({'user': True, 'registered': 0, 'woken': 0, 'released': 0})
    u = ex.new_obj(st, 'user lock', 8, 'param')

    def right(ex, st, c):
        ex.oblige(st, 'the lock used is the caller\'s', ex.ptr_eq(st, c.args[0], Ptr(u.id, 0)))

    def lock(ex, st, c):
        right(ex, st, c)
        conc.blocking_point(ex, st, 'lock')
        ex.oblige(st, 'the caller\'s lock is locked only when it is not held', z3.Not(zb(st.ghost['user'])))
        st.ghost['user'] = True

    def unlock(ex, st, c):
        right(ex, st, c)
        ex.oblige(st, 'the caller\'s lock is unlocked only when it is held', zb(st.ghost['user']))
        reg = z3.Or(m.held(st), zi(st.ghost['registered']) == 1)
        ex.oblige(st, 'the caller\'s lock is not released before the waiter can be found by a notification', reg)
        st.ghost['user'] = False
        st.ghost['released'] = 1
    ex.handlers['user_lock::lock'] = lock
    ex.handlers['user_lock::unlock'] = unlock
    ex.unlocks = unlock

    def yield_(ex, st, c):
        ex.oblige(st, 'the coroutine suspends only after it was registered and its lock released',
                  z3.And(zi(st.ghost['registered']) == 1, z3.Not(zb(st.ghost['user']))))
        return conc.h_yield(ex, st, c)
    ex.handlers['cocpp::co_env::schedule_switch'] = yield_
    return st, o, u, m


def track(ex, st, a, b):
    q, p = a['waiters'], b['waiters']
    st.ghost['registered'] = simp(zi(st.ghost['registered']) + z3.If(z3.And(z3.Not(q.member(ex.me)), p.member(ex.me)), 1, 0))
    d = (q.hi - q.lo) - (p.hi - p.lo)
    st.ghost['woken'] = simp(zi(st.ghost['woken']) + z3.If(d > 0, d, 0))
    # registered with the lock held, or with the lock already released while nobody could look
    ex.oblige(st, 'a waiter is registered by the time others can see that its lock is free',
              z3.Implies(zi(st.ghost['released']) == 1, zi(st.ghost['registered']) >= 1))


def prove_wait(P):
    def body(ex):
        st, o, u, m = setup(ex, P)
        cov = {'returns': False}
        for s, k, val in ex.run_function(st, ex.get(C + 'wait', targs=r'^user_lock$'), [Ptr(o.id, 0), Ptr(u.id, 0)]):
            common_post(ex, s)
            ex.oblige(s, 'wait does not throw', k == 'ret', where='exit')
            v = m.observe(ex, s)
            ex.oblige(s, 'wait returns with the caller\'s lock held', zb(s.ghost['user']), where='exit')
            ex.oblige(s, 'wait registers the caller exactly once', zi(s.ghost['registered']) == 1, where='exit')
            ex.oblige(s, 'wait wakes nobody', zi(s.ghost['woken']) == 0, where='exit')
            ex.oblige(s, 'wait returns only after a notification removed the waiter', z3.Not(v['waiters'].member(ex.me)), where='exit')
            cov['returns'] = cov['returns'] or ex.reachable(s)
        return cov
    return P.fn('co_condition_variable::wait', body)


def prove_wait_pred(P):
    def body(ex):
        st, o, u, m = setup(ex, P)
        pr = ex.new_obj(st, 'predicate', 1, 'param')
        st.ghost.update({'pred': 0, 'waits': 0})
        wait_contract(ex, o, u)
        predicate(ex)
        fn = ex.get(C + 'wait', targs=r'^user_lock, user_pred$')
        args = [Ptr(o.id, 0), Ptr(u.id, 0)] + ([Ptr(pr.id, 0)] if len(ex.funcs[fn].parse().params) > 2 else [])
        cov = {'at once': False, 'after waiting': False}
        for s, k, val in ex.run_function(st, fn, args):
            common_post(ex, s)
            ex.oblige(s, 'wait does not throw', k == 'ret', where='exit')
            ex.oblige(s, 'a predicate wait returns with the caller\'s lock held', zb(s.ghost['user']), where='exit')
            ex.oblige(s, 'a predicate wait returns only when the predicate is true', zi(s.ghost['pred']) == 2, where='exit')
            w = zi(s.ghost['waits'])
            cov['at once'] = cov['at once'] or ex.reachable(s, w == 0)
            cov['after waiting'] = cov['after waiting'] or ex.reachable(s, w > 0)
        return cov
    return P.fn('co_condition_variable::wait with a predicate', body)


def predicate(ex):
    """ghost pred: 0 not evaluated since the last wait, 1 found false, 2 found true"""
    def pred(ex, st, c):
        ex.oblige(st, 'the predicate is evaluated with the caller\'s lock held', zb(st.ghost['user']))
        b = fresh_bool('pred')
        st.ghost['pred'] = simp(z3.If(b, z3.IntVal(2), z3.IntVal(1)))
        return b
    ex.handlers['user_pred::operator()'] = pred


def wait_contract(ex, o, u):
    def wait(ex, st, c):
        if len(stl.split_targs(c.targs[-1])) != 1:
            from execu import INLINE
            return INLINE
        ex.oblige(st, 'a wait is on this condition variable with the caller\'s lock',
                  z3.And(zb(ex.ptr_eq(st, c.args[0], Ptr(o.id, 0))), zb(ex.ptr_eq(st, c.args[1], Ptr(u.id, 0)))))
        ex.oblige(st, 'a wait is entered with the caller\'s lock held', zb(st.ghost['user']))
        ex.oblige(st, 'a predicate wait blocks only after it found the predicate false', zi(st.ghost['pred']) == 1)
        conc.blocking_point(ex, st, 'wait')
        st.ghost['pred'] = 0
        st.ghost['waits'] = simp(zi(st.ghost['waits']) + 1)
    ex.handlers[C + 'wait'] = wait


def prove_notify_one(P):
    def body(ex):
        st, o, u, m = setup(ex, P)
        cov = {'wakes': False, 'nobody': False}
        for s, k, val in ex.run_function(st, ex.get(C + 'notify_one'), [Ptr(o.id, 0)]):
            common_post(ex, s)
            ex.oblige(s, 'notify_one does not throw', k == 'ret', where='exit')
            a, b = s.ghost[('snap', m.name)], s.ghost[('last', m.name)]
            q, p = a['waiters'], b['waiters']
            front = q.arr[q.lo]
            n = q.lo < q.hi
            c = z3.Int('c')
            ex.oblige(s, 'notify_one wakes exactly one coroutine if one is registered', zi(s.ghost['woken']) == z3.If(n, 1, 0), where='exit')
            ex.oblige(s, 'notify_one wakes the one registered longest', z3.Implies(n, z3.And(z3.Not(p.member(front)), z3.Not(b['W'][front]))), where='exit')
            ex.oblige(s, 'notify_one leaves the others waiting', z3.ForAll([c], z3.Implies(z3.And(a['W'][c], z3.Not(z3.And(n, c == front))), b['W'][c]), patterns=[b['W'][c]]), where='exit')
            ex.oblige(s, 'notify_one does not register anybody', zi(s.ghost['registered']) == 0, where='exit')
            ex.oblige(s, 'notify_one does not wait', zi(s.ghost['yields']) == 0, where='exit')
            cov['wakes'] = cov['wakes'] or ex.reachable(s, n)
            cov['nobody'] = cov['nobody'] or ex.reachable(s, z3.Not(n))
        return cov
    return P.fn('co_condition_variable::notify_one', body)


def prove_notify_all(P):
    def body(ex):
        st, o, u, m = setup(ex, P)
        cov = {'wakes': False}
        for s, k, val in ex.run_function(st, ex.get(C + 'notify_all'), [Ptr(o.id, 0)]):
            common_post(ex, s)
            ex.oblige(s, 'notify_all does not throw', k == 'ret', where='exit')
            a, b = s.ghost[('snap', m.name)], s.ghost[('last', m.name)]
            q, p = a['waiters'], b['waiters']
            c = z3.Int('c')
            ex.oblige(s, 'notify_all wakes everybody registered', z3.And(p.lo == p.hi, z3.ForAll([c], z3.Not(b['W'][c]), patterns=[b['W'][c]])), where='exit')
            ex.oblige(s, 'notify_all does not wait', zi(s.ghost['yields']) == 0, where='exit')
            cov['wakes'] = cov['wakes'] or ex.reachable(s, q.lo < q.hi)
        return cov
    return P.fn('co_condition_variable::notify_all', body)


def run(P):
    msync.protocol(P, 'condition variable', lambda ex: setup(ex, P)[3])
    run_ops(P)


def run_ops(P):
    prove_wait(P)
    prove_wait_pred(P)
    prove_notify_one(P)
    prove_notify_all(P)
