"""Contracts of the plain mutex."""
import z3
from values import *
import conc, stl
from conc import Monitor, Field, same, bool_array
from execu import Missing

SRCS = ['sync/co_mutex.cpp', 'utils/co_utils.cpp', 'core/co_env.cpp']


def make(ex, P, st):
    o = ex.new_obj(st, 'mutex', P.size('mutex'), 'param')
    cd = stl.ptr_codec('ctx')
    m = Monitor('mutex', o, P.off('mutex_spin'), [
        Field('owner', P.off('mutex_owner'), 8, 'ptr', 'ctx'),
        Field('queue', P.off('mutex_q'), 80, 'deque', cd=cd, pos=True)],
        ghosts=[('W', bool_array)], inv=inv, guar=guar, rely=rely, cands=cands)
    return o, m


def inv(v):
    q, ow, W = v['queue'], v['owner'], v['W']
    i, c = z3.Ints('i c')
    return [
        ('a free mutex has no waiters', z3.Implies(ow == 0, q.lo == q.hi)),
        ('queued coroutines are distinct', q.wf()),
        ('nobody queued is the owner or null', z3.ForAll([i], z3.Implies(z3.And(q.lo <= i, i < q.hi), z3.And(q.arr[i] != ow, q.arr[i] != 0)), patterns=[q.arr[i]])),
        ('a coroutine marked waiting is queued', z3.ForAll([c], z3.Implies(W[c], q.member(c)), patterns=[W[c]])),
    ]


def guar(a, b, me):
    q, p = a['queue'], b['queue']
    c, i = z3.Ints('c i')
    front = q.arr[q.lo]
    nonempty = q.lo < q.hi
    handoff = z3.And(a['owner'] == me, nonempty, b['owner'] == front)
    return [
        ('the owner changes only from free to the caller, or from the caller to the first waiter (free if none)',
         z3.Or(b['owner'] == a['owner'], z3.And(a['owner'] == 0, b['owner'] == me),
               z3.And(a['owner'] == me, z3.If(nonempty, b['owner'] == front, b['owner'] == 0)))),
        ('the queue changes only by appending the caller or by removing the first waiter on hand-off',
         z3.Or(z3.And(b['owner'] == a['owner'], same(q, p)),
               z3.And(z3.Not(nonempty), same(q, p)),
               z3.And(p.lo == q.lo, p.hi == q.hi + 1, p.arr[q.hi] == me, a['owner'] != 0, b['owner'] == a['owner'],
                      z3.ForAll([i], z3.Implies(z3.And(q.lo <= i, i < q.hi), p.arr[i] == q.arr[i]))),
               z3.And(handoff, p.lo == q.lo + 1, p.hi == q.hi,
                      z3.ForAll([i], z3.Implies(z3.And(p.lo <= i, i < q.hi), p.arr[i] == q.arr[i]))))),
        ('waiting marks of other coroutines change only for the one that receives the mutex',
         z3.ForAll([c], z3.Implies(z3.And(c != me, a['W'][c] != b['W'][c]), z3.And(handoff, c == front, z3.Not(b['W'][c]))))),
    ]


def rely(a, b, me):
    q, p = a['queue'], b['queue']
    mo, mn = q.member(me), p.member(me)
    return [
        ('nobody takes the mutex from its owner', z3.Implies(a['owner'] == me, b['owner'] == me)),
        ('a queued coroutine stays queued until it owns the mutex', z3.Implies(mo, z3.Or(mn, b['owner'] == me))),
        ('nobody else is queued or made owner without asking', z3.Implies(z3.And(z3.Not(mo), a['owner'] != me), z3.And(z3.Not(mn), b['owner'] != me))),
        ('the owner is not queued', z3.Implies(a['owner'] == me, z3.Not(mn))),
        ('nobody else marks this coroutine waiting', z3.Implies(b['W'][me], a['W'][me])),
        ('nobody overtakes in the queue', z3.Implies(z3.And(mo, mn), z3.And(p.pos[me] == q.pos[me], p.lo >= q.lo))),
    ]


def cands():
    return [
        ('caller queued', lambda v, me: v['queue'].member(me)),
        ('caller not queued', lambda v, me: z3.Not(v['queue'].member(me))),
        ('caller not owner', lambda v, me: v['owner'] != me),
        ('caller owner', lambda v, me: v['owner'] == me),
        ('caller queued or owner', lambda v, me: z3.Or(v['queue'].member(me), v['owner'] == me)),
        ('caller neither', lambda v, me: z3.And(z3.Not(v['queue'].member(me)), v['owner'] != me)),
        ('caller not marked', lambda v, me: z3.Not(v['W'][me])),
    ]


def setup(ex, P, pre):
    st = conc.initial(ex)
    o, m = make(ex, P, st)
    m.entry_facts = pre
    m.install(ex, st)
    ex.marks[(o.id, 0)] = m
    return st, o, m


def common_post(ex, st):
    ex.oblige(st, 'no lock is left held', len(st.ghost['held']) == 0, where='exit')
    ex.oblige(st, 'preemption count is restored', zi(st.ghost['preempt']) == st.ghost['preempt_on_entry'], where='exit')


def prove_lock(P):
    def body(ex):
        st, o, m = setup(ex, P, lambda v, me: [v['owner'] != me, z3.Not(v['queue'].member(me))])
        outs = ex.run_function(st, ex.get('cocpp::co_mutex::lock'), [Ptr(o.id, 0)])
        cov = {'returns': False}
        for s, k, val in outs:
            ex.oblige(s, 'lock() does not throw', k == 'ret', where='exit')
            common_post(ex, s)
            v = s.ghost[('last', 'mutex')]
            ex.oblige(s, 'lock() returns only when the caller owns the mutex', v['owner'] == ex.me, where='exit')
            ex.oblige(s, 'the caller is not left queued', z3.Not(v['queue'].member(ex.me)), where='exit')
            ex.oblige(s, 'the caller is not left marked waiting', z3.Not(v['W'][ex.me]), where='exit')
            cov['returns'] = cov['returns'] or ex.reachable(s)
        m.check_rely(ex)
        return cov
    return P.fn('co_mutex::lock', body)


def prove_try_lock(P):
    def body(ex):
        st, o, m = setup(ex, P, lambda v, me: [z3.Not(v['queue'].member(me))])
        outs = ex.run_function(st, ex.get('cocpp::co_mutex::try_lock'), [Ptr(o.id, 0)])
        cov = {'succeeds': False, 'fails': False}
        for s, k, val in outs:
            ex.oblige(s, 'try_lock() does not throw', k == 'ret', where='exit')
            common_post(ex, s)
            a, v = s.ghost[('snap', 'mutex')], s.ghost[('last', 'mutex')]
            ex.oblige(s, 'true is returned exactly when the mutex was free', zb(val) == (a['owner'] == 0), where='exit')
            ex.oblige(s, 'after true the caller owns the mutex', z3.Implies(zb(val), v['owner'] == ex.me), where='exit')
            ex.oblige(s, 'after false nothing changed', z3.Implies(z3.Not(zb(val)), z3.And(v['owner'] == a['owner'], same(v['queue'], a['queue']))), where='exit')
            ex.oblige(s, 'try_lock() does not wait', zi(s.ghost['yields']) == 0, where='exit')
            cov['succeeds'] = cov['succeeds'] or ex.reachable(s, zb(val))
            cov['fails'] = cov['fails'] or ex.reachable(s, z3.Not(zb(val)))
        return cov
    return P.fn('co_mutex::try_lock', body)


def prove_unlock(P):
    def body(ex):
        st, o, m = setup(ex, P, lambda v, me: [z3.Not(v['queue'].member(me))])
        outs = ex.run_function(st, ex.get('cocpp::co_mutex::unlock'), [Ptr(o.id, 0)])
        cov = {'hands over': False, 'frees': False, 'refuses': False}
        for s, k, val in outs:
            common_post(ex, s)
            a, v = s.ghost[('snap', 'mutex')], s.ghost[('last', 'mutex')]
            q = a['queue']
            own = a['owner'] == ex.me
            if k == 'throw':
                ex.oblige(s, 'unlock() throws logic_error', ex.exc_match(val.ty, '_ZTISt11logic_error'), where='exit')
                ex.oblige(s, 'unlock() throws only when the caller is not the owner', z3.Not(own), where='exit')
                ex.oblige(s, 'a refused unlock() changes nothing', z3.And(v['owner'] == a['owner'], same(v['queue'], a['queue'])), where='exit')
                cov['refuses'] = True
            else:
                ex.oblige(s, 'unlock() by a coroutine that is not the owner is refused', own, where='exit')
                ex.oblige(s, 'after unlock() the mutex is free or belongs to the first waiter',
                          z3.If(q.lo < q.hi, v['owner'] == q.arr[q.lo], v['owner'] == 0), where='exit')
                ex.oblige(s, 'the coroutine that receives the mutex is no longer waiting',
                          z3.Implies(q.lo < q.hi, z3.Not(v['W'][q.arr[q.lo]])), where='exit')
                cov['hands over'] = cov['hands over'] or ex.reachable(s, q.lo < q.hi)
                cov['frees'] = cov['frees'] or ex.reachable(s, q.lo == q.hi)
        return cov
    return P.fn('co_mutex::unlock', body)


def run(P):
    prove_lock(P)
    prove_try_lock(P)
    prove_unlock(P)
