"""Contracts of the recursive mutex."""
import z3
from values import *
import conc, stl, mutex
from conc import Monitor, Field, same, bool_array
from mutex import common_post

SRCS = ['sync/co_recursive_mutex.cpp', 'utils/co_utils.cpp', 'core/co_env.cpp']
TOP = 2 ** 64 - 1


def setup(ex, P, pre):
    st = conc.initial(ex)
    o = ex.new_obj(st, 'rmutex', P.size('rmutex'), 'param')
    cd = stl.ptr_codec('ctx')
    m = Monitor('recursive mutex', o, P.off('rmutex_spin'), [
        Field('owner', P.off('rmutex_owner'), 8, 'ptr', 'ctx'),
        Field('queue', P.off('rmutex_q'), 80, 'deque', cd=cd, pos=True),
        Field('count', P.off('rmutex_count'), 8, 'int')],
        ghosts=[('W', bool_array)], inv=inv, guar=guar, rely=rely, cands=cands)
    m.entry_facts = pre
    m.install(ex, st)
    ex.assumptions.add('a recursive mutex is not acquired 2^64 - 1 times by its owner')
    ex.marks[(o.id, 0)] = m
    return st, o, m


def inv(v):
    return mutex.inv(v) + [
        ('an owned mutex has been acquired at least once, a free one not at all', (v['owner'] == 0) == (v['count'] == 0)),
    ]


def guar(a, b, me):
    q, p = a['queue'], b['queue']
    c, i = z3.Ints('c i')
    front = q.arr[q.lo]
    nonempty = q.lo < q.hi
    last = z3.And(a['owner'] == me, a['count'] == 1)
    handoff = z3.And(last, nonempty, b['owner'] == front)
    return [
        ('the owner changes only from free to the caller, or on the last release to the first waiter (free if none)',
         z3.Or(b['owner'] == a['owner'], z3.And(a['owner'] == 0, b['owner'] == me),
               z3.And(last, z3.If(nonempty, b['owner'] == front, b['owner'] == 0)))),
        ('the number of acquisitions changes only by one by the owner, and starts with one for a new owner',
         z3.Or(z3.And(b['owner'] == a['owner'], z3.Or(b['count'] == a['count'], z3.And(a['owner'] == me, z3.Or(b['count'] == a['count'] + 1, b['count'] == a['count'] - 1)))),
               z3.And(b['owner'] != a['owner'], b['count'] == z3.If(b['owner'] == 0, 0, 1)))),
        ('the queue changes only by appending the caller or by removing the first waiter on hand-off',
         z3.Or(z3.And(b['owner'] == a['owner'], same(q, p)),
               z3.And(z3.Not(nonempty), same(q, p)),
               z3.And(p.lo == q.lo, p.hi == q.hi + 1, p.arr[q.hi] == me, a['owner'] != 0, b['owner'] == a['owner'],
                      z3.ForAll([i], z3.Implies(z3.And(q.lo <= i, i < q.hi), p.arr[i] == q.arr[i]))),
               z3.And(handoff, p.lo == q.lo + 1, p.hi == q.hi,
                      z3.ForAll([i], z3.Implies(z3.And(p.lo <= i, i < q.hi), p.arr[i] == q.arr[i]))))),
        ('waiting marks of other coroutines change only for the one that receives the mutex',
         z3.ForAll([c], z3.Implies(z3.And(c != me, a['W'][c] != b['W'][c]), z3.And(handoff, c == front, z3.Not(b['W'][c]))))),
    ]


def rely(a, b, me):
    return mutex.rely(a, b, me) + [
        ('nobody else counts for the owner', z3.Implies(a['owner'] == me, b['count'] == a['count'])),
        ('the mutex is received acquired once', z3.Implies(z3.And(a['owner'] != me, b['owner'] == me), b['count'] == 1)),
    ]


def cands():
    return mutex.cands() + [
        ('caller owner once', lambda v, me: z3.Implies(v['owner'] == me, v['count'] == 1)),
    ]


def prove_lock(P):
    def body(ex):
        st, o, m = setup(ex, P, lambda v, me: [z3.Not(v['queue'].member(me)), v['count'] < TOP])
        v0 = st.ghost[('last', m.name)]
        outs = ex.run_function(st, ex.get('cocpp::co_recursive_mutex::lock'), [Ptr(o.id, 0)])
        cov = {'first': False, 'again': False}
        for s, k, val in outs:
            ex.oblige(s, 'lock() does not throw', k == 'ret', where='exit')
            common_post(ex, s)
            v = s.ghost[('last', m.name)]
            ex.oblige(s, 'lock() returns only when the caller owns the mutex', v['owner'] == ex.me, where='exit')
            ex.oblige(s, 'the caller has acquired it once more', v['count'] == z3.If(v0['owner'] == ex.me, v0['count'] + 1, 1), where='exit')
            ex.oblige(s, 'the caller is not left queued', z3.Not(v['queue'].member(ex.me)), where='exit')
            ex.oblige(s, 'the caller is not left marked waiting', z3.Not(v['W'][ex.me]), where='exit')
            ex.oblige(s, 'the owner does not wait', z3.Implies(v0['owner'] == ex.me, zi(s.ghost['yields']) == 0), where='exit')
            cov['first'] = cov['first'] or ex.reachable(s, v0['owner'] != ex.me)
            cov['again'] = cov['again'] or ex.reachable(s, v0['owner'] == ex.me)
        m.check_rely(ex)
        return cov
    return P.fn('co_recursive_mutex::lock', body)


def prove_try_lock(P):
    def body(ex):
        st, o, m = setup(ex, P, lambda v, me: [z3.Not(v['queue'].member(me)), v['count'] < TOP])
        outs = ex.run_function(st, ex.get('cocpp::co_recursive_mutex::try_lock'), [Ptr(o.id, 0)])
        cov = {'succeeds': False, 'fails': False}
        for s, k, val in outs:
            ex.oblige(s, 'try_lock() does not throw', k == 'ret', where='exit')
            common_post(ex, s)
            a, v = s.ghost[('snap', m.name)], s.ghost[('last', m.name)]
            ok = z3.Or(a['owner'] == 0, a['owner'] == ex.me)
            ex.oblige(s, 'true is returned exactly when the mutex was free or the caller owned it', zb(val) == ok, where='exit')
            ex.oblige(s, 'after true the caller owns the mutex and has acquired it once more',
                      z3.Implies(zb(val), z3.And(v['owner'] == ex.me, v['count'] == a['count'] + 1)), where='exit')
            ex.oblige(s, 'after false nothing changed', z3.Implies(z3.Not(zb(val)), z3.And(v['owner'] == a['owner'], v['count'] == a['count'], same(v['queue'], a['queue']))), where='exit')
            ex.oblige(s, 'try_lock() does not wait', zi(s.ghost['yields']) == 0, where='exit')
            cov['succeeds'] = cov['succeeds'] or ex.reachable(s, zb(val))
            cov['fails'] = cov['fails'] or ex.reachable(s, z3.Not(zb(val)))
        return cov
    return P.fn('co_recursive_mutex::try_lock', body)


def prove_unlock(P):
    def body(ex):
        st, o, m = setup(ex, P, lambda v, me: [z3.Not(v['queue'].member(me))])
        outs = ex.run_function(st, ex.get('cocpp::co_recursive_mutex::unlock'), [Ptr(o.id, 0)])
        cov = {'hands over': False, 'frees': False, 'refuses': False, 'keeps': False}
        for s, k, val in outs:
            common_post(ex, s)
            a, v = s.ghost[('snap', m.name)], s.ghost[('last', m.name)]
            q = a['queue']
            own = a['owner'] == ex.me
            if k == 'throw':
                ex.oblige(s, 'unlock() throws logic_error', ex.exc_match(val.ty, '_ZTISt11logic_error'), where='exit')
                ex.oblige(s, 'unlock() throws only when the caller is not the owner', z3.Not(own), where='exit')
                ex.oblige(s, 'a refused unlock() changes nothing', z3.And(v['owner'] == a['owner'], v['count'] == a['count'], same(v['queue'], a['queue'])), where='exit')
                cov['refuses'] = True
            else:
                ex.oblige(s, 'unlock() by a coroutine that is not the owner is refused', own, where='exit')
                ex.oblige(s, 'a release undoes one acquisition; the mutex stays owned until the last one is undone',
                          z3.Implies(a['count'] > 1, z3.And(v['owner'] == ex.me, v['count'] == a['count'] - 1, same(v['queue'], a['queue']))), where='exit')
                ex.oblige(s, 'after the last release the mutex is free or belongs, acquired once, to the first waiter',
                          z3.Implies(a['count'] == 1, z3.If(q.lo < q.hi, z3.And(v['owner'] == q.arr[q.lo], v['count'] == 1), z3.And(v['owner'] == 0, v['count'] == 0))), where='exit')
                ex.oblige(s, 'the coroutine that receives the mutex is no longer waiting',
                          z3.Implies(z3.And(a['count'] == 1, q.lo < q.hi), z3.Not(v['W'][q.arr[q.lo]])), where='exit')
                cov['hands over'] = cov['hands over'] or ex.reachable(s, z3.And(q.lo < q.hi, a['count'] == 1))
                cov['frees'] = cov['frees'] or ex.reachable(s, z3.And(q.lo == q.hi, a['count'] == 1))
                cov['keeps'] = cov['keeps'] or ex.reachable(s, a['count'] > 1)
        return cov
    return P.fn('co_recursive_mutex::unlock', body)


def run(P):
    prove_lock(P)
    prove_try_lock(P)
    prove_unlock(P)
