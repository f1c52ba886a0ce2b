"""Contracts of the shared mutex."""
import z3
from values import *
import conc, stl
from conc import Monitor, Field, same, bool_array
from mutex import common_post

SRCS = ['sync/co_shared_mutex.cpp', 'utils/co_utils.cpp', 'core/co_env.cpp']
UNIQUE, SHARED, FREE = 0, 1, 2
ELEM = 'cocpp::co_shared_mutex::shared_lock_context'


class S:
    """reads the queue elements"""
    t = c = 0


def mode(q, i):
    return q.cd.field(q.arr[i], S.t)


def ctx(q, i):
    return q.cd.field(q.arr[i], S.c)


def setup(ex, P, pre):
    S.t, S.c = P.off('slc_type'), P.off('slc_ctx')
    stl.KEY_FIELD[ELEM] = S.c
    stl.FIELD_TAGS[(ELEM, S.c)] = 'ctx'
    st = conc.initial(ex)
    o = ex.new_obj(st, 'smutex', P.size('smutex'), 'param')
    cd = stl.codec_of(ex, ELEM)
    m = Monitor('shared mutex', o, P.off('smutex_spin'), [
        Field('type', P.off('smutex_type'), 4, 'int'),
        Field('owners', P.off('smutex_owners'), 48, 'set', mk=lambda ex, st: stl.fresh_set(ex, st, stl.ptr_codec('ctx'))),
        Field('queue', P.off('smutex_q'), 80, 'deque', cd=cd, pos=True)],
        ghosts=[('W', bool_array)], inv=inv, guar=guar, rely=rely, cands=cands)
    m.entry_facts = pre
    m.install(ex, st)
    ex.marks[(o.id, 0)] = m
    return st, o, m


def inv(v):
    q, ow, W, ty = v['queue'], v['owners'], v['W'], v['type']
    i, c = z3.Ints('i c')
    inq = z3.And(q.lo <= i, i < q.hi)
    return [
        ('the mode is free, exclusive or shared', z3.And(ty >= 0, ty <= 2)),
        ('a shared mutex is free exactly when it has no holders', (ty == FREE) == ow.empty()),
        ('in exclusive mode there is one holder', z3.Implies(ty == UNIQUE, ow.n == 1)),
        ('a free shared mutex has no waiters', z3.Implies(ty == FREE, q.lo == q.hi)),
        ('queued coroutines are distinct', q.wf()),
        ('nobody queued is a holder or null', z3.ForAll([i], z3.Implies(inq, z3.And(ctx(q, i) != 0, z3.Not(ow.has(ctx(q, i))))), patterns=[q.arr[i]])),
        ('queued coroutines want exclusive or shared mode', z3.ForAll([i], z3.Implies(inq, z3.Or(mode(q, i) == UNIQUE, mode(q, i) == SHARED)), patterns=[q.arr[i]])),
        ('a coroutine marked waiting is queued', z3.ForAll([c], z3.Implies(W[c], q.member(c)), patterns=[W[c]])),
    ]


def qmode(q, c):
    return mode(q, q.pos[c])


def granted(a, c):
    """c becomes a holder when the last holder releases in state a"""
    q = a['queue']
    return z3.And(q.lo < q.hi, z3.If(mode(q, q.lo) == UNIQUE, c == ctx(q, q.lo), z3.And(q.member(c), qmode(q, c) == SHARED)))


def tail_kept(q, p):
    i = z3.Int('i')
    return z3.And(p.lo == q.lo + 1, p.hi == q.hi, z3.ForAll([i], z3.Implies(z3.And(p.lo <= i, i < q.hi), p.arr[i] == q.arr[i]), patterns=[p.arr[i]]))


def exclusive_kept(q, p):
    """p holds exactly the exclusive waiters of q, in the same order"""
    i, j = z3.Ints('i j')
    at = lambda k: q.pos[ctx(p, k)]
    inp = lambda k: z3.And(p.lo <= k, k < p.hi)
    return z3.And(
        z3.ForAll([i], z3.Implies(inp(i), z3.And(q.lo <= at(i), at(i) < q.hi, q.arr[at(i)] == p.arr[i], mode(p, i) == UNIQUE)), patterns=[p.arr[i]]),
        z3.ForAll([i], z3.Implies(z3.And(q.lo <= i, i < q.hi, mode(q, i) == UNIQUE), p.member(ctx(q, i))), patterns=[q.arr[i]]),
        z3.ForAll([i, j], z3.Implies(z3.And(inp(i), inp(j), i < j), at(i) < at(j)), patterns=[mpat(p.arr[i], p.arr[j])]))


def guar(a, b, me):
    q, p, ao, bo = a['queue'], b['queue'], a['owners'], b['owners']
    c, i = z3.Ints('c i')
    rel = z3.And(ao.has(me), z3.Not(bo.has(me)))
    acq = z3.And(z3.Not(ao.has(me)), bo.has(me))
    last = z3.And(rel, ao.n == 1)
    front = mode(q, q.lo)
    return [
        ('a holder is added only by its own compatible request or by the last release, as the first waiter\'s mode says',
         z3.ForAll([c], z3.Implies(c != me, bo.has(c) == z3.Or(ao.has(c), z3.And(last, granted(a, c)))), patterns=[bo.has(c)])),
        ('the mode changes only with an acquisition or with the last release',
         z3.If(acq, z3.Or(z3.And(b['type'] == UNIQUE, a['type'] == FREE), z3.And(b['type'] == SHARED, a['type'] != UNIQUE)),
               z3.If(last, b['type'] == z3.If(q.lo < q.hi, front, FREE), b['type'] == a['type']))),
        ('the queue changes only by appending the caller, or by removing those that become holders',
         z3.If(z3.And(last, q.lo < q.hi), z3.If(front == UNIQUE, tail_kept(q, p), exclusive_kept(q, p)),
               z3.Or(same(q, p),
                     z3.And(z3.Not(acq), z3.Not(rel), z3.Not(ao.has(me)), a['type'] != FREE, p.lo == q.lo, p.hi == q.hi + 1, ctx(p, q.hi) == me,
                            z3.ForAll([i], z3.Implies(z3.And(q.lo <= i, i < q.hi), p.arr[i] == q.arr[i])))))),
        ('waiting marks of other coroutines change only for those that become holders',
         z3.ForAll([c], z3.Implies(z3.And(c != me, a['W'][c] != b['W'][c]), z3.And(last, granted(a, c), z3.Not(b['W'][c]))), patterns=[b['W'][c]])),
    ]


def rely(a, b, me):
    q, p, ao, bo = a['queue'], b['queue'], a['owners'], b['owners']
    mo, mn = q.member(me), p.member(me)
    return [
        ('nobody takes the shared mutex from a holder', z3.Implies(ao.has(me), z3.And(bo.has(me), b['type'] == a['type'], z3.Not(mn)))),
        ('a queued coroutine stays queued with its mode until it holds the mutex in that mode',
         z3.Implies(mo, z3.Or(z3.And(mn, qmode(p, me) == qmode(q, me), z3.Not(bo.has(me))), z3.And(bo.has(me), z3.Not(mn), b['type'] == qmode(q, me))))),
        ('nobody is queued or made holder without asking', z3.Implies(z3.And(z3.Not(mo), z3.Not(ao.has(me))), z3.And(z3.Not(mn), z3.Not(bo.has(me))))),
        ('nobody else marks this coroutine waiting', z3.Implies(b['W'][me], a['W'][me])),
    ]


def cands():
    def qm(v, me, m):
        return z3.And(v['queue'].member(me), qmode(v['queue'], me) == m)
    def om(v, me, m):
        return z3.And(v['owners'].has(me), v['type'] == m)
    out = [
        ('caller not holder', lambda v, me: z3.Not(v['owners'].has(me))),
        ('caller not queued', lambda v, me: z3.Not(v['queue'].member(me))),
        ('caller not marked', lambda v, me: z3.Not(v['W'][me])),
    ]
    for m, n in ((UNIQUE, 'exclusive'), (SHARED, 'shared')):
        out += [('caller queued ' + n, lambda v, me, m=m: qm(v, me, m)),
                ('caller holds ' + n, lambda v, me, m=m: om(v, me, m)),
                ('caller queued or holds ' + n, lambda v, me, m=m: z3.Or(qm(v, me, m), om(v, me, m)))]
    return out


def prove_lock(P, name, m_):
    def body(ex):
        st, o, m = setup(ex, P, lambda v, me: [z3.Not(v['owners'].has(me)), z3.Not(v['queue'].member(me))])
        outs = ex.run_function(st, ex.get('cocpp::co_shared_mutex::' + name), [Ptr(o.id, 0)])
        cov = {'returns': False}
        for s, k, val in outs:
            ex.oblige(s, 'the acquire does not throw', k == 'ret', where='exit')
            common_post(ex, s)
            v = s.ghost[('last', m.name)]
            ex.oblige(s, 'the acquire returns only when the caller holds the mutex in the mode asked for', z3.And(v['owners'].has(ex.me), v['type'] == m_), where='exit')
            ex.oblige(s, 'the caller is not left queued', z3.Not(v['queue'].member(ex.me)), where='exit')
            ex.oblige(s, 'the caller is not left marked waiting', z3.Not(v['W'][ex.me]), where='exit')
            cov['returns'] = cov['returns'] or ex.reachable(s)
        if m_ == UNIQUE:
            m.check_rely(ex)
        return cov
    return P.fn('co_shared_mutex::' + name, body)


def prove_try(P, name, m_):
    def body(ex):
        st, o, m = setup(ex, P, lambda v, me: [z3.Not(v['queue'].member(me))] + ([z3.Not(v['owners'].has(me))] if m_ == SHARED else []))
        outs = ex.run_function(st, ex.get('cocpp::co_shared_mutex::' + name), [Ptr(o.id, 0)])
        cov = {'succeeds': False, 'fails': False}
        for s, k, val in outs:
            ex.oblige(s, 'the attempt does not throw', k == 'ret', where='exit')
            common_post(ex, s)
            a, v = s.ghost[('snap', m.name)], s.ghost[('last', m.name)]
            ok = a['type'] == FREE if m_ == UNIQUE else a['type'] != UNIQUE
            ex.oblige(s, 'true is returned exactly when the mode is compatible with the holders', zb(val) == ok, where='exit')
            ex.oblige(s, 'after true the caller holds the mutex in that mode', z3.Implies(zb(val), z3.And(v['owners'].has(ex.me), v['type'] == m_)), where='exit')
            ex.oblige(s, 'after false nothing changed', z3.Implies(z3.Not(zb(val)), z3.And(v['type'] == a['type'], same(v['owners'], a['owners']), same(v['queue'], a['queue']))), where='exit')
            ex.oblige(s, 'the attempt does not wait', zi(s.ghost['yields']) == 0, where='exit')
            cov['succeeds'] = cov['succeeds'] or ex.reachable(s, zb(val))
            cov['fails'] = cov['fails'] or ex.reachable(s, z3.Not(zb(val)))
        return cov
    return P.fn('co_shared_mutex::' + name, body)


def prove_unlock(P, name, m_):
    def body(ex):
        st, o, m = setup(ex, P, lambda v, me: [z3.Not(v['queue'].member(me))])
        outs = ex.run_function(st, ex.get('cocpp::co_shared_mutex::' + name), [Ptr(o.id, 0)])
        cov = {'refuses': False, 'frees': False, 'hands over exclusively': False, 'hands over shared': False}
        if m_ == SHARED:
            cov['keeps'] = False
        c = z3.Int('c')
        for s, k, val in outs:
            common_post(ex, s)
            a, v = s.ghost[('snap', m.name)], s.ghost[('last', m.name)]
            q = a['queue']
            holds = z3.And(a['owners'].has(ex.me), a['type'] == m_)
            if k == 'throw':
                ex.oblige(s, 'the release throws logic_error', ex.exc_match(val.ty, '_ZTISt11logic_error'), where='exit')
                ex.oblige(s, 'the release throws only when the caller does not hold the mutex in that mode', z3.Not(holds), where='exit')
                ex.oblige(s, 'a refused release changes nothing', z3.And(v['type'] == a['type'], same(v['owners'], a['owners']), same(v['queue'], a['queue'])), where='exit')
                cov['refuses'] = True
                continue
            last = a['owners'].n == 1
            ex.oblige(s, 'a release in a mode the caller does not hold is refused', holds, where='exit')
            ex.oblige(s, 'the caller is no longer a holder', z3.Not(v['owners'].has(ex.me)), where='exit')
            ex.oblige(s, 'while holders remain nothing else changes', z3.Implies(z3.Not(last), z3.And(v['type'] == a['type'], same(v['queue'], a['queue']))), where='exit')
            ex.oblige(s, 'the last release makes holders of exactly the waiters the first one\'s mode selects',
                      z3.Implies(last, z3.ForAll([c], v['owners'].has(c) == granted(a, c))), where='exit')
            ex.oblige(s, 'after the last release the mode is that of the first waiter, or free',
                      z3.Implies(last, v['type'] == z3.If(q.lo < q.hi, mode(q, q.lo), FREE)), where='exit')
            ex.oblige(s, 'the coroutines that become holders are no longer waiting',
                      z3.ForAll([c], z3.Implies(z3.And(last, granted(a, c)), z3.Not(v['W'][c]))), where='exit')
            cov['frees'] = cov['frees'] or ex.reachable(s, z3.And(last, q.lo == q.hi))
            cov['hands over exclusively'] = cov['hands over exclusively'] or ex.reachable(s, z3.And(last, q.lo < q.hi, mode(q, q.lo) == UNIQUE))
            cov['hands over shared'] = cov['hands over shared'] or ex.reachable(s, z3.And(last, q.lo < q.hi, mode(q, q.lo) == SHARED))
            if m_ == SHARED:
                cov['keeps'] = cov['keeps'] or ex.reachable(s, z3.Not(last))
        return cov
    return P.fn('co_shared_mutex::' + name, body)


def run(P):
    prove_lock(P, 'lock', UNIQUE)
    prove_lock(P, 'lock_shared', SHARED)
    prove_try(P, 'try_lock', UNIQUE)
    prove_try(P, 'try_lock_shared', SHARED)
    prove_unlock(P, 'unlock', UNIQUE)
    prove_unlock(P, 'unlock_shared', SHARED)
