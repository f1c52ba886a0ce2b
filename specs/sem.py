"""Contracts of the counting semaphore."""
import z3
from values import *
import conc, msync
from conc import Field
from msync import fresh_arg, done, signed

SRCS = ['utils/co_utils.cpp', 'core/co_env.cpp']
TUS = ['sem.cpp']
S = 'cocpp::co_counting_semaphore::'


def sem(ex, P, mx):
    inv = lambda v: [('the number of permits is between none and the maximum', z3.And(0 <= v['permits'], v['permits'] <= mx))]
    st, o, m = msync.setup(ex, P, 'semaphore', 'sem', 'sem_mu', [Field('permits', P.off('sem_desired'), 8, 'int')], inv=inv,
                           cvs=[('permits', 'sem_empty', dict(units=lambda v: zi(v['permits']))),
                                ('room for permits', 'sem_full', dict(units=lambda v: mx - zi(v['permits'])))])
    m.on_release = track
    st.ghost['added'] = 0
    return st, o, m


def track(ex, st, a, b):
    st.ghost['added'] = simp(zi(st.ghost['added']) + zi(b['permits']) - zi(a['permits']))


def one(P, mx, fname, args, post, covers, label=None):
    def body(ex):
        st, o, m = sem(ex, P, mx)
        cov = {c: False for c in covers}
        av = args(ex, st)
        for s, k, val in ex.run_function(st, ex.get(S + fname, targs=r'^%dl?$' % mx), [Ptr(o.id, 0)] + av):
            done(ex, s, fname)
            ex.oblige(s, '%s does not throw' % fname, k == 'ret', where='exit')
            if k == 'ret':
                post(ex, s, m, val, av, cov)
        return cov
    return P.fn('co_counting_semaphore<%d>::%s' % (mx, fname), body)


def run1(P, mx):
    added = lambda s: zi(s.ghost['added'])

    def acquire(ex, s, m, val, av, cov):
        ex.oblige(s, 'acquire takes exactly one permit', added(s) == -1, where='exit')
        cov['takes'] = cov['takes'] or ex.reachable(s, zi(s.ghost['yields']) == 0)
        cov['waits'] = cov['waits'] or ex.reachable(s, zi(s.ghost['yields']) > 0)
    one(P, mx, 'acquire', lambda ex, st: [], acquire, ['takes', 'waits'])

    def release(ex, s, m, val, av, cov):
        n = signed(av[0])
        ex.oblige(s, 'release adds exactly the permits it was given', added(s) == z3.If(n > 0, n, 0), where='exit')
        cov['adds'] = cov['adds'] or ex.reachable(s, n > 0)
    one(P, mx, 'release', lambda ex, st: [fresh_arg(st, 'update')], release, ['adds'])

    def try_acquire(ex, s, m, val, av, cov):
        a = s.ghost[('snap', m.name)]
        ex.oblige(s, 'try_acquire takes one permit and returns true, or returns false and takes none', added(s) == z3.If(zb(val), -1, 0), where='exit')
        ex.oblige(s, 'try_acquire fails only when there is no permit', z3.Implies(z3.Not(zb(val)), zi(a['permits']) == 0), where='exit')
        ex.oblige(s, 'try_acquire does not wait', zi(s.ghost['yields']) == 0, where='exit')
        cov['takes'] = cov['takes'] or ex.reachable(s, zb(val))
        cov['fails'] = cov['fails'] or ex.reachable(s, z3.Not(zb(val)))
    one(P, mx, 'try_acquire', lambda ex, st: [], try_acquire, ['takes', 'fails'])

    def until(fname, deadline, mk):
        def post(ex, s, m, val, av, cov):
            a = s.ghost[('snap', m.name)]
            ex.oblige(s, '%s takes one permit and returns true, or returns false and takes none' % fname, added(s) == z3.If(zb(val), -1, 0), where='exit')
            ex.oblige(s, '%s looks at least once' % fname, zi(s.ghost[('acq', m.name)]) >= 1, where='exit')
            ex.oblige(s, '%s fails only after the deadline and only when it found no permit' % fname,
                      z3.Implies(z3.Not(zb(val)), z3.And(zi(a['permits']) == 0, zi(s.ghost['clock']) >= deadline(ex))), where='exit')
            cov['takes'] = cov['takes'] or ex.reachable(s, zb(val))
            cov['fails'] = cov['fails'] or ex.reachable(s, z3.Not(zb(val)))
        one(P, mx, fname, mk, post, ['takes', 'fails'])

    def mk_until(ex, st):
        t = fresh_arg(st, 'deadline')
        ex.dl = signed(t)
        c = ex.new_obj(st, 'deadline', 8, 'param')
        st.cells(c.id, True)[0] = (8, t)
        return [Ptr(c.id, 0)]

    def mk_for(ex, st):
        t = fresh_arg(st, 'duration')
        st.assume(z3.And(signed(t) < 2 ** 61, signed(t) > -2 ** 61))
        c = ex.new_obj(st, 'duration', 8, 'param')
        st.cells(c.id, True)[0] = (8, t)
        ex.dl = zi(st.ghost['clock']) + signed(t)
        return [Ptr(c.id, 0)]
    until('try_acquire_until', lambda ex: ex.dl, mk_until)
    until('try_acquire_for', lambda ex: ex.dl, mk_for)

    def ctor(P):
        def body(ex):
            st = conc.initial(ex)
            conc.mutex_contracts(ex)
            o = ex.new_obj(st, 'sem', P.size('sem'), 'param')
            n = fresh_arg(st, 'n', 0, mx)
            for s, k, val in ex.run_function(st, ex.get(S + 'co_counting_semaphore', targs=r'^%dl?$' % mx), [Ptr(o.id, 0), n]):
                ex.oblige(s, 'a new semaphore has the permits it was given', zi(ex.load(s, Ptr(o.id, P.off('sem_desired')), ('int', 64), ex.mods[0])) == n, where='exit')
            return {}
        return P.fn('co_counting_semaphore<%d>::co_counting_semaphore' % mx, body)
    ctor(P)


def run(P):
    run1(P, 1)
    run1(P, 1000003)
