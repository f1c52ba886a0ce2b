"""Contracts of the timed lock operations, over the contracts of the untimed ones (C01, C03, C04)."""
import z3
from values import *
import conc, msync
from msync import fresh_arg, signed

SRCS = ['utils/co_utils.cpp', 'core/co_env.cpp']
TUS = ['timed.cpp']
KINDS = [('co_timed_addition::try_lock', 'co_mutex', r'^cocpp::co_mutex$', 'cocpp::co_mutex::try_lock'),
         ('co_timed_addition::try_lock', 'co_recursive_mutex', r'^cocpp::co_recursive_mutex$', 'cocpp::co_recursive_mutex::try_lock'),
         ('co_timed_addition::try_lock', 'co_shared_mutex', r'^cocpp::co_shared_mutex$', 'cocpp::co_shared_mutex::try_lock'),
         ('co_shared_timed_mutex::try_lock_shared', 'co_shared_mutex', None, 'cocpp::co_shared_mutex::try_lock_shared')]


def prove(P, fn, kind, targs, attempt, suffix):
    name = '%s%s<%s>' % (fn, suffix, kind)

    def body(ex):
        st = conc.initial(ex)
        o = ex.new_obj(st, 'lock', 512, 'param')
        st.ghost.update({'attempts': 0, 'got': 0, 'asked': 0})

        def h(ex, st, c):
            ex.oblige(st, 'the lock attempted is the object itself', ex.ptr_eq(st, c.args[0], Ptr(o.id, 0)))
            ex.oblige(st, 'a lock obtained is not attempted again', zi(st.ghost['got']) == 0)
            r = fresh_bool('got')
            st.ghost['attempts'] = 1
            st.ghost['got'] = simp(zi(st.ghost['got']) + zi(r))
            return r
        for x in ('lock', 'unlock', 'lock_shared', 'unlock_shared', 'try_lock', 'try_lock_shared'):
            ex.handlers.pop('cocpp::%s::%s' % (kind, x), None)

            def other(ex, st, c, x=x):
                ex.oblige(st, 'only the non-blocking operation of the same kind is used (found %s)' % x, False)
                from execu import END
                return END
            ex.handlers['cocpp::%s::%s' % (kind, x)] = other
        ex.handlers[attempt] = h
        t = fresh_arg(st, 'time')
        if suffix == '_for':
            st.assume(z3.And(signed(t) < 2 ** 61, signed(t) > -2 ** 61))
            deadline = zi(st.ghost['clock']) + signed(t)
        else:
            deadline = signed(t)
        c = ex.new_obj(st, 'time', 8, 'param')
        st.cells(c.id, True)[0] = (8, t)
        cov = {'obtained at once': False, 'obtained later': False, 'given up': False}
        for s, k, val in ex.run_function(st, ex.get('cocpp::' + fn + suffix, targs=targs), [Ptr(o.id, 0), Ptr(c.id, 0)]):
            ex.oblige(s, '%s does not throw' % name, k == 'ret', where='exit')
            if k != 'ret':
                continue
            got, y = zi(s.ghost['got']), zi(s.ghost['yields'])
            ex.oblige(s, 'true is returned exactly when the lock was obtained, once', z3.And(got == zi(z3.If(zb(val), 1, 0))), where='exit')
            ex.oblige(s, 'at least one attempt is made, whatever the deadline', zi(s.ghost['attempts']) >= 1, where='exit')
            ex.oblige(s, 'the operation gives up only after the deadline', z3.Implies(z3.Not(zb(val)), zi(s.ghost['clock']) >= deadline), where='exit')
            ex.oblige(s, 'preemption is left as found', zi(s.ghost['preempt']) == zi(s.ghost['preempt_on_entry']), where='exit')
            cov['obtained at once'] = cov['obtained at once'] or ex.reachable(s, z3.And(zb(val), y == 0))
            cov['obtained later'] = cov['obtained later'] or ex.reachable(s, z3.And(zb(val), y > 0))
            cov['given up'] = cov['given up'] or ex.reachable(s, z3.Not(zb(val)))
        return cov
    return P.fn(name, body)


def run(P):
    for fn, kind, targs, attempt in KINDS:
        for suffix in ('_until', '_for'):
            prove(P, fn, kind, targs, attempt, suffix)
