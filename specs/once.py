"""Contract of call_once."""
import z3
from values import *
from execu import Results, Throw, Exc, NOVAL
import conc, msync
from conc import Field
from msync import fresh_arg, done

SRCS = ['utils/co_utils.cpp', 'core/co_env.cpp']
TUS = ['once.cpp']


def inv(v):
    return [('the flag is set exactly when one call has completed', v['flag'] == (zi(v['runs']) == 1)),
            ('at most one call completes', z3.And(zi(v['runs']) >= 0, zi(v['runs']) <= 1))]


def guar(a, b, me):
    return [('a completed call is not repeated or forgotten', z3.Implies(a['flag'], b['flag']))]


def rely(a, b, me):
    return [('a completed call is not repeated or forgotten', z3.Implies(a['flag'], b['flag']))]


def once(ex, P):
    st, o, m = msync.setup(ex, P, 'once flag', 'once', 'once_mutex', [Field('flag', P.off('once_flag'), 1, 'bool', atomic=True)],
                           inv=inv, guar=guar, rely=rely, ghosts=[('runs', fresh_int)])

    def hook(ex, st, what, p, ords):
        p = ex.resolve_sym(st, p)
        if not (isinstance(p, Ptr) and p.obj == o.id and p.off == P.off('once_flag')):
            return
        if what == 'load' and not m.held(st):
            ex.oblige(st, 'the flag is read without the lock only with acquire order', ords[0] in ('acquire', 'seq_cst'))
        if what == 'store':
            ex.oblige(st, 'the flag is set with release order', ords[0] in ('release', 'seq_cst'))
        if what == 'store-done':
            for nm, g in inv(m.view(ex, st)):
                ex.oblige(st, 'invariant of the once flag as soon as it is written: ' + nm, g)
    ex.atomic_hook = hook
    return st, o, m


def prove_call(P):
    def body(ex):
        st, o, m = once(ex, P)
        a, b = fresh_arg(st, 'a'), fresh_arg(st, 'b')
        f = ex.new_obj(st, 'callable', 8, 'param')
        st.ghost['mine'] = 0
        st.ghost['failed'] = 0

        def call(ex, st, c):
            ex.oblige(st, 'the callable runs only while no other one runs and none has completed', z3.And(m.held(st), zi(st.ghost[('runs', m.name)]) == 0))
            ex.oblige(st, 'the callable given is the one that runs', ex.ptr_eq(st, c.args[0], Ptr(f.id, 0)))
            ex.oblige(st, 'the callable gets the arguments given', z3.And(zi(c.args[1]) == a, zi(c.args[2]) == b))
            s2 = st.fork()
            st.ghost[('runs', m.name)] = simp(zi(st.ghost[('runs', m.name)]) + 1)
            st.ghost['mine'] = simp(zi(st.ghost['mine']) + 1)
            s2.ghost['failed'] = 1
            return Results([(st, NOVAL), (s2, Throw(Exc('_ZTISt13runtime_error')))])
        ex.handlers['once_callable::operator()'] = call
        cov = {'runs it': False, 'finds it done': False, 'finds it done after waiting': False, 'callable throws': False}
        for s, k, val in ex.run_function(st, ex.get('once_call'), [Ptr(o.id, 0), Ptr(f.id, 0), a, b]):
            done(ex, s, 'call_once')
            v = s.ghost[('last', m.name)]
            mine = zi(s.ghost['mine'])
            if k == 'throw':
                ex.oblige(s, 'call_once throws only what the callable throws', zi(s.ghost['failed']) == 1, where='exit')
                ex.oblige(s, 'a callable that throws does not count as completed', z3.And(mine == 0, z3.Not(v['flag'])), where='exit')
                cov['callable throws'] = True
                continue
            ex.oblige(s, 'an exception of the callable reaches the caller', zi(s.ghost['failed']) == 0, where='exit')
            ex.oblige(s, 'call_once returns only after a call has completed', v['flag'], where='exit')
            ex.oblige(s, 'a caller runs its callable at most once', mine <= 1, where='exit')
            cov['runs it'] = cov['runs it'] or ex.reachable(s, mine == 1)
            acq = zi(s.ghost.get(('acq', m.name), 0))
            cov['finds it done'] = cov['finds it done'] or ex.reachable(s, mine == 0)
            cov['finds it done after waiting'] = cov['finds it done after waiting'] or ex.reachable(s, z3.And(mine == 0, acq > 0))
        return cov
    return P.fn('co_call_once', body)


def run(P):
    msync.protocol(P, 'once flag', lambda ex: once(ex, P)[2])
    prove_call(P)
