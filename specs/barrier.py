"""Contracts of the barrier."""
import z3
from values import *
import conc, msync
from conc import Field, same
from msync import fresh_arg, done

SRCS = ['sync/co_barrier.cpp', 'utils/co_utils.cpp']
TOP = 2 ** 62


def inv(v):
    return [('no phase expects more arrivals than there are participants', z3.And(0 <= v['left'], v['left'] <= v['max'], v['max'] < TOP)),
            ('a phase with participants still expects somebody', z3.Implies(v['left'] == 0, v['max'] == 0)),
            ('phases are numbered upwards', z3.And(0 <= v['phase'], v['phase'] < TOP))]


def guar(a, b, me):
    return [('a phase ends when the last expected participant arrives, the next one expects all that remain',
             z3.Or(z3.And(b['phase'] == a['phase'], b['left'] <= a['left'], z3.Implies(b['left'] == 0, a['left'] == 0)),
                   z3.And(b['phase'] == a['phase'] + 1, b['left'] == b['max']))),
            ('participants are only dropped', b['max'] <= a['max'])]


def rely(a, b, me):
    return [('phases only move on', b['phase'] >= a['phase'])]


def track(ex, st, a, b):
    """what this call did: arrivals counted, participants dropped"""
    left = z3.If(b['phase'] == a['phase'], zi(a['left']) - zi(b['left']), zi(a['left']))
    st.ghost['counted'] = simp(zi(st.ghost['counted']) + left)
    st.ghost['dropped'] = simp(zi(st.ghost['dropped']) + zi(a['max']) - zi(b['max']))
    changed = z3.Or(zi(a['phase']) != zi(b['phase']), zi(a['left']) != zi(b['left']), zi(a['max']) != zi(b['max']))
    if 'acted' in st.ghost:
        st.ghost['acted'] = simp(z3.If(changed, zi(a['phase']), zi(st.ghost['acted'])))
        st.ghost['ended'] = simp(z3.Or(zb(st.ghost['ended']), zi(a['phase']) != zi(b['phase'])))


def barrier(ex, P, pre=None):
    st, o, m = msync.setup(ex, P, 'barrier', 'barrier', 'barrier_mutex',
                           [Field('left', P.off('barrier_expected'), 8, 'int'), Field('phase', P.off('barrier_generation'), 8, 'int'),
                            Field('max', P.off('barrier_max'), 8, 'int')], inv=inv, guar=guar, rely=rely,
                           cvs=[('the barrier', 'barrier_cond', dict(phase=lambda v: v['phase'], may_wait=lambda v, ex, st: v['phase'] == zi(ex.token(st))))], pre=pre)
    m.on_release = track
    st.ghost['counted'] = 0
    st.ghost['dropped'] = 0
    st.ghost['acted'] = -1
    st.ghost['ended'] = False
    ex.assumptions.add('a barrier goes through fewer than 2^62 phases')
    ex.token = lambda st: -1
    # room for one more phase
    acq = m.acquire

    def acquire(ex, st):
        r = acq(ex, st)
        if r is None:
            st.assume(zi(m.view(ex, st)['phase']) < TOP - 1)
        return r
    m.acquire = acquire
    return st, o, m


def prove_arrive(P):
    def body(ex):
        st, o, m = barrier(ex, P)
        n = fresh_arg(st, 'n', 1, TOP)
        tok = ex.new_obj(st, 'token', P.size('token'), 'stack')
        cov = {'refuses': False, 'counts': False, 'ends the phase': False}
        for s, k, val in ex.run_function(st, ex.get('cocpp::co_barrier::arrive'), [Ptr(tok.id, 0), Ptr(o.id, 0), n]):
            done(ex, s, 'arrive')
            a = s.ghost[('snap', 'barrier')]
            if k == 'throw':
                ex.oblige(s, 'arrive is refused with logic_error', ex.exc_match(val.ty, '_ZTISt11logic_error'), where='exit')
                ex.oblige(s, 'arrive is refused only when fewer arrivals are expected', a['left'] < n, where='exit')
                ex.oblige(s, 'a refused arrival changes nothing', z3.And(zi(s.ghost['counted']) == 0, zi(s.ghost['dropped']) == 0), where='exit')
                cov['refuses'] = True
                continue
            v = s.ghost[('last', 'barrier')]
            ld = lambda f, t: ex.load(s, Ptr(tok.id, P.off(f)), t, ex.mods[0])
            ex.oblige(s, 'arrive counts exactly the arrivals it was given', zi(s.ghost['counted']) == n, where='exit')
            ex.oblige(s, 'arrive does not drop participants', zi(s.ghost['dropped']) == 0, where='exit')
            ex.oblige(s, 'the token is for the phase of the arrival', zi(ld('token_generation', ('int', 64))) == zi(s.ghost['acted']), where='exit')
            ex.oblige(s, 'the token is for this barrier', ex.ptr_eq(s, ld('token_barrier', ('ptr',)), Ptr(o.id, 0)), where='exit')
            ex.oblige(s, 'arrive does not wait', zi(s.ghost['yields']) == 0, where='exit')
            cov['counts'] = cov['counts'] or ex.reachable(s, z3.Not(zb(s.ghost['ended'])))
            cov['ends the phase'] = cov['ends the phase'] or ex.reachable(s, zb(s.ghost['ended']))
        return cov
    return P.fn('co_barrier::arrive', body)


def prove_wait(P):
    def body(ex):
        st, o, m = barrier(ex, P)
        tok = ex.new_obj(st, 'token', P.size('token'), 'stack')
        g = fresh_arg(st, 'token_phase', 0, TOP)
        own = fresh_bool('own')
        other = fresh_int('other')
        st.assume(z3.And(other >= 0, other != ex.pterm(st, Ptr(o.id, 0))))
        bp = simp(z3.If(own, ex.pterm(st, Ptr(o.id, 0)), other))
        cells = st.cells(tok.id, True)
        cells[P.off('token_generation')] = (8, g)
        cells[P.off('token_barrier')] = (8, Sym(bp, 0))
        ex.token = lambda st: g
        first = {}
        acq = m.acquire

        def acquire(ex, st):
            r = acq(ex, st)
            if r is None and 'first' not in st.ghost:
                st.ghost['first'] = m.view(ex, st)['phase']
            return r
        m.acquire = acquire
        cov = {'refuses': False, 'returns': False, 'returns after waiting': False}
        for s, k, val in ex.run_function(st, ex.get('cocpp::co_barrier::wait'), [Ptr(o.id, 0), Ptr(tok.id, 0)]):
            done(ex, s, 'wait')
            f = zi(s.ghost['first'])
            good = z3.And(own, z3.Or(g == f, g == f - 1))
            ex.oblige(s, 'wait changes nothing', z3.And(zi(s.ghost['counted']) == 0, zi(s.ghost['dropped']) == 0, z3.Not(zb(s.ghost['ended']))), where='exit')
            if k == 'throw':
                ex.oblige(s, 'wait is refused with logic_error', ex.exc_match(val.ty, '_ZTISt11logic_error'), where='exit')
                ex.oblige(s, 'wait is refused only for a token of another barrier, or of a phase that is neither the current nor the previous one', z3.Not(good), where='exit')
                cov['refuses'] = True
                continue
            v = s.ghost[('last', 'barrier')]
            ex.oblige(s, 'wait accepts only tokens of this barrier for the current or the previous phase', good, where='exit')
            ex.oblige(s, 'wait returns only after the phase of the token has ended', v['phase'] > g, where='exit')
            y = zi(s.ghost['yields'])
            cov['returns'] = cov['returns'] or ex.reachable(s, y == 0)
            cov['returns after waiting'] = cov['returns after waiting'] or ex.reachable(s, y > 0)
        return cov
    return P.fn('co_barrier::wait', body)


def prove_arrive_and_wait(P):
    def body(ex):
        st, o, m = barrier(ex, P)
        ex.token = lambda st: st.ghost['acted']
        ex.assumptions.add('fewer than 2 phases end between an arrival and the wait for it (participants of the phase do not arrive twice)')
        acq = m.acquire

        def acquire(ex, st):
            r = acq(ex, st)
            if r is None:
                p = zi(m.view(ex, st)['phase'])
                st.assume(z3.Implies(zi(st.ghost['counted']) == 1, p <= zi(st.ghost['acted']) + 1))
            return r
        m.acquire = acquire
        cov = {'refuses': False, 'last': False, 'waits': False}
        for s, k, val in ex.run_function(st, ex.get('cocpp::co_barrier::arrive_and_wait'), [Ptr(o.id, 0)]):
            done(ex, s, 'arrive_and_wait')
            if k == 'throw':
                a = s.ghost[('snap', 'barrier')]
                ex.oblige(s, 'arrive_and_wait is refused only when no arrival is expected', z3.And(a['left'] < 1, zi(s.ghost['counted']) == 0), where='exit')
                cov['refuses'] = True
                continue
            v = s.ghost[('last', 'barrier')]
            ex.oblige(s, 'arrive_and_wait counts one arrival', z3.And(zi(s.ghost['counted']) == 1, zi(s.ghost['dropped']) == 0), where='exit')
            ex.oblige(s, 'arrive_and_wait returns only after the phase it arrived in has ended', v['phase'] > zi(s.ghost['acted']), where='exit')
            y = zi(s.ghost['yields'])
            cov['last'] = cov['last'] or ex.reachable(s, z3.And(y == 0, zb(s.ghost['ended'])))
            cov['waits'] = cov['waits'] or ex.reachable(s, y > 0)
        return cov
    return P.fn('co_barrier::arrive_and_wait', body)


def prove_drop(P):
    def body(ex):
        st, o, m = barrier(ex, P)
        cov = {'refuses': False, 'counts': False, 'ends the phase': False}
        for s, k, val in ex.run_function(st, ex.get('cocpp::co_barrier::arrive_and_drop'), [Ptr(o.id, 0)]):
            done(ex, s, 'arrive_and_drop')
            a = s.ghost[('snap', 'barrier')]
            if k == 'throw':
                ex.oblige(s, 'arrive_and_drop is refused with logic_error', ex.exc_match(val.ty, '_ZTISt11logic_error'), where='exit')
                ex.oblige(s, 'arrive_and_drop is refused only when no arrival is expected', a['left'] < 1, where='exit')
                ex.oblige(s, 'a refused arrival changes nothing', z3.And(zi(s.ghost['counted']) == 0, zi(s.ghost['dropped']) == 0), where='exit')
                cov['refuses'] = True
                continue
            ex.oblige(s, 'arrive_and_drop counts one arrival and drops one participant', z3.And(zi(s.ghost['counted']) == 1, zi(s.ghost['dropped']) == 1), where='exit')
            ex.oblige(s, 'arrive_and_drop does not wait', zi(s.ghost['yields']) == 0, where='exit')
            cov['counts'] = cov['counts'] or ex.reachable(s, z3.Not(zb(s.ghost['ended'])))
            cov['ends the phase'] = cov['ends the phase'] or ex.reachable(s, zb(s.ghost['ended']))
        return cov
    return P.fn('co_barrier::arrive_and_drop', body)


def prove_ctor(P):
    def body(ex):
        st = conc.initial(ex)
        conc.mutex_contracts(ex)
        o = ex.new_obj(st, 'barrier', P.size('barrier'), 'param')
        n = fresh_arg(st, 'n', 1, TOP - 1)
        ld = lambda s, f: zi(ex.load(s, Ptr(o.id, P.off(f)), ('int', 64), ex.mods[0]))
        for s, k, val in ex.run_function(st, ex.get('cocpp::co_barrier::co_barrier'), [Ptr(o.id, 0), n]):
            v = {'left': ld(s, 'barrier_expected'), 'phase': ld(s, 'barrier_generation'), 'max': ld(s, 'barrier_max')}
            for nm, g in inv(v):
                ex.oblige(s, 'a new barrier: ' + nm, g, where='exit')
            ex.oblige(s, 'a new barrier expects the participants it was given', z3.And(v['left'] == n, v['max'] == n), where='exit')
        return {}
    return P.fn('co_barrier::co_barrier', body)


def run(P):
    msync.protocol(P, 'barrier', lambda ex: barrier(ex, P)[2])
    prove_ctor(P)
    prove_arrive(P)
    prove_wait(P)
    prove_arrive_and_wait(P)
    prove_drop(P)
