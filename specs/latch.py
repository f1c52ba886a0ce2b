"""Contracts of the latch and the wait group."""
import z3
from values import *
import conc, msync
from conc import Field, same
from msync import fresh_arg, done

SRCS = ['sync/co_latch.cpp', 'sync/co_wait_group.cpp', 'utils/co_utils.cpp']
TOP = 2 ** 63


def latch(ex, P, pre=None):
    return msync.setup(ex, P, 'latch', 'latch', 'latch_mutex',
                       [Field('left', P.off('latch_expect'), 8, 'int')],
                       inv=lambda v: [('the number of arrivals still expected is not negative', z3.And(0 <= v['left'], v['left'] < TOP))],
                       guar=lambda a, b, me: [('the number of arrivals still expected only decreases', b['left'] <= a['left'])],
                       rely=lambda a, b, me: [('others only decrease the number of arrivals still expected', b['left'] <= a['left'])],
                       cvs=[('the latch', 'latch_cond', dict(open=lambda v: v['left'] == 0))], pre=pre)


def moved(ex, s, m):
    return simp(zi(s.ghost.get('counted', 0)))


def count(ex, st, a, b):
    st.ghost['counted'] = simp(zi(st.ghost.get('counted', 0)) + zi(a['left']) - zi(b['left']))


def prove_count_down(P, fname='count_down', waits=False):
    def body(ex):
        st, o, m = latch(ex, P)
        m.on_release = count
        st.ghost['counted'] = 0
        n = fresh_arg(st, 'n', 0, TOP - 1)
        cov = {'refuses': False, 'counts': False}
        for s, k, val in ex.run_function(st, ex.get('cocpp::co_latch::' + fname), [Ptr(o.id, 0), n]):
            done(ex, s, fname)
            v = s.ghost[('last', 'latch')]
            if k == 'throw':
                a = s.ghost[('snap', 'latch')]
                ex.oblige(s, '%s is refused with logic_error' % fname, ex.exc_match(val.ty, '_ZTISt11logic_error'), where='exit')
                ex.oblige(s, '%s is refused only when fewer arrivals are expected' % fname, a['left'] < n, where='exit')
                ex.oblige(s, 'a refused arrival changes nothing', moved(ex, s, m) == 0, where='exit')
                cov['refuses'] = True
            else:
                ex.oblige(s, '%s counts exactly the arrivals it was given' % fname, moved(ex, s, m) == n, where='exit')
                if waits:
                    ex.oblige(s, '%s returns only after every arrival' % fname, v['left'] == 0, where='exit')
                cov['counts'] = cov['counts'] or ex.reachable(s)
        return cov
    return P.fn('co_latch::' + fname, body)


def prove_try_wait(P):
    def body(ex):
        st, o, m = latch(ex, P)
        m.on_release = count
        st.ghost['counted'] = 0
        cov = {'open': False, 'closed': False}
        for s, k, val in ex.run_function(st, ex.get('cocpp::co_latch::try_wait'), [Ptr(o.id, 0)]):
            done(ex, s, 'try_wait')
            ex.oblige(s, 'try_wait does not throw', k == 'ret', where='exit')
            if k != 'ret':
                continue
            v = s.ghost[('last', 'latch')]
            ex.oblige(s, 'try_wait tells whether every arrival has happened', zb(val) == (v['left'] == 0), where='exit')
            ex.oblige(s, 'try_wait changes nothing', moved(ex, s, m) == 0, where='exit')
            ex.oblige(s, 'try_wait does not wait', zi(s.ghost['yields']) == 0, where='exit')
            cov['open'] = cov['open'] or ex.reachable(s, zb(val))
            cov['closed'] = cov['closed'] or ex.reachable(s, z3.Not(zb(val)))
        return cov
    return P.fn('co_latch::try_wait', body)


def prove_wait(P):
    def body(ex):
        st, o, m = latch(ex, P)
        m.on_release = count
        st.ghost['counted'] = 0
        cov = {'returns': False, 'returns after waiting': False}
        for s, k, val in ex.run_function(st, ex.get('cocpp::co_latch::wait'), [Ptr(o.id, 0)]):
            done(ex, s, 'wait')
            ex.oblige(s, 'wait does not throw', k == 'ret', where='exit')
            v = s.ghost[('last', 'latch')]
            ex.oblige(s, 'wait returns only after every arrival', v['left'] == 0, where='exit')
            ex.oblige(s, 'wait changes nothing', moved(ex, s, m) == 0, where='exit')
            cov['returns'] = cov['returns'] or ex.reachable(s, zi(s.ghost['yields']) == 0)
            cov['returns after waiting'] = cov['returns after waiting'] or ex.reachable(s, zi(s.ghost['yields']) > 0)
        return cov
    return P.fn('co_latch::wait', body)


def prove_latch_ctor(P):
    def body(ex):
        st = conc.initial(ex)
        conc.mutex_contracts(ex)
        o = ex.new_obj(st, 'latch', P.size('latch'), 'param')
        n = fresh_arg(st, 'n', 0, TOP - 1)
        cov = {'returns': False}
        for s, k, val in ex.run_function(st, ex.get('cocpp::co_latch::co_latch'), [Ptr(o.id, 0), n]):
            ex.oblige(s, 'a new latch expects the arrivals it was given', zi(ex.load(s, Ptr(o.id, P.off('latch_expect')), ('int', 64), ex.mods[0])) == n, where='exit')
            cov['returns'] = True
        return cov
    return P.fn('co_latch::co_latch', body)


# ---------------------------------------------------------------- wait group
def wg(ex, P, pre=None):
    st, o, m = msync.setup(ex, P, 'wait group', 'wg', 'wg_mutex',
                           [Field('done', P.off('wg_done'), 8, 'int')],
                           inv=lambda v: [('no more completions than members', v['done'] <= z3.Int('count'))],
                           guar=lambda a, b, me: [('completions only increase', b['done'] >= a['done'])],
                           rely=lambda a, b, me: [('others only add completions', b['done'] >= a['done'])],
                           cvs=[('the wait group', 'wg_cond', dict(open=lambda v: v['done'] == z3.Int('count')))], pre=pre)
    n = z3.Int('count')
    st.assume(z3.And(n >= 0, n < 2 ** 64))
    st.cells(o.id, True)[P.off('wg_count')] = (8, n)
    m.on_release = tally
    st.ghost['counted'] = 0
    return st, o, m, n


def tally(ex, st, a, b):
    st.ghost['counted'] = simp(zi(st.ghost['counted']) + zi(b['done']) - zi(a['done']))


def prove_done(P):
    def body(ex):
        st, o, m, n = wg(ex, P)
        ex.assumptions.add('done() is not called more often than the wait group was told')
        # the caller's own completion is still missing whenever it looks
        acq = m.acquire

        def acquire(ex, st):
            r = acq(ex, st)
            if r is None:
                st.assume(z3.Implies(zi(st.ghost['counted']) == 0, m.view(ex, st)['done'] < n))
            return r
        m.acquire = acquire
        cov = {'last': False, 'not last': False}
        for s, k, val in ex.run_function(st, ex.get('cocpp::co_wait_group::done'), [Ptr(o.id, 0)]):
            done(ex, s, 'done')
            ex.oblige(s, 'done does not throw', k == 'ret', where='exit')
            v = s.ghost[('last', 'wait group')]
            ex.oblige(s, 'done counts one completion', zi(s.ghost['counted']) == 1, where='exit')
            cov['last'] = cov['last'] or ex.reachable(s, v['done'] == n)
            cov['not last'] = cov['not last'] or ex.reachable(s, v['done'] < n)
        return cov
    return P.fn('co_wait_group::done', body)


def prove_wg_wait(P, fname):
    def body(ex):
        st, o, m, n = wg(ex, P)
        cov = {'returns': False, 'returns after waiting': False}
        for s, k, val in ex.run_function(st, ex.get('cocpp::co_wait_group::' + fname), [Ptr(o.id, 0)]):
            done(ex, s, fname)
            ex.oblige(s, '%s does not throw' % fname, k == 'ret', where='exit')
            v = s.ghost[('last', 'wait group')]
            ex.oblige(s, '%s returns only after every completion' % fname, v['done'] == n, where='exit')
            ex.oblige(s, '%s changes nothing' % fname, zi(s.ghost['counted']) == 0, where='exit')
            cov['returns'] = cov['returns'] or ex.reachable(s, zi(s.ghost['yields']) == 0)
            cov['returns after waiting'] = cov['returns after waiting'] or ex.reachable(s, zi(s.ghost['yields']) > 0)
        return cov
    return P.fn('co_wait_group::' + fname, body)


def prove_wg_ctor(P):
    def body(ex):
        st = conc.initial(ex)
        conc.mutex_contracts(ex)
        o = ex.new_obj(st, 'wg', P.size('wg'), 'param')
        n = fresh_arg(st, 'n')
        ld = lambda s, f: zi(ex.load(s, Ptr(o.id, P.off(f)), ('int', 64), ex.mods[0]))
        for s, k, val in ex.run_function(st, ex.get('cocpp::co_wait_group::co_wait_group'), [Ptr(o.id, 0), n]):
            ex.oblige(s, 'a new wait group waits for as many completions as it was given', ld(s, 'wg_count') - ld(s, 'wg_done') == n, where='exit')
            ex.oblige(s, 'a new wait group has seen no completion', ld(s, 'wg_done') == 0, where='exit')
        return {}
    return P.fn('co_wait_group::co_wait_group', body)


def run(P):
    msync.protocol(P, 'latch', lambda ex: latch(ex, P)[2])
    msync.protocol(P, 'wait group', lambda ex: wg(ex, P)[2])
    prove_latch_ctor(P)
    prove_count_down(P)
    prove_count_down(P, 'arrive_and_wait', True)
    prove_try_wait(P)
    prove_wait(P)
    prove_wg_ctor(P)
    prove_done(P)
    prove_wg_wait(P, 'wait')
    prove_wg_wait(P, '~co_wait_group')
