"""Contracts of events: subscribe, unsubscribe, publish.

The callbacks are stored by handle; handles given out are all below the next one.  Callbacks are opaque: while one runs it
may subscribe and unsubscribe.  Ghosts of a publication: 'kept' the handles subscribed at its start and not unsubscribed
since, 'called' the handles whose callback was called, 'last' the last of them."""
import z3
from values import *
import conc, oslock, stl, maps
from conc import Monitor, Field

SRCS = []
TUS = ['event.cpp']
U64 = 2 ** 64
KT = (0, U64, None, 64)
hnd = z3.Function('handle of', z3.IntSort(), z3.IntSort())


def own(m):
    """callbacks are identified by the handle they are stored under"""
    k = z3.Int('k!o')
    return z3.ForAll([k], z3.Implies(m.keys[k], z3.And(hnd(m.val[k]) == k, m.val[k] > 0)), patterns=[m.keys[k]])


def fresh(ex, st):
    m = maps.fresh_map(st, KT)
    st.assume(own(m))
    return m


def below(v):
    k = z3.Int('k!n')
    m = v['list']
    return z3.ForAll([k], z3.Implies(m.keys[k], k < zi(v['next'])), patterns=[m.keys[k]])


class EvMon(Monitor):
    def acquire(self, ex, st):
        r = Monitor.acquire(self, ex, st)
        st.ghost['start'] = m = self.view(ex, st)['list']
        st.ghost['kept'] = m.keys
        st.ghost['called'] = z3.K(z3.IntSort(), z3.BoolVal(False))
        st.ghost['lastcalled'] = -1
        return r


def setup(ex, P):
    oslock.install(ex)
    maps.install(ex)
    st = conc.initial(ex)
    o = ex.new_obj(st, 'event', P.size('event'), 'param')
    M = EvMon('event', o, P.off('ev_mu'), [Field('list', P.off('ev_list'), 48, 'map', mk=fresh), Field('next', P.off('ev_next'), 8, 'int')],
              inv=lambda v: [('every handle in use is below the next one', below(v))],
              guar=lambda a, b, me: [('handles are not given out again', zi(b['next']) >= zi(a['next']))])
    st.ghost.update({'start': None, 'kept': z3.K(z3.IntSort(), z3.BoolVal(False)), 'called': z3.K(z3.IntSort(), z3.BoolVal(False)), 'lastcalled': -1})
    M.install(ex, st)
    ex.assumptions.add('fewer than 2^64 subscriptions are made on one event')

    def call(ex, st, c, t):
        args = stl.this_ret(c)[1][1:]
        if M.held(st) is False:
            # called after the lock was given up: what was subscribed at the start
            pass
        t = zi(t)
        h = hnd(t)
        s0 = st.ghost['start']
        if s0 is None:
            ex.oblige(st, 'only subscribed callbacks are called', False)
            return
        now = M.view(ex, st)['list'] if M.held(st) else s0
        ex.oblige(st, 'only subscribed callbacks are called', z3.Or(z3.And(s0.has(h), s0.at(h) == t), z3.And(now.has(h), now.at(h) == t)))
        ex.oblige(st, 'no callback is called twice', z3.Not(st.ghost['called'][h]))
        ex.oblige(st, 'callbacks are called in the order of subscription', h > zi(st.ghost['lastcalled']))
        ex.oblige(st, 'callbacks get the published arguments', z3.And([z3.BoolVal(len(args) == len(ex.published))] + [zi(ex.load(st, a, ('int', 32), ex.mods[0]) if isinstance(a, Ptr) else a) == b for a, b in zip(args, ex.published)]))
        hn = fresh_int('called')
        st.assume(hn == h)
        st.ghost['called'] = z3.Store(st.ghost['called'], hn, z3.BoolVal(True))
        st.ghost['lastcalled'] = hn
        # what the callback may have done to the event
        if M.held(st):
            nx = zi(M.view(ex, st)['next'])
            m2, n2 = fresh(ex, st), fresh_int('next')
            k = z3.Int('k!c')
            st.assume(z3.And(n2 >= nx, n2 < U64))
            st.assume(z3.ForAll([k], z3.Implies(m2.keys[k], z3.And(k < n2, z3.Or(k >= nx, z3.And(now.keys[k], now.val[k] == m2.val[k])))), patterns=[m2.keys[k]]))
            kp = conc.bool_array('kept')
            st.assume(z3.ForAll([k], kp[k] == z3.And(st.ghost['kept'][k], m2.keys[k]), patterns=[kp[k]]))
            st.ghost['kept'] = kp
            cells = st.cells(o.id, True)
            cells[P.off('ev_list')] = (None, m2)
            cells[P.off('ev_next')] = (8, n2)
    maps.functions(ex, call)
    ex.loop_hook.append(cands(M))
    return st, o, M


def cands(M):
    def f(ex, s0, cur, mod, depth):
        import loops
        out = []
        k = z3.Int('k!l')
        if ('ghost', 'called', None) not in mod:
            return out

        def keptnow(s):
            m = M.view(ex, s)['list'] if M.held(s) else s.ghost['start']
            return z3.ForAll([k], z3.Implies(s.ghost['kept'][k], m.keys[k]), patterns=[s.ghost['kept'][k]])
        out.append(('kept callbacks are subscribed', keptnow))
        out.append(('callbacks are known by their handle', lambda s: own(M.view(ex, s)['list'])))
        out.append(('kept callbacks were subscribed', lambda s: z3.ForAll([k], z3.Implies(s.ghost['kept'][k], s.ghost['start'].keys[k]), patterns=[s.ghost['kept'][k]])))
        for l in mod:
            v = loops.get(cur, l, depth)
            if v is None:
                continue
            if l[0] == 'cell':
                v = v[1]
            if not isinstance(v, It):
                continue

            def idx(s, l=l):
                x = loops.get(s, l, depth)
                x = x[1] if l[0] == 'cell' else x
                return x.c, zi(x.idx)
            out.append(('called up to the iterator', lambda s, idx=idx: z3.ForAll([k], z3.Implies(z3.And(s.ghost['kept'][k], k < idx(s)[1]), s.ghost['called'][k]), patterns=[s.ghost['kept'][k]])))
            out.append(('called none from the iterator on', lambda s, idx=idx: z3.ForAll([k], z3.Implies(s.ghost['called'][k], k < idx(s)[1]), patterns=[s.ghost['called'][k]])))
            out.append(('last called is below the iterator', lambda s, idx=idx: zi(s.ghost['lastcalled']) < idx(s)[1]))

            def there(s, idx=idx):
                c, i = idx(s)
                m = stl.get_cont(s, c)
                return z3.Or(i == maps.END_KEY, m.has(i)) if isinstance(m, maps.MapV) else None
            out.append(('the iterator is at an entry or at the end', there))
        return out
    return f


def fnobj(ex, st):
    f = ex.new_obj(st, 'callback', 32, 'param')
    t = fresh_int('callback')
    st.assume(t > 0)
    stl.put(ex, st, Ptr(f.id, 0), maps.Obj(t), raw=True)
    return f, t


def sub(P, n):
    def body(ex):
        st, o, M = setup(ex, P)
        f, t = fnobj(ex, st)
        cov = {'returns': False}
        base = M.acquire

        def acquire(ex, st):
            r = base(ex, st)
            st.assume(zi(M.view(ex, st)['next']) < U64 - 1)
            return r
        M.acquire = acquire
        for s, k, v in ex.run_function(st, ex.get('vf_sub%d' % n), [Ptr(o.id, 0), Ptr(f.id, 0)]):
            ex.oblige(s, 'sub does not throw', k == 'ret', where='exit')
            if k != 'ret':
                continue
            oslock.balanced(ex, s)
            ex.oblige(s, 'the subscription is one step', s.ghost[('acq', 'event')] == 1, where='exit')
            a, b = s.ghost[('snap', 'event')], s.ghost[('last', 'event')]
            m0, m1 = a['list'], b['list']
            q = z3.Int('k!s')
            r = zi(v)
            ex.oblige(s, 'the handle was never given out before', r >= zi(a['next']), where='exit')
            ex.oblige(s, 'the handle is not given out again', r < zi(b['next']), where='exit')
            ex.oblige(s, 'the callback is subscribed under the handle', z3.And(m1.has(r), m1.at(r) == t), where='exit')
            ex.oblige(s, 'other subscriptions stay', z3.ForAll([q], z3.Implies(q != r, z3.And(m1.keys[q] == m0.keys[q], z3.Implies(m0.keys[q], m1.val[q] == m0.val[q]))), patterns=[m1.keys[q]]), where='exit')
            cov['returns'] = True
        return cov
    return P.fn('co_event::sub (%d arguments)' % n, body)


def unsub(P, n):
    def body(ex):
        st, o, M = setup(ex, P)
        h = z3.Int('h')
        st.assume(z3.And(h >= 0, h < U64))
        cov = {'known': False, 'unknown': False}
        for s, k, v in ex.run_function(st, ex.get('vf_unsub%d' % n), [Ptr(o.id, 0), h]):
            ex.oblige(s, 'unsub does not throw', k == 'ret', where='exit')
            if k != 'ret':
                continue
            oslock.balanced(ex, s)
            ex.oblige(s, 'unsubscribing is one step', s.ghost[('acq', 'event')] == 1, where='exit')
            a, b = s.ghost[('snap', 'event')], s.ghost[('last', 'event')]
            m0, m1 = a['list'], b['list']
            q = z3.Int('k!s')
            ex.oblige(s, 'the callback of the handle is gone', z3.Not(m1.has(h)), where='exit')
            ex.oblige(s, 'other subscriptions stay', z3.ForAll([q], z3.Implies(q != h, z3.And(m1.keys[q] == m0.keys[q], z3.Implies(m0.keys[q], m1.val[q] == m0.val[q]))), patterns=[m1.keys[q]]), where='exit')
            cov['known'] = cov['known'] or ex.reachable(s, m0.has(h))
            cov['unknown'] = cov['unknown'] or ex.reachable(s, z3.Not(m0.has(h)))
        return cov
    return P.fn('co_event::unsub (%d arguments)' % n, body)


def pub(P, n):
    def body(ex):
        st, o, M = setup(ex, P)
        ex.published = [z3.Int('a'), z3.Int('b')][:n]
        for a in ex.published:
            st.assume(z3.And(a >= 0, a < 2 ** 32))
        cov = {'returns': False, 'some': False}
        for s, k, v in ex.run_function(st, ex.get('vf_pub%d' % n), [Ptr(o.id, 0)] + ex.published):
            ex.oblige(s, 'pub does not throw', k == 'ret', where='exit')
            if k != 'ret':
                continue
            oslock.balanced(ex, s)
            ex.oblige(s, 'the callbacks are looked up in one step', s.ghost[('acq', 'event')] == 1, where='exit')
            q = z3.Int('k!s')
            ex.oblige(s, 'every subscribed callback was called', z3.ForAll([q], z3.Implies(s.ghost['kept'][q], s.ghost['called'][q]), patterns=[s.ghost['kept'][q]]), where='exit')
            cov['returns'] = True
            cov['some'] = cov['some'] or ex.reachable(s, zi(s.ghost['lastcalled']) >= 0)
        return cov
    return P.fn('co_event::pub (%d arguments)' % n, body)


def run(P):
    for n in (0, 2):
        sub(P, n)
        unsub(P, n)
        pub(P, n)
    P.assumptions.add('callbacks do not throw')
