"""Contracts of the timed waits on a condition variable.

The callback given to the timer is the real one.  It runs, in a thread of its own, at every moment that matters: as soon as the
timer is started, while the waiter is suspended, when the waiter was woken but has not gone on, and when the wait has returned
(a timer that is stopped may already have taken its callback)."""
import z3
from values import *
import conc, stl, shared, cv
from conc import Monitor
from execu import Results, NOVAL, END, INLINE
from mutex import common_post
from msync import fresh_arg, signed
from waitfor import boxed, call
from llparse import simplify, demangle

SRCS, TUS, C = cv.SRCS, cv.TUS, cv.C


def guar(a, b, me):
    g = cv.guar(a, b, me)
    q, p = a['waiters'], b['waiters']
    return [(g[0][0] + ', or removing a waiter whose time is over', z3.Or(g[0][1], cv.removed_one(q, p, me)))] + g[1:]


class CvMon(Monitor):
    def acquire(self, ex, st):
        if st.ghost['gone']:
            ex.oblige(st, 'a timer whose wait has returned does not touch the condition variable', False)
            return END
        if st.ghost['incb']:
            st.ghost['cblocks'] = tuple(k for k in st.ghost['held'])
        return Monitor.acquire(self, ex, st)


def setup(ex, P):
    shared.install(ex)
    st, o, u, m = cv.setup(ex, P, guarantee=guar)
    m.__class__ = CvMon
    st.ghost.update({'gone': False, 'incb': False, 'cblocks': None, 'timer': None, 'cbran': False, 'bytimer': False, 'after': False, 'taken': ()})
    H = ex.handlers

    def track(ex, s, a, b):
        q, p = a['waiters'], b['waiters']
        if s.ghost['incb']:
            s.ghost['bytimer'] = simp(z3.Or(zb(s.ghost['bytimer']), z3.And(q.member(ex.me), z3.Not(p.member(ex.me)))))
        else:
            cv.track(ex, s, a, b)
    m.on_release = track

    lock0 = H['cocpp::co_spinlock::lock']

    def lock(ex, st, c):
        r = lock0(ex, st, c)
        if st.ghost['after'] and not st.ghost['incb']:
            st.ghost['taken'] += (conc.lock_key(ex, st, c.args[0]),)
        return r
    H['cocpp::co_spinlock::lock'] = lock

    leave0 = H['cocpp::co_ctx::leave_wait_resource_state']

    def leave(ex, st, c):
        if st.ghost['gone']:
            ex.oblige(st, 'a timer whose wait has returned wakes nobody', False)
            return END
        return leave0(ex, st, c)
    H['cocpp::co_ctx::leave_wait_resource_state'] = leave

    def expire(ex, s):
        """the callback, run by somebody else"""
        keep = {k: s.ghost[k] for k in ('preempt', 'held')}
        s.ghost.update({'preempt': z3.IntVal(0), 'held': (), 'incb': True, 'cbran': True})
        out = call(ex, s, s.ghost['timer']['cb'])
        for r in out:
            ex.oblige(r, 'the callback leaves no lock held', z3.BoolVal(not r.ghost['held']))
            ex.oblige(r, 'the callback leaves the preemption count as found', zi(r.ghost['preempt']) == 0)
            r.ghost.update(keep)
            r.ghost['incb'] = False
        return out
    ex.expire = expire

    def create(ex, st, c):
        sret, a = stl.this_ret(c)
        if len(a) != 2 or st.ghost['timer']:
            raise Unsupported('kind of timer')
        t = ex.new_obj(st, 'timer', 256, 'heap')
        at = ex.load(st, a[1], ('int', 64), ex.mods[0]) if isinstance(a[1], (Ptr, Sym)) else a[1]
        cb = boxed(ex, st, a[0])
        if cb is None:
            raise Unsupported('what the timer calls')
        st.ghost['timer'] = {'o': t.id, 'cb': cb, 'at': zi(at), 'run': False}
        shared.put(ex, st, sret, Ptr(t.id, 0))
    H['cocpp::co_timer::create'] = create

    def my(ex, st, p):
        p = shared.settle(ex, st, ex.resolve_sym(st, p))
        t = st.ghost['timer']
        if not t or not (isinstance(p, Ptr) and p.obj == t['o']):
            raise Unsupported('another timer')
        return t

    def start(ex, st, c):
        st.ghost['timer'] = dict(my(ex, st, c.args[0]), run=True)
        out = [st]
        if not st.ghost['held']:
            out = expire(ex, st.fork()) + out
        return Results([(s, NOVAL) for s in out])
    H['cocpp::co_timer::start'] = start

    def stop(ex, st, c):
        st.ghost['timer'] = dict(my(ex, st, c.args[0]), run=False)
    H['cocpp::co_timer::stop'] = stop

    suspend = H['cocpp::co_env::schedule_switch']

    def switch(ex, st, c):
        suspend(ex, st, c)
        st.ghost['unmarked'] = False
        ex.oblige(st, 'a timed wait is suspended with its timer started', z3.BoolVal(bool(st.ghost['timer'] and (st.ghost['timer']['run'] or st.ghost['cbran']))))
        ends = []
        if st.ghost['cbran']:
            ex.oblige(st, 'a wait whose deadline has passed ends', z3.Not(st.ghost[('last', m.name)]['W'][ex.me]))
            ends = [st]
        else:
            s2 = st.fork()
            # notified; the callback may come before the waiter goes on
            st.ghost['unmarked'] = True
            m.observe(ex, st)
            ends = expire(ex, st.fork()) + [st]
            for s in expire(ex, s2):
                ex.oblige(s, 'a wait whose deadline has passed ends', z3.Not(s.ghost[('last', m.name)]['W'][ex.me]))
                ends.append(s)
        for s in ends:
            s.ghost['unmarked'] = True
            s.ghost['after'] = True
        return Results([(s, NOVAL) for s in ends])
    H['cocpp::co_env::schedule_switch'] = switch
    ex.assumptions.add('a timer calls its callback once it has expired, at most once, and not before it is started or its deadline (shown for the timer service); a callback that was taken may still run when the timer has been stopped')
    return st, o, u, m


def prove_until(P):
    def body(ex):
        st, o, u, m = setup(ex, P)
        t = fresh_arg(st, 'deadline')
        d = ex.new_obj(st, 'deadline', 8, 'param')
        st.cells(d.id, True)[0] = (8, t)
        cov = {'notified': False, 'timeout': False, 'expired too late': False}
        for s, k, val in ex.run_function(st, pick(ex, 'wait_until', 3), [Ptr(o.id, 0), Ptr(u.id, 0), Ptr(d.id, 0)]):
            common_post(ex, s)
            ex.oblige(s, 'a timed wait does not throw', k == 'ret', where='exit')
            if k != 'ret':
                continue
            tm, by = s.ghost['timer'], zb(s.ghost['bytimer'])
            ex.oblige(s, 'the deadline of the timer is that of the wait', tm['at'] == t if tm else z3.BoolVal(False), where='exit')
            ex.oblige(s, 'a timed wait returns with the caller\'s lock held', zb(s.ghost['user']), where='exit')
            ex.oblige(s, 'a timed wait registers the caller exactly once', zi(s.ghost['registered']) == 1, where='exit')
            ex.oblige(s, 'a timeout is reported only if the timer ended the wait', z3.Implies(z3.Not(zb(val)), by), where='exit')
            ex.oblige(s, 'a timeout is reported if the timer ended the wait', z3.Implies(by, z3.Not(zb(val))), where='exit')
            v = m.observe(ex, s)
            ex.oblige(s, 'a timed wait that has returned is not registered', z3.Not(v['waiters'].member(ex.me)), where='exit')
            ex.oblige(s, 'the timer of a timed wait that has returned is not active', z3.BoolVal(bool(tm and (not tm['run'] or s.ghost['cbran']))), where='exit')
            if s.ghost['cblocks'] is not None:
                ex.oblige(s, 'an expiry under way is over before the wait returns', z3.BoolVal(any(k in s.ghost['taken'] for k in s.ghost['cblocks'])), where='exit')
            cov['notified'] = cov['notified'] or ex.reachable(s, zb(val))
            cov['timeout'] = cov['timeout'] or ex.reachable(s, z3.Not(zb(val)))
            cov['expired too late'] = cov['expired too late'] or (s.ghost['cbran'] and ex.reachable(s, zb(val)))
            if not s.ghost['cbran']:
                s.ghost['gone'] = True
                ex.expire(ex, s)
        return cov
    return P.fn('co_condition_variable::wait_until', body)


def pick(ex, name, n):
    """the instance with n template arguments"""
    r = [f for f in ex.find(C + name) if len(stl.split_targs(simplify(demangle(f))[2][-1])) == n]
    if len(r) != 1:
        raise Unsupported('%d instances of %s' % (len(r), name))
    return r[0]


def contract(ex, o, u, deadline):
    def wait(ex, st, c):
        if len(stl.split_targs(c.targs[-1])) != 3:
            return INLINE
        ex.oblige(st, 'a wait is on this condition variable with the caller\'s lock',
                  z3.And(zb(ex.ptr_eq(st, c.args[0], Ptr(o.id, 0))), zb(ex.ptr_eq(st, c.args[1], Ptr(u.id, 0)))))
        ex.oblige(st, 'a wait is entered with the caller\'s lock held', zb(st.ghost['user']))
        at = zi(ex.load(st, c.args[2], ('int', 64), ex.mods[0]))
        ex.oblige(st, 'the deadline handed on is the caller\'s', signed(at) == deadline(st))
        ex.oblige(st, 'a predicate wait blocks only after it found the predicate false', z3.Or(zi(st.ghost['pred']) == 1, zi(st.ghost['pred']) == 3))
        ex.oblige(st, 'no wait is begun when the deadline has passed', zi(st.ghost['late']) == 0)
        conc.blocking_point(ex, st, 'wait')
        r = fresh_bool('notified')
        st.ghost['pred'] = 0
        st.ghost['waits'] = simp(zi(st.ghost['waits']) + 1)
        st.ghost['late'] = simp(z3.If(r, z3.IntVal(0), z3.IntVal(1)))
        return r
    ex.handlers[C + 'wait_until'] = wait


def first_reading(ex, st):
    """a relative time counts from the first look at the clock"""
    now = ex.handlers['std::chrono::_V2::steady_clock::now']
    st.ghost.update({'looked': 0, 'start': z3.Int('start')})

    def look(ex, st, c):
        r = now(ex, st, c)
        n = simp(zi(st.ghost['looked']))
        if not z3.is_int_value(n) or n.as_long() == 0:
            st.ghost['start'] = simp(z3.If(n == 0, zi(st.ghost['clock']), zi(st.ghost['start'])))
            st.ghost['looked'] = 1
        return r
    ex.handlers['std::chrono::_V2::steady_clock::now'] = look


def prove_over(P, name, pred):
    """wait_for, and the forms with a predicate, over the contract of wait_until"""
    def body(ex):
        st, o, u, m = cv.setup(ex, P)
        pr = ex.new_obj(st, 'predicate', 1, 'param')
        st.ghost.update({'pred': 0 if pred else 3, 'waits': 0, 'late': 0})
        t = fresh_arg(st, 'time')
        rel = name == 'wait_for'
        if rel:
            st.assume(z3.And(signed(t) < 2 ** 61, signed(t) > -2 ** 61))
            first_reading(ex, st)
        contract(ex, o, u, (lambda s: zi(s.ghost['start']) + signed(t)) if rel else (lambda s: signed(t)))
        cv.predicate(ex)
        d = ex.new_obj(st, 'time', 8, 'param')
        st.cells(d.id, True)[0] = (8, t)
        fn = pick(ex, name, 4 if pred else 3)
        args = [Ptr(o.id, 0), Ptr(u.id, 0), Ptr(d.id, 0)] + ([Ptr(pr.id, 0)] if len(ex.funcs[fn].parse().params) > 3 else [])
        cov = {'true': False, 'false': False}
        for s, k, val in ex.run_function(st, fn, args):
            common_post(ex, s)
            ex.oblige(s, 'a timed wait does not throw', k == 'ret', where='exit')
            if k != 'ret':
                continue
            ex.oblige(s, 'a timed wait returns with the caller\'s lock held', zb(s.ghost['user']), where='exit')
            if pred:
                p = zi(s.ghost['pred'])
                ex.oblige(s, 'a timed predicate wait returns the value the predicate has now', p == z3.If(zb(val), 2, 1), where='exit')
                ex.oblige(s, 'a timed predicate wait gives up only when the deadline has passed', z3.Implies(z3.Not(zb(val)), zi(s.ghost['late']) == 1), where='exit')
            else:
                ex.oblige(s, 'a timed wait waits once and returns what that gave', z3.And(zi(s.ghost['waits']) == 1, zb(val) == (zi(s.ghost['late']) == 0)), where='exit')
            cov['true'] = cov['true'] or ex.reachable(s, zb(val))
            cov['false'] = cov['false'] or ex.reachable(s, z3.Not(zb(val)))
        return cov
    return P.fn('co_condition_variable::%s%s' % (name, ' with a predicate' if pred else ''), body)


def run(P):
    prove_until(P)
    prove_over(P, 'wait_for', False)
    prove_over(P, 'wait_until', True)
    prove_over(P, 'wait_for', True)
