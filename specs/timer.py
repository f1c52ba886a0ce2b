"""Contracts of timers and of the timer service.

The queue is the set of queued timers together with the expiry time each was queued under.  Seen from one timer T: it is
running exactly if it is queued, under its current expiry time; nobody else's operation changes that."""
import re
import z3
from values import *
import conc, oslock, stl, maps, shared, prio
from stl import this_ret
from conc import Monitor, Field
from execu import END, INLINE, Results, NOVAL

SRCS = ['core/co_timer.cpp', 'core/co_manager.cpp']
TUS = ['timer.cpp']
T = 'cocpp::co_timer::'
A = z3.ArraySort(z3.IntSort(), z3.IntSort())
MS = 10 ** 6


class Queue:
    """queued timers by address, and the expiry time each was queued under"""
    kind = 'timers'
    __slots__ = ('arr', 'key', 'n', 'ver')

    def __init__(self, arr, key, n):
        self.arr, self.key, self.n, self.ver = arr, key, n, stl.newver()

    def same(self, o):
        return isinstance(o, Queue) and self.arr.eq(o.arr) and self.key.eq(o.key) and veq(self.n, o.n)

    def equal(self, o):
        return z3.BoolVal(True) if self.same(o) else z3.And(self.arr == o.arr, self.key == o.key, zi(self.n) == zi(o.n))

    def has(self, t):
        return z3.Select(self.arr, t)

    def due(self, t):
        return z3.Select(self.key, t)

    def earliest(self, t):
        x = z3.Int('x!q')
        return z3.ForAll([x], z3.Implies(self.arr[x], self.key[x] >= self.key[t]), patterns=[self.arr[x]])

    def havoc(self, ex, st):
        return fresh(ex, st)

    def __repr__(self):
        return 'Queue'


def facts(st, q):
    stl.set_facts(st, stl.SetV(None, q.arr, q.n))
    return q


def fresh(ex, st):
    return facts(st, Queue(conc.bool_array('queued'), z3.Const(fresh_name('key'), A), fresh_int('queued')))


def q_at(ex, st, p, write=False):
    q = stl.cont(ex, st, p, write, None)
    if not isinstance(q, Queue):
        raise Unsupported('expected the timer queue')
    return q


def with_(st, q, t, exp):
    h = q.has(t)
    return facts(st, Queue(z3.Store(q.arr, t, z3.BoolVal(True)), z3.If(h, q.key, z3.Store(q.key, t, exp)), simp(z3.If(h, zi(q.n), zi(q.n) + 1))))


def without(st, q, t):
    return facts(st, Queue(z3.Store(q.arr, t, z3.BoolVal(False)), q.key, simp(z3.If(q.has(t), zi(q.n) - 1, zi(q.n)))))


def setit(t):
    return Sym(simp(zi(t) + 1), 0, 'setit')


def install_queue(ex, exp):
    """exp(st, t): the expiry time the timer has now"""
    H = ex.handlers
    S = 'std::set::'

    def elem(ex, st, p):
        return ex.pterm(st, shared.get(ex, st, p))

    def insert(ex, st, c):
        sret, a = this_ret(c)
        q = q_at(ex, st, a[0], True)
        t = elem(ex, st, a[-1])
        ex.oblige(st, 'only timers are queued', t != 0)
        stl.put(ex, st, ex.resolve_sym(st, a[0]), with_(st, q, t, exp(st, t)))
        return setit(t) if len(a) == 3 else [setit(t), simp(z3.Not(q.has(t)))]

    def erase(ex, st, c):
        sret, a = this_ret(c)
        q = q_at(ex, st, a[0], True)
        if 'iterator' in c.argtypes:
            t = zi(ex.pterm(st, a[1])) - 1
            ex.oblige(st, 'only a queued timer is removed', q.has(t))
        else:
            t = elem(ex, st, a[1])
            ex.oblige(st, 'a timer is looked up under the expiry time it was queued with', z3.Implies(q.has(t), q.due(t) == exp(st, t)))
        stl.put(ex, st, ex.resolve_sym(st, a[0]), without(st, q, t))
        if 'iterator' in c.argtypes:
            return Sym(fresh_int('it'), 0, 'setit')
        return simp(zi(q.has(t)))

    def begin(ex, st, c):
        q = q_at(ex, st, c.args[0])
        t = fresh_int('front')
        st.assume(t > 0)
        st.assume(z3.Or(z3.And(zi(q.n) > 0, q.has(t), q.earliest(t)), zi(q.n) == 0))
        return Sym(simp(z3.If(zi(q.n) > 0, t + 1, 0)), 0, 'setit')

    def find(ex, st, c):
        q = q_at(ex, st, c.args[0])
        t = elem(ex, st, c.args[1])
        ex.oblige(st, 'a timer is looked up under the expiry time it was queued with', z3.Implies(q.has(t), q.due(t) == exp(st, t)))
        if c.q.endswith('contains'):
            return q.has(t)
        if c.q.endswith('count'):
            return zi(q.has(t))
        return Sym(z3.If(q.has(t), t + 1, z3.IntVal(0)), 0, 'setit')

    def deref(ex, st, c):
        p = ex.resolve_sym(st, c.args[0])
        it = ex.load(st, p, ('ptr',), ex.mods[0])
        t = simp(zi(ex.pterm(st, it)) - 1)
        if isinstance(it, Sym) and it.tag != 'setit':
            raise Unsupported('iterator of another container')
        o = ex.new_obj(st, 'queue entry', 16, 'heap')
        name = fresh_int('timer')
        st.assume(name == t)
        st.cells(o.id, True)[0] = (8, shared.settle(ex, st, Sym(name, 0, 'timer')))
        st.cells(o.id, True)[8] = (8, NULL)
        return Ptr(o.id, 0)
    H[S + 'insert'] = H[S + 'emplace'] = insert
    H[S + 'erase'] = erase
    H[S + 'begin'] = H[S + 'cbegin'] = begin
    H[S + 'end'] = H[S + 'cend'] = lambda ex, st, c: (q_at(ex, st, c.args[0]), Sym(z3.IntVal(0), 0, 'setit'))[1]
    H[S + 'find'] = H[S + 'contains'] = H[S + 'count'] = find
    H[S + 'empty'] = lambda ex, st, c: simp(zi(q_at(ex, st, c.args[0]).n) == 0)
    H[S + 'size'] = lambda ex, st, c: q_at(ex, st, c.args[0]).n
    H['std::_Rb_tree_const_iterator::operator*'] = H['std::_Rb_tree_const_iterator::operator->'] = deref


def notifications(ex, P, mgr):
    def notify(ex, st, c):
        p = ex.resolve_sym(st, c.args[0])
        if isinstance(p, Ptr) and (p.obj, p.off) == (mgr.id, P.off('tm_qcv')):
            st.ghost['told'] = True
    for v in ('', '_V2::'):
        for w in ('one', 'all'):
            ex.handlers['std::%scondition_variable_any::notify_%s' % (v, w)] = notify


class TMon(Monitor):
    """protected by the lock of the queue; the fields of T also by its own lock"""
    own = None

    def access(self, ex, st, nm, write, atomic):
        if nm in ('status', 'expire') and not write and (self.own in st.ghost.get('held', ())):
            return
        Monitor.access(self, ex, st, nm, write, atomic)
        if nm in ('status', 'expire') and write:
            ex.oblige(st, 'a timer is changed only while its own lock is held', z3.BoolVal(self.own in st.ghost.get('held', ())))


def manager(ex, mgr):
    def instance(ex, st, c):
        if 'co_manager' not in c.targs[0]:
            return INLINE
        return Ptr(mgr.id, 0)
    for n in ('co_singleton_static', 'co_singleton'):
        ex.handlers['cocpp::%s::instance' % n] = instance


def setup(ex, P):
    oslock.install(ex)
    shared.install(ex)
    st = conc.initial(ex)
    mgr = ex.new_obj(st, 'manager', P.size('tm_mgr'), 'param')
    t = ex.new_obj(st, 'shared timer', P.size('timer'), 'param')
    tt = z3.IntVal(t.base)
    manager(ex, mgr)
    run = P.consts['val_tm_running'], P.consts['val_tm_stopped']

    def signed(x):
        return z3.If(zi(x) >= 2 ** 63, zi(x) - 2 ** 64, zi(x))

    def exp(st, x):
        c = st.mem[t.id][P.off('tm_expire')][1]
        if not ex.implied(st.pc, x == tt):
            raise Unsupported('another timer')
        return signed(c)

    def inv(v):
        q = v['queue']
        return [('a timer is queued exactly if it is running', q.has(tt) == (zi(v['status']) == run[0])),
                ('a timer is queued under its expiry time', z3.Implies(q.has(tt), q.due(tt) == signed(v['expire']))),
                ('a timer is running or stopped', z3.Or([zi(v['status']) == r for r in run]))]

    def guar(a, b, me):
        x = z3.Int('x!g')
        p, q = a['queue'], b['queue']
        return [('no other timer is affected', z3.ForAll([x], z3.Implies(x != tt, z3.And(q.arr[x] == p.arr[x], z3.Implies(q.arr[x], q.key[x] == p.key[x]))), patterns=[q.arr[x]]))]
    M = TMon('timer queue', mgr, P.off('tm_qmu'), [Field('queue', P.off('tm_queue'), 48, 'timers', mk=fresh), Field('status', P.off('tm_status'), 4, 'int', obj=t),
                                                  Field('expire', P.off('tm_expire'), 8, 'int', obj=t)], inv=inv, guar=guar, kind='os')
    M.own = (t.id, P.off('tm_mu'))
    for n, size in (('tm_handle', 8), ('tm_interval', 8), ('tm_etype', 4), ('tm_ttype', 4)):
        x = fresh_int(n[3:])
        st.cells(t.id, True)[P.off(n)] = (size, x)
        st.assume(z3.And(x >= 0, x < 2 ** (8 * size)))
        ex.__dict__.setdefault('tf', {})[n] = x
    f = ex.tf
    st.assume(z3.Or(f['tm_etype'] == P.consts['val_tm_once'], f['tm_etype'] == P.consts['val_tm_loop']))
    st.assume(z3.Or(f['tm_ttype'] == P.consts['val_tm_abs'], f['tm_ttype'] == P.consts['val_tm_rel']))
    st.assume(f['tm_interval'] < 2 ** 42)
    ex.assumptions.add('intervals of timers are below 2^42 milliseconds')
    st.ghost['told'] = False
    M.install(ex, st)
    notifications(ex, P, mgr)
    install_queue(ex, exp)

    def self_(ex, st, c):
        sret, a = this_ret(c)
        p = ex.resolve_sym(st, a[0])
        if not (isinstance(p, Ptr) and p.obj == t.id):
            raise Unsupported('shared_from_this')
        shared.put(ex, st, sret, Ptr(t.id, 0))
    ex.handlers['std::enable_shared_from_this::shared_from_this'] = self_
    ex.assumptions.add('timers are owned by shared pointers (they are made by create)')
    # the fields are also stable under the timer's own lock alone
    h0 = ex.handlers['std::recursive_mutex::lock']

    def lock(ex, st, c):
        k = conc.lock_key(ex, st, c.args[0])
        if k == M.own and oslock.depth(st, k) == 0 and not M.held(st):
            M.havoc(ex, st)
            M.arrive(ex, st)
            st.ghost[('last', M.name)] = M.view(ex, st)
        return h0(ex, st, c)
    ex.handlers['std::recursive_mutex::lock'] = lock
    return st, t, tt, mgr, M, signed


def view0(M, s, tt):
    a, b = s.ghost.get(('snap', M.name)), s.ghost[('last', M.name)]
    return a, b


def operation(P, name, post):
    def body(ex):
        st, t, tt, mgr, M, signed = setup(ex, P)
        c0 = st.ghost['clock']
        cov = {'stopped before': False, 'running before': False}
        for s, k, v in ex.run_function(st, ex.get(T + name), [Ptr(t.id, 0)]):
            ex.oblige(s, name + ' does not throw', k == 'ret', where='exit')
            if k != 'ret':
                continue
            oslock.balanced(ex, s)
            a, b = view0(M, s, tt)
            if a is None:
                ex.oblige(s, name + ' looks at the queue', False, where='exit')
                continue
            was = a['queue'].has(tt)
            cov['running before'] |= ex.reachable(s, was)
            cov['stopped before'] |= ex.reachable(s, z3.Not(was))
            fresh_exp = z3.If(ex.tf['tm_ttype'] == P.consts['val_tm_rel'], zi(s.ghost['clock']) + ex.tf['tm_interval'] * MS, signed(a['expire']))
            for nm, g in post(dict(a=a, b=b, was=was, now=b['queue'].has(tt), e0=signed(a['expire']), e1=signed(b['expire']), fresh=fresh_exp, told=z3.BoolVal(s.ghost['told']))):
                ex.oblige(s, nm, g, where='exit')
        return cov
    return P.fn('co_timer::' + name, body)


def ops(P):
    operation(P, 'start', lambda d: [
        ('a started timer is queued', d['now']),
        ('a timer is started with a fresh expiry time', z3.Implies(z3.Not(d['was']), d['e1'] == d['fresh'])),
        ('starting a running timer changes nothing', z3.Implies(d['was'], d['e1'] == d['e0'])),
        ('the timer service is told about a new timer', z3.Implies(z3.Not(d['was']), d['told']))])
    operation(P, 'stop', lambda d: [
        ('a stopped timer is not queued', z3.Not(d['now']))])
    operation(P, 'reset', lambda d: [
        ('a reset timer is queued', d['now']),
        ('a timer is reset to a fresh expiry time', d['e1'] == d['fresh']),
        ('the timer service is told about a new timer', d['told'])])


def query(P, name, goal):
    def body(ex):
        st, t, tt, mgr, M, signed = setup(ex, P)
        cov = {'returns': False}
        for s, k, v in ex.run_function(st, ex.get(T + name), [Ptr(t.id, 0)]):
            ex.oblige(s, name + ' does not throw', k == 'ret', where='exit')
            if k != 'ret':
                continue
            oslock.balanced(ex, s)
            cov['returns'] = True
            b = s.ghost[('last', M.name)]
            if isinstance(v, list):
                v = v[0]
            ex.oblige(s, goal[0], goal[1](ex, s, v, b, signed), where='exit')
        return cov
    return P.fn('co_timer::' + name, body)


def queries(P):
    query(P, 'is_expired', ('a timer is expired exactly when its time is reached', lambda ex, s, v, b, sg: zb(v) == (zi(s.ghost['clock']) >= sg(b['expire']))))
    query(P, 'expire_time', ('the expiry time is reported', lambda ex, s, v, b, sg: sg(zi(v)) == sg(b['expire'])))
    query(P, 'is_running', ('a timer is reported as running exactly if it is', lambda ex, s, v, b, sg: zb(v) == (zi(b['status']) == P.consts['val_tm_running'])))
    query(P, 'expire_type', ('the kind of timer is reported', lambda ex, s, v, b, sg: zi(v) == ex.tf['tm_etype']))


def order(P):
    """the order of the queue: by expiry time, and no two timers are the same to it"""
    def body(ex):
        st = conc.initial(ex)
        oslock.install(ex)
        shared.install(ex)
        ts = []
        for i in range(3):
            o = ex.new_obj(st, 'shared timer %d' % i, P.size('timer'), 'param')
            h, e = fresh_int('handle'), fresh_int('expire')
            st.assume(z3.And(h >= 0, h < 2 ** 64, e >= 0, e < 2 ** 63))
            st.cells(o.id, True)[P.off('tm_handle')] = (8, h)
            st.cells(o.id, True)[P.off('tm_expire')] = (8, e)
            p = ex.new_obj(st, 'pointer %d' % i, 16, 'param')
            shared.put(ex, st, Ptr(p.id, 0), Ptr(o.id, 0))
            ts.append((p, h, e))
        st.assume(z3.Distinct([h for p, h, e in ts]))
        cmp_ = ex.new_obj(st, 'order', 8, 'param')
        fn = ex.get('timer_order')

        def less(st, i, j):
            out = []
            for s, k, v in ex.run_function(st, fn, [Ptr(cmp_.id, 0), Ptr(ts[i][0].id, 0), Ptr(ts[j][0].id, 0)]):
                ex.oblige(s, 'comparing timers does not throw', k == 'ret', where='exit')
                out.append((s, zb(v)))
            return out
        n = 0
        for s1, ab in less(st, 0, 1):
            ex.oblige(s1, 'timers are ordered by expiry time', z3.And(z3.Implies(ts[0][2] < ts[1][2], ab), z3.Implies(ts[0][2] > ts[1][2], z3.Not(ab))), where='exit')
            for s2, ba in less(s1, 1, 0):
                ex.oblige(s2, 'different timers have different places in the queue', ab != ba, where='exit')
            for s2, bc in less(s1, 1, 2):
                for s3, ac in less(s2, 0, 2):
                    ex.oblige(s3, 'the order of timers is transitive', z3.Implies(z3.And(ab, bc), ac), where='exit')
                    n += 1
        for s1, aa in less(st, 0, 0):
            ex.oblige(s1, 'a timer is not before itself', z3.Not(aa), where='exit')
        return {'compared': n > 0}
    return P.fn('order of the timer queue', body)


def construct(P):
    def body(ex):
        st = conc.initial(ex)
        oslock.install(ex)
        shared.install(ex)
        maps.functions(ex, None)
        f = ex.new_obj(st, 'callback', 32, 'param')
        cb = fresh_int('callback')
        stl.put(ex, st, Ptr(f.id, 0), maps.Obj(cb), raw=True)
        cov = {'relative': False, 'absolute': False}
        fns = [n for n in ex.find(T + 'co_timer')]
        handles = []
        o = [ex.new_obj(st, 'shared timer %d' % i, P.size('timer'), 'param') for i in (0, 1)]
        for fn in fns:
            np = len(ex.funcs[fn].parse().params)
            if np not in (3, 4):
                raise Unsupported('constructor of timers')
            iv, ty, tp = fresh_int('interval'), fresh_int('type'), fresh_int('time')
            st.assume(z3.And(iv >= 0, iv < 2 ** 64, z3.Or(ty == P.consts['val_tm_once'], ty == P.consts['val_tm_loop']), tp >= 0, tp < 2 ** 63))
            args = lambda i: [Ptr(o[i].id, 0), Ptr(f.id, 0)] + ([ty, iv] if np == 4 else [tp])
            for s1, k1, v1 in ex.run_function(st, fn, args(0)):
                for s, k, v in ex.run_function(s1, fn, args(1)):
                    ex.oblige(s, 'making a timer does not throw', z3.BoolVal(k1 == 'ret' and k == 'ret'), where='exit')
                    if k1 != 'ret' or k != 'ret':
                        continue
                    g = lambda i, n: zi(ex.load(s, Ptr(o[i].id, P.off(n)), ('int', 64 if n in ('tm_handle', 'tm_interval', 'tm_expire') else 32), ex.mods[0]))
                    ex.oblige(s, 'different timers have different handles', g(0, 'tm_handle') != g(1, 'tm_handle'), where='exit')
                    ex.oblige(s, 'a new timer is stopped', g(0, 'tm_status') == P.consts['val_tm_stopped'], where='exit')
                    ex.oblige(s, 'a new timer has its callback', zi(maps.obj_at(ex, s, Ptr(o[0].id, P.off('tm_cb'))).t) == cb, where='exit')
                    if np == 4:
                        ex.oblige(s, 'a new timer has its kind and interval', z3.And(g(0, 'tm_etype') == ty, g(0, 'tm_ttype') == P.consts['val_tm_rel'], g(0, 'tm_interval') == iv), where='exit')
                        cov['relative'] = True
                    else:
                        ex.oblige(s, 'a new timer has its expiry time', z3.And(g(0, 'tm_etype') == P.consts['val_tm_once'], g(0, 'tm_ttype') == P.consts['val_tm_abs'], g(0, 'tm_expire') == tp), where='exit')
                        cov['absolute'] = True
        return cov
    return P.fn('co_timer (constructors)', body)


def fire(P):
    def body(ex):
        st, t, tt, mgr, M, signed = setup(ex, P)
        st.ghost['calls'] = 0

        def call(ex, st, c, f):
            ex.oblige(st, 'the callback of the timer is called', zi(f) == cb)
            st.ghost['calls'] = simp(zi(st.ghost['calls']) + 1)
        maps.functions(ex, call)
        cb = fresh_int('callback')
        st.assume(cb >= 0)
        stl.put(ex, st, Ptr(t.id, P.off('tm_cb')), maps.Obj(cb), raw=True)
        cov = {'callback': False, 'no callback': False}
        for s, k, v in ex.run_function(st, ex.get(T + 'run'), [Ptr(t.id, 0)]):
            ex.oblige(s, 'firing a timer does not throw', k == 'ret', where='exit')
            if k != 'ret':
                continue
            oslock.balanced(ex, s)
            ex.oblige(s, 'a timer that fires calls its callback once', zi(s.ghost['calls']) == z3.If(cb != 0, 1, 0), where='exit')
            cov['callback'] |= ex.reachable(s, cb != 0)
            cov['no callback'] |= ex.reachable(s, cb == 0)
        return cov
    return P.fn('co_timer::run', body)


typ = z3.Function('kind of timer', z3.IntSort(), z3.IntSort())
itv = z3.Function('interval of timer', z3.IntSort(), z3.IntSort())


def service(P):
    def body(ex):
        oslock.install(ex)
        shared.install(ex)
        st = conc.initial(ex)
        mgr = ex.new_obj(st, 'manager', P.size('tm_mgr'), 'param')
        mp = Ptr(mgr.id, 0)
        lockp = Ptr(mgr.id, P.off('tm_qmu'))
        key = (mgr.id, P.off('tm_qmu'))
        manager(ex, mgr)
        prio.strings(ex)
        M = Monitor('timer queue', mgr, P.off('tm_qmu'), [Field('queue', P.off('tm_queue'), 48, 'timers', mk=fresh), Field('clean', P.off('tm_clean'), 1, 'bool')],
                    inv=lambda v: [], kind='os')

        def leave(ex, st, a, b):
            ex.oblige(st, 'a timer that fired leaves the queue or is queued anew before others see the queue', zi(st.ghost['fired']) == 0)
        M.on_release = leave
        st.ghost.update({'fired': 0, 'taken': 0, 'requeued': False, 'told': False, 'fires': 0})
        M.install(ex, st)
        notifications(ex, P, mgr)
        install_queue(ex, lambda st, t: raise_('another timer operation'))

        def raise_(m):
            raise Unsupported(m)

        def q(st):
            return M.view(ex, st)['queue']

        def setq(st, v):
            st.cells(mgr.id, True)[P.off('tm_queue')] = (None, v)

        def me(ex, st, c):
            return ex.pterm(st, this_ret(c)[1][0])

        def in_lock(f):
            def h(ex, st, c):
                if oslock.acquire(ex, st, lockp) is END:
                    return END
                r = f(ex, st, c)
                if oslock.release(ex, st, lockp) is END:
                    return END
                return r
            return h

        def clock(st):
            t = fresh_int('now')
            st.assume(z3.And(t >= st.ghost['clock'], t < 2 ** 62))
            st.ghost['clock'] = t
            return t

        def expired(ex, st, c):
            t = me(ex, st, c)
            return z3.If(q(st).has(t), clock(st) >= q(st).due(t), fresh_bool('expired'))

        def expire_time(ex, st, c):
            t = me(ex, st, c)
            x = fresh_int('time')
            st.assume(z3.And(x >= 0, x < 2 ** 63))
            st.assume(z3.Implies(q(st).has(t), x == q(st).due(t)))
            sret, a = this_ret(c)
            if sret is not None:
                ex.store(st, sret, x, ('int', 64), ex.mods[0])
                return None
            return x

        def take(ex, st, t, requeued):
            """t leaves the queue, or is queued anew, because it fires (or has just been fired)"""
            v = q(st)
            done = zi(st.ghost['fired']) == t
            for nm, g in first(st, v, t):
                ex.oblige(st, nm, z3.Or(done, g))
            ex.oblige(st, 'a timer that was taken fires before the next', z3.Or(done, zi(st.ghost['taken']) == 0))
            kind(ex, st, t, requeued, done)
            st.ghost['taken'] = simp(z3.If(done, zi(st.ghost['taken']), t))
            st.ghost['fired'] = simp(z3.If(done, 0, zi(st.ghost['fired'])))
            st.ghost['requeued'] = requeued

        def first(st, v, t):
            return [('only a queued timer fires', v.has(t)), ('only a timer whose time is reached fires', zi(st.ghost['clock']) >= v.due(t)), ('the earliest timer fires first', v.earliest(t))]

        def kind(ex, st, t, requeued, cond):
            ex.oblige(st, 'a timer stays queued exactly if it is periodic', z3.Implies(cond, zb(requeued) == (typ(t) == P.consts['val_tm_loop'])))

        def again(st, t):
            v = q(st)
            setq(st, facts(st, Queue(z3.Store(v.arr, t, z3.BoolVal(True)), z3.Store(v.key, t, clock(st) + itv(t) * MS), simp(z3.If(v.has(t), zi(v.n), zi(v.n) + 1)))))

        def stop(ex, st, c):
            t = me(ex, st, c)
            take(ex, st, t, False)
            setq(st, without(st, q(st), t))

        def reset(ex, st, c):
            t = me(ex, st, c)
            take(ex, st, t, True)
            again(st, t)

        def start(ex, st, c):
            t = me(ex, st, c)
            ex.oblige(st, 'only a periodic timer is started by the service', zi(st.ghost['taken']) == t)
            again(st, t)
            st.ghost['requeued'] = True
        H = ex.handlers
        H[T + 'is_expired'] = in_lock(expired)
        H[T + 'expire_time'] = in_lock(expire_time)

        def expire_type(ex, st, c):
            t = typ(me(ex, st, c))
            st.assume(z3.Or(t == P.consts['val_tm_once'], t == P.consts['val_tm_loop']))
            return t
        H[T + 'expire_type'] = expire_type
        H[T + 'stop'], H[T + 'reset'], H[T + 'start'] = in_lock(stop), in_lock(reset), in_lock(start)

        def run_(ex, st, c):
            """the callback runs, on a coroutine of its own or right here"""
            t = me(ex, st, c)
            st.ghost['fires'] = simp(zi(st.ghost['fires']) + 1)
            got = zi(st.ghost['taken']) == t
            kind(ex, st, t, st.ghost['requeued'], got)
            if M.held(st):
                for nm, g in first(st, q(st), t):
                    ex.oblige(st, nm, z3.Or(got, g))
                ex.oblige(st, 'a timer fires once', z3.Or(got, zi(st.ghost['fired']) == 0))
                st.ghost['fired'] = simp(z3.If(got, zi(st.ghost['fired']), t))
            else:
                ex.oblige(st, 'only a timer taken from the queue fires, and it fires once', got)
            st.ghost['taken'] = simp(z3.If(got, 0, zi(st.ghost['taken'])))
        H[T + 'run'] = run_

        def create(ex, st, c):
            f = ex.resolve_sym(st, c.args[2])
            inv = ex.load(st, ex.padd(f, 24), ('ptr',), ex.mods[0])
            if not isinstance(inv, Fn):
                raise Unsupported('what is scheduled')
            any_ = ex.new_obj(st, 'result', 64, 'heap')
            ctx = fresh_int('ctx')
            st.assume(ctx > 0)

            def done(ex, s, kind, v, sink, work):
                if kind == 'throw':
                    ex.oblige(s, 'the code that fires a timer does not throw', False)
                    return END
                return ex.finish_call(s, Sym(ctx, 0, 'ctx'), sink, work)
            return ex.call_closure(st, inv.name, [f, Ptr(any_.id, 0)], done)
        H['cocpp::co_manager::create_and_schedule_ctx'] = create
        H['cocpp::co_ctx_config::co_ctx_config'] = H['cocpp::co_ctx_config::~co_ctx_config'] = lambda ex, st, c: None

        def wait(ex, st, c):
            p = ex.resolve_sym(st, c.args[0])
            if not (isinstance(p, Ptr) and (p.obj, p.off) == (mgr.id, P.off('tm_qcv'))):
                raise Unsupported('unknown condition variable')
            l = ex.resolve_sym(st, c.args[1])
            mu = ex.resolve_sym(st, ex.load(st, l, ('ptr',), ex.mods[0]))
            ex.oblige(st, 'the service waits with the lock of the queue, which it holds once', z3.BoolVal(conc.lock_key(ex, st, mu) == key and oslock.depth(st, key) == 1))
            v = q(st)
            ex.oblige(st, 'a timer that was taken fires before the service waits', zi(st.ghost['taken']) == 0)
            if len(c.args) == 2:
                ex.oblige(st, 'the service waits without limit only if no timer is queued', zi(v.n) == 0)
            elif c.q.endswith('wait_until') and len(c.args) == 3:
                d = zi(ex.load(st, c.args[2], ('int', 64), ex.mods[0]))
                x = z3.Int('x!w')
                ex.oblige(st, 'the service waits no longer than to the earliest expiry time', z3.ForAll([x], z3.Implies(v.arr[x], d <= v.key[x]), patterns=[v.arr[x]]))
            else:
                raise Unsupported('kind of wait')
            if oslock.release(ex, st, lockp) is END:
                return END
            if oslock.acquire(ex, st, lockp) is END:
                return END
            st.ghost['clock'] = clock(st)
            if len(c.args) == 3:
                return fresh_int('status')
        for v in ('', '_V2::'):
            for w in ('wait', 'wait_until', 'wait_for'):
                H['std::%scondition_variable_any::%s' % (v, w)] = wait
        cov = {'returns': False, 'fires': False}
        for s, k, v in ex.run_function(st, ex.get('cocpp::co_manager::timer_routine__'), [mp]):
            ex.oblige(s, 'the timer service does not throw', k == 'ret', where='exit')
            if k != 'ret':
                continue
            oslock.balanced(ex, s)
            ex.oblige(s, 'a timer that was taken fires', zi(s.ghost['taken']) == 0, where='exit')
            cov['returns'] = True
            cov['fires'] |= ex.reachable(s, zi(s.ghost['fires']) > 0)
        return cov
    return P.fn('co_manager::timer_routine__', body)


def run(P):
    ops(P)
    queries(P)
    order(P)
    construct(P)
    fire(P)
    service(P)
