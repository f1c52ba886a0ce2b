"""Contracts for waiting for a coroutine.

FIN: the coroutine has finished; it becomes true once, under the lock of the finished state, and afterwards the coroutine
calls whoever subscribed.  A coroutine that waits continues when its last wait mark is removed, so everything that removes
marks runs while the wait lasts: the callback called on completion, the timer's callback, or both, in either order; the
second may come when the wait has returned, so it must not touch anything."""
import z3
from values import *
import conc, oslock, stl, shared
from conc import Monitor, Field
from execu import Results, NOVAL, END, INLINE, Throw, Exc

SRCS = ['core/co_env.cpp', 'core/co_ctx.cpp', 'core/co_return_value.cpp']
TUS = ['core.cpp', 'waitfor.cpp']
PT = ('ptr',)


class W:
    pass


class FMon(Monitor):
    """the lock of the finished state"""

    def acquire(self, ex, st):
        r = Monitor.acquire(self, ex, st)
        if r is not END:
            self.x.later(st)
        return r


def boxed(ex, st, f):
    """a copy of a callable that outlives the original"""
    f = ex.resolve_sym(st, f)
    o = ex.new_obj(st, 'callable', 32, 'heap')
    inv = ex.load(st, ex.padd(f, 24), PT, ex.mods[0])
    if not isinstance(inv, Fn):
        return None
    ex.memcpy(st, Ptr(o.id, 0), f, 32)
    return o.id, inv.name


def call(ex, st, b):
    """runs a callable to its end; the states it may end in"""
    out = []
    for s, k, v in ex.run_function(st, b[1], [Ptr(b[0], 0)]):
        if k != 'ret':
            ex.oblige(s, 'a callback does not throw', False)
        else:
            out.append(s)
    return out


def setup(ex, P):
    oslock.install(ex)
    shared.install(ex)
    st = conc.initial(ex)
    C = P.consts
    H = ex.handlers
    x = W()
    x.env = ex.new_obj(st, 'env', P.size('env'), 'param')
    x.t = ex.new_obj(st, 'coroutine', P.size('ctx'), 'param')
    x.tp = Ptr(x.t.id, 0)
    x.tt = ex.pterm(st, x.tp)
    x.idle = z3.Bool('outside of coroutines')
    st.ghost.update({'FIN': z3.Bool('finished0'), 'marks': (), 'subs': (), 'timer': None, 'prio': z3.Int('prio'), 'gone': False, 'over': False, 'sections': 0, 'expired': False, 'rethrown': 0})
    st.assume(z3.Implies(z3.Not(x.idle), z3.And(st.ghost['prio'] >= 0, st.ghost['prio'] < C['val_max_priority'])))
    st.assume(z3.Implies(x.idle, st.ghost['prio'] == C['val_idle_priority']))
    ex.store_cell(st, Ptr(x.env.id, P.off('env_curr')), Sym(z3.If(x.idle, 0, ex.me), 0, 'ctx'), 8)
    x.ret = ex.new_obj(st, 'returned value', P.size('any'), 'param')
    x.RET = z3.Int('RET')
    st.assume(x.RET >= 0)
    ex.store_cell(st, Ptr(x.ret.id, 0), Sym(x.RET, 0, 'value'), 8)

    def later(st):
        n = fresh_bool('finished')
        st.assume(z3.Implies(st.ghost['FIN'], n))
        st.ghost['FIN'] = n
    x.later = later
    x.F = FMon('finished', x.t, P.off('ctx_finish_lock'), [Field('exception', P.off('ctx_exception'), 8, 'ptr', 'exception')], inv=lambda v: [], kind='os')
    x.F.x = x
    x.F.install(ex, st)
    H['cocpp::co_recursive_mutex_with_count::lock'] = oslock.h_lock
    H['cocpp::co_recursive_mutex_with_count::unlock'] = oslock.h_unlock
    ex.bump_count = lambda st, p, d: None

    def touch(ex, st, p):
        """a use of the waiter or of the coroutine waited for"""
        t = ex.pterm(st, p)
        ex.oblige(st, 'nothing is touched once the wait may have returned', z3.Not(zb(st.ghost['gone'])))
        return t
    x.touch = touch

    def whose(ex, st, p):
        t = touch(ex, st, p)
        if not ex.implied(st.pc, t == ex.me):
            ex.oblige(st, 'only the waiter itself is marked, woken or given another priority', t == ex.me)
            st.assume(t == ex.me)

    def prio(ex, st, c):
        t = touch(ex, st, c.args[0])
        if ex.implied(st.pc, t == ex.me):
            return simp(zi(st.ghost['prio']) % 2 ** 64)
        v = fresh_int('priority')
        st.assume(z3.And(v >= 0, v < C['val_max_priority']))
        return v
    H['cocpp::co_ctx::priority'] = prio

    def set_prio(ex, st, c):
        whose(ex, st, c.args[0])
        v = zi(ex.signed(c.args[1], 32))
        m = C['val_max_priority']
        st.ghost['prio'] = simp(z3.If(x.idle, zi(st.ghost['prio']), z3.If(v >= m, m - 1, z3.If(v < 0, 0, v))))
    H['cocpp::co_ctx::set_priority'] = set_prio

    def state(ex, st, c):
        touch(ex, st, c.args[0])
        if not x.F.held(st):
            later(st)
        v = fresh_int('state')
        st.assume(z3.And(v >= 0, v < 256, (v == C['val_finished']) == st.ghost['FIN']))
        return v
    H['cocpp::co_ctx::state'] = state

    def enter(ex, st, c):
        whose(ex, st, c.args[0])
        st.ghost['marks'] += (ex.pterm(st, c.args[1]),)
    H['cocpp::co_ctx::enter_wait_resource_state'] = enter

    def leave(ex, st, c):
        whose(ex, st, c.args[0])
        r = ex.pterm(st, c.args[1])
        st.ghost['marks'] = tuple(m for m in st.ghost['marks'] if not ex.implied(st.pc, m == r))
        if not st.ghost['marks']:
            st.ghost['gone'] = True
    H['cocpp::co_ctx::leave_wait_resource_state'] = leave

    def of(ex, st, p):
        touch(ex, st, p)
        p = ex.resolve_sym(st, p)
        if not (isinstance(p, Ptr) and p.obj == x.t.id and p.off == P.off('ctx_finished')):
            raise Unsupported('another event')

    def sub(ex, st, c):
        sret, a = stl.this_ret(c)
        of(ex, st, a[0])
        ex.oblige(st, 'the waiter subscribes while the coroutine cannot finish unnoticed', z3.And(z3.BoolVal(x.F.held(st)), z3.Not(st.ghost['FIN'])))
        b = boxed(ex, st, a[1])
        if b is None:
            raise Unsupported('what is subscribed')
        h = fresh_int('handle')
        st.assume(z3.And(h >= 0, h < 2 ** 64))
        for n, _ in st.ghost['subs']:
            st.assume(n != h)
        st.ghost['subs'] += ((h, b),)
        return h
    H['cocpp::co_event::sub'] = sub

    def unsub(ex, st, c):
        of(ex, st, c.args[0])
        st.ghost['subs'] = tuple((h, b) for h, b in st.ghost['subs'] if not ex.implied(st.pc, h == zi(c.args[1])))
    H['cocpp::co_event::unsub'] = unsub

    def create(ex, st, c):
        sret, a = stl.this_ret(c)
        o = ex.new_obj(st, 'timer', 256, 'heap')
        if len(a) != 3 or st.ghost['timer']:
            raise Unsupported('kind of timer')
        ex.oblige(st, 'the timer expires once', zi(a[1]) == C['val_timer_once'])
        st.ghost['timer'] = {'o': o.id, 'cb': boxed(ex, st, a[0]) if a[0] is not NULL else None, 'ms': zi(a[2]), 'run': False}
        shared.put(ex, st, sret, Ptr(o.id, 0))
    H['cocpp::co_timer::create'] = create

    def my(ex, st, p):
        p = shared.settle(ex, st, ex.resolve_sym(st, p))
        t = st.ghost['timer']
        if not t or not (isinstance(p, Ptr) and p.obj == t['o']):
            raise Unsupported('another timer')
        return t

    def callback(ex, st, c):
        sret, a = stl.this_ret(c)
        t = my(ex, st, a[0])
        st.ghost['timer'] = dict(t, cb=boxed(ex, st, a[1]))
        ex.memset(st, sret, 0, 32)
    H['cocpp::co_timer::set_expire_callback'] = callback

    def start(ex, st, c):
        t = my(ex, st, c.args[0])
        ex.oblige(st, 'the timer is started when it can do its work', z3.BoolVal(bool(t['cb'] and st.ghost['marks'])))
        st.ghost['timer'] = dict(t, run=True)
    H['cocpp::co_timer::start'] = start

    def stop(ex, st, c):
        st.ghost['timer'] = dict(my(ex, st, c.args[0]), run=False)
    H['cocpp::co_timer::stop'] = stop

    def done(ex, s):
        """the coroutine finishes and calls whoever subscribed"""
        s.ghost['FIN'] = z3.BoolVal(True)
        out = [s]
        for h, b in s.ghost['subs']:
            out = [r for q in out for r in (call(ex, q, b) if any(g is h for g, _ in q.ghost['subs']) else [q])]
        for q in out:
            q.ghost['called'] = True
        return out

    def expire(ex, s):
        s.ghost['timer'] = dict(s.ghost['timer'], run=False)
        s.ghost['expired'] = True
        return call(ex, s, s.ghost['timer']['cb'])

    def switch(ex, st, c):
        ex.oblige(st, 'no lock is held while waiting', z3.BoolVal(not st.ghost['held']))
        if not st.ghost['marks']:
            later(st)
            return None
        ex.oblige(st, 'whoever waits is woken by the completion', z3.BoolVal(bool(st.ghost['subs'])))
        timed = bool(st.ghost['timer'] and st.ghost['timer']['run'])
        st.ghost['gone'] = False
        ends = []
        fin = lambda q: done(ex, q)
        exp = lambda q: expire(ex, q)
        # the expiry may be under way when the completion stops the timer, not the other way round: what is unsubscribed is not called
        for order in [(fin,)] + ([(exp,), (exp, fin), (fin, exp)] if timed else []):
            out = [st.fork()]
            for f in order:
                out = [r for q in out for r in f(q)]
                for q in out:
                    if f is order[0]:
                        ex.oblige(q, 'completion or expiry ends the wait', z3.BoolVal(not q.ghost['marks']))
            ends += out
        for q in ends:
            q.ghost['gone'] = False
            q.ghost['marks'] = ()
            later(q)
        return Results([(q, NOVAL) for q in ends])
    H['cocpp::co_env::schedule_switch'] = switch

    def rethrow(ex, st, c):
        touch(ex, st, c.args[0])
        ex.oblige(st, 'the error of a coroutine is asked for when it has finished', st.ghost['FIN'])
        st.ghost['rethrown'] += 1
        s2 = st.fork()
        s2.ghost['threw'] = True
        return Results([(st, NOVAL), (s2, Throw(Exc('_ZTISt9exception')))])
    H['cocpp::co_ctx::check_and_rethrow_exception'] = rethrow

    def ret_ref(ex, st, c):
        touch(ex, st, c.args[0])
        ex.oblige(st, 'the result of a coroutine is taken when it has finished', st.ghost['FIN'])
        return Ptr(x.ret.id, 0)
    H['cocpp::co_ctx::ret_ref'] = ret_ref
    ex.assumptions.add('a coroutine that waits continues when its last wait mark is removed (shown for the scheduler), and whoever subscribed to the end of a coroutine is called after it (shown for the event and the entry function)')
    ex.assumptions.add('an event calls nobody who has unsubscribed; the handle of a coroutine is not given up while somebody waits with it')
    return st, x


def common(ex, s, x, k, old, cov):
    oslock.balanced(ex, s)
    ex.oblige(s, 'the waiter keeps its own priority', zi(s.ghost['prio']) == old, where='exit')
    if k != 'ret':
        ex.oblige(s, 'waiting throws what the coroutine ended with', z3.BoolVal(bool(s.ghost.get('threw'))), where='exit')
        cov['error'] = cov['error'] or bool(s.ghost.get('threw'))


def value_of(ex, s, P, r):
    return zi(ex.pterm(s, ex.load(s, ex.padd(r, P.off('retval_any')), PT, ex.mods[0])))


def untimed(P):
    def body(ex):
        st, x = setup(ex, P)
        old = st.ghost['prio']
        f0 = st.ghost['FIN']
        r = ex.new_obj(st, 'result', P.size('retval'), 'param')
        cov = {'result': False, 'error': False, 'waited': False, 'at once': False}
        for s, k, v in ex.run_function(st, overload(ex, P, 2), [Ptr(r.id, 0), Ptr(x.env.id, 0), x.tp]):
            common(ex, s, x, k, old, cov)
            if k != 'ret':
                continue
            ex.oblige(s, 'waiting returns after the coroutine has finished', s.ghost['FIN'], where='exit')
            ex.oblige(s, 'an error is asked for once', z3.BoolVal(s.ghost['rethrown'] == 1), where='exit')
            ex.oblige(s, 'the waiter receives what the coroutine returned', value_of(ex, s, P, Ptr(r.id, 0)) == x.RET, where='exit')
            cov['result'] = True
            cov['waited'] = cov['waited'] or bool(s.ghost.get('called'))
            cov['at once'] = cov['at once'] or not s.ghost.get('called')
        return cov
    return P.fn('co_env::wait_ctx', body)


def overload(ex, P, n):
    fs = [f for f in ex.find('cocpp::co_env::wait_ctx') if ('nanoseconds' in demangled(f) or 'duration' in demangled(f)) == (n == 3)]
    if len(fs) != 1:
        raise Unsupported('wait_ctx')
    return fs[0]


def demangled(n):
    from llparse import demangle
    return demangle(n)


def timed(P):
    def body(ex):
        st, x = setup(ex, P)
        old = st.ghost['prio']
        r = ex.new_obj(st, 'result', P.size('optret'), 'param')
        d = ex.new_obj(st, 'limit', 8, 'param')
        ns = z3.Int('ns')
        st.assume(z3.And(ns >= -2 ** 63, ns < 2 ** 63))
        ex.store_cell(st, Ptr(d.id, 0), simp(ns % 2 ** 64), 8)
        cov = {'result': False, 'no result': False, 'error': False}
        for s, k, v in ex.run_function(st, overload(ex, P, 3), [Ptr(r.id, 0), Ptr(x.env.id, 0), x.tp, Ptr(d.id, 0)]):
            common(ex, s, x, k, old, cov)
            if s.ghost['timer']:
                ms = zi(ex.signed(simp(s.ghost['timer']['ms']), 64))
                ex.oblige(s, 'the wait lasts as long as asked for, to the millisecond', z3.And(ms * 1000000 <= z3.If(ns < 0, 0, ns) , ns < (ms + 1) * 1000000), where='exit')
            if k != 'ret':
                continue
            has = [v for _, _, v in ex.run_function(s.fork(), ex.get('vf_has_result'), [Ptr(r.id, 0)])]
            val = [v for _, _, v in ex.run_function(s.fork(), ex.get('vf_result'), [Ptr(r.id, 0)])]
            if len(has) != 1 or len(val) != 1:
                raise Unsupported('what is returned')
            has = zb(has[0])
            ex.oblige(s, 'a timed wait reports a result exactly if the coroutine has finished', has == s.ghost['FIN'], where='exit')
            ex.oblige(s, 'a timed wait returns empty-handed only when its time is over', z3.Or(has, z3.BoolVal(s.ghost['expired'])), where='exit')
            ex.oblige(s, 'an error is asked for exactly with the result', z3.If(has, 1, 0) == s.ghost['rethrown'], where='exit')
            if ex.reachable(s, has):
                s1 = s.fork()
                s1.assume(has)
                ex.oblige(s1, 'the waiter receives what the coroutine returned', value_of(ex, s1, P, val[0]) == x.RET, where='exit')
                cov['result'] = True
            cov['no result'] = cov['no result'] or ex.reachable(s, z3.Not(has))
        return cov
    return P.fn('co_env::wait_ctx (timed)', body)


def itself(P, n):
    def body(ex):
        st, x = setup(ex, P)
        st.ghost['FIN'] = z3.BoolVal(False)
        ex.store_cell(st, Ptr(x.env.id, P.off('env_curr')), x.tp, 8)
        ex.handlers['cocpp::co_env::current_ctx'] = lambda ex, st, c: x.tp
        ex.me = x.tt
        r = ex.new_obj(st, 'result', P.size('optret'), 'param')
        d = ex.new_obj(st, 'limit', 8, 'param')
        ex.store_cell(st, Ptr(d.id, 0), z3.Int('ns'), 8)
        st.assume(z3.And(z3.Int('ns') >= 0, z3.Int('ns') < 2 ** 63))
        cov = {'refused': False}
        for s, k, v in ex.run_function(st, overload(ex, P, n), [Ptr(r.id, 0), Ptr(x.env.id, 0), x.tp, Ptr(d.id, 0)][:n + 1]):
            ex.oblige(s, 'a wait for itself is refused', z3.BoolVal(k == 'throw' and not s.ghost['marks'] and not s.ghost['subs']), where='exit')
            ex.oblige(s, 'the waiter keeps its own priority', zi(s.ghost['prio']) == st.ghost['prio'], where='exit')
            oslock.balanced(ex, s)
            cov['refused'] = True
        return cov
    return P.fn('co_env::wait_ctx%s on itself' % (' (timed)' if n == 3 else ''), body)


def error(P):
    """the stored error: taken out under the lock, delivered once"""
    def body(ex):
        st, x = setup(ex, P)
        ex.handlers.pop('cocpp::co_ctx::check_and_rethrow_exception')
        E = z3.Int('error')
        st.assume(E > 0)
        st.ghost['took'] = 0
        cell = lambda s: ex.pterm(s, st_cell(ex, s, x, P))

        def acq(ex, st):
            # the coroutine has finished: from now on the error is there, or somebody else has received it
            v = x.F.view(ex, st)['exception']
            st.assume(z3.Or(v == 0, v == E))
            st.ghost['found'] = v
        base = x.F.acquire
        x.F.acquire = lambda ex, st: END if base(ex, st) is END else acq(ex, st)

        def rel(ex, st, a, b):
            ex.oblige(st, 'an error is only taken, never put back', z3.Or(b['exception'] == a['exception'], b['exception'] == 0))
            st.ghost['took'] = simp(zi(st.ghost['took']) + z3.If(z3.And(a['exception'] != 0, b['exception'] == 0), 1, 0))
        x.F.on_release = rel

        def thrown(ex, st, p):
            ex.oblige(st, 'what is thrown is the error the coroutine ended with', ex.pterm(st, p) == E)
            st.ghost['rethrown'] += 1
            return Throw(Exc('_ZTISt9exception'))
        ex.stored_exception = thrown
        cov = {'error': False, 'none': False}
        for s, k, v in ex.run_function(st, ex.get('cocpp::co_ctx::check_and_rethrow_exception'), [x.tp]):
            oslock.balanced(ex, s)
            ex.oblige(s, 'an error is thrown exactly by the one who takes it', zi(s.ghost['took']) == s.ghost['rethrown'], where='exit')
            ex.oblige(s, 'nothing else is thrown', z3.BoolVal((k == 'throw') == (s.ghost['rethrown'] == 1)), where='exit')
            ex.oblige(s, 'an error that is there is delivered', z3.Implies(zi(s.ghost.get('found', -1)) != 0, z3.BoolVal(k == 'throw')), where='exit')
            cov['error' if k == 'throw' else 'none'] = True
        return cov
    return P.fn('co_ctx::check_and_rethrow_exception', body)


def entry(P):
    """the entry function of every coroutine"""
    def body(ex):
        st, x = setup(ex, P)
        H = ex.handlers
        ex.monitors.pop(x.F.key)
        ex.protected.pop(x.t.id)
        st.ghost.update({'FIN': z3.BoolVal(False), 'ran': 0, 'exc': None, 'published': 0})
        ex.store_cell(st, Ptr(x.t.id, P.off('ctx_exception')), NULL, 8)
        fk = (x.t.id, P.off('ctx_finish_lock'))
        H['cocpp::co_ctx::ret_ref'] = lambda ex, st, c: Ptr(x.ret.id, 0)
        f = ex.new_obj(st, 'function', 32, 'param')
        H['cocpp::co_ctx::entry'] = lambda ex, st, c: Ptr(f.id, 0)

        def run_(ex, st, c):
            p = ex.resolve_sym(st, c.args[1])
            ex.oblige(st, 'the function of the coroutine stores its result in the coroutine', z3.BoolVal(isinstance(p, Ptr) and p.obj == x.ret.id))
            st.ghost['ran'] += 1
            s2 = st.fork()
            o = ex.new_obj(s2, 'exc', 64, 'heap')
            e = Exc('_ZTIi', Ptr(o.id, 0))
            s2.ghost['exc:%d' % o.id] = e
            s2.ghost['exc'] = o.id
            return Results([(st, NOVAL), (s2, Throw(e))])
        H['std::function::operator()'] = run_
        H['std::function::~function'] = lambda ex, st, c: None

        def set_state(ex, st, c):
            v = c.args[1]
            v = zi(v if is_num(v) or isinstance(v, z3.ExprRef) else ex.load(st, v, ('int', 8), ex.mods[0]))
            is_fin = v == P.consts['val_finished']
            ex.oblige(st, 'a coroutine counts as finished only when its function is over', z3.Implies(is_fin, z3.BoolVal(st.ghost['ran'] == 1)))
            ex.oblige(st, 'a coroutine becomes finished under the lock of its finished state', z3.Implies(is_fin, z3.BoolVal(oslock.depth(st, fk) > 0)))
            q = ex.load(st, Ptr(x.t.id, P.off('ctx_exception')), PT, ex.mods[0])
            want = st.ghost['exc']
            ok = (q.obj == want) if isinstance(q, Ptr) and want is not None else (want is None and ex.implied(st.pc, ex.pterm(st, q) == 0))
            ex.oblige(st, 'the error a coroutine ended with is kept before it counts as finished', z3.Implies(is_fin, z3.BoolVal(bool(ok))))
            st.ghost['FIN'] = simp(z3.Or(st.ghost['FIN'], is_fin))
        H['cocpp::co_ctx::set_state'] = set_state

        def pub(ex, st, c):
            p = ex.resolve_sym(st, c.args[0])
            if not (isinstance(p, Ptr) and p.obj == x.t.id and p.off == P.off('ctx_finished')):
                raise Unsupported('another event')
            ex.oblige(st, 'completion is announced after it happened, without the lock', z3.And(st.ghost['FIN'], z3.BoolVal(oslock.depth(st, fk) == 0)))
            st.ghost['published'] += 1
        H['cocpp::co_event::pub'] = pub
        H['cocpp::co_ctx::env'] = lambda ex, st, c: Ptr(x.env.id, 0)
        cov = {'returned': False, 'threw': False}

        def switch(ex, st, c):
            ex.oblige(st, 'a coroutine gives control away when it has finished and announced it once', z3.And(st.ghost['FIN'], z3.BoolVal(st.ghost['published'] == 1)))
            cov['threw' if st.ghost['exc'] is not None else 'returned'] = True
            return END
        H['cocpp::co_env::schedule_switch'] = switch
        for s, k, v in ex.run_function(st, ex.get('cocpp::co_ctx::real_entry'), [x.tp]):
            ex.oblige(s, 'the entry function does not come back', False, where='exit')
        return cov
    return P.fn('co_ctx::real_entry', body)


def run(P):
    untimed(P)
    timed(P)
    itself(P, 2)
    itself(P, 3)
    error(P)
    entry(P)
