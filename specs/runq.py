"""Contracts of an environment's run queues and of the choice of the next coroutine.

L: the queues, one per priority, and the number of coroutines, under the queue lock; M: the lowest priority number worth
looking at, under its lock.  PR, R and MV: priority, runnability and movability of a coroutine as the operation sees it.
Nobody is queued twice; everybody is filed under their priority unless a change of it is being announced; nobody
runnable is filed below M, unless about to be announced."""
import z3, re
from values import *
import conc, oslock, stl
from conc import Monitor, Field
from execu import Results, NOVAL, END, INLINE

SRCS = ['core/co_env.cpp', 'core/co_ctx.cpp']
TUS = ['core.cpp']


class Q:
    pass


def every(v, f):
    """for every queued coroutine c, filed under p at position k"""
    p, k = z3.Ints('p!q k!q')
    e = v.arr[p][k]
    return z3.ForAll([p, k], z3.Implies(z3.And(0 <= p, p < v.n, v.lo[p] <= k, k < v.hi[p]), f(p, k, e)), patterns=[e])


class LMon(Monitor):
    def acquire(self, ex, st):
        r = Monitor.acquire(self, ex, st)
        if r is not END:
            st.ghost['reach'] = False
            self.x.met(ex, st)
        return r

    def release(self, ex, st, what='release'):
        if self.held(st):
            st.ghost['told'] = False
            if self.x.M.held(st):
                self.x.narrowed(ex, st)
            st.ghost['sched_at'] = st.ghost['sched_acq']
            st.ghost['sched_held'] = oslock.depth(st, self.x.sk) > 0
        return Monitor.release(self, ex, st, what)


class MMon(Monitor):
    def acquire(self, ex, st):
        r = Monitor.acquire(self, ex, st)
        if r is not END:
            st.ghost['narrowed'] = None
            self.x.met(ex, st)
        return r

    def release(self, ex, st, what='release'):
        if self.held(st):
            x = self.x
            b = self.view(ex, st)['min']
            if x.L.held(st):
                x.narrowed(ex, st)
            else:
                a = st.ghost[('snap', 'min')]['min']
                if st.ghost['narrowed'] is not None:
                    a = st.ghost['narrowed']
                ex.oblige(st, 'the scheduler\'s search is narrowed only while looking at the queues', zi(b) <= zi(a))
            if x.subject is not None:
                st.ghost['reach'] = simp(z3.Or(zb(st.ghost['reach']), zi(b) <= x.PR[x.subject]))
        return Monitor.release(self, ex, st, what)


def setup(ex, P, subject=None, pre=None, changing=False):
    oslock.install(ex)
    st = conc.initial(ex)
    C = P.consts
    st.ghost.update({'told': False, 'reach': False, 'sched_acq': 0, 'sched_at': 0, 'narrowed': None, 'destroyed': (), 'observed': 0})
    x = Q()
    x.C, x.P = C, P
    x.state = z3.Int('state')
    st.assume(z3.And(x.state >= 0, x.state < 256))
    x.n = n = C['val_max_priority']
    x.env = e = ex.new_obj(st, 'env', P.size('env'), 'param')
    x.subject = subject
    ba = lambda nm: z3.Const(nm, z3.ArraySort(z3.IntSort(), z3.BoolSort()))
    ia = lambda nm: z3.Const(nm, z3.ArraySort(z3.IntSort(), z3.IntSort()))
    x.PR, x.R, x.MV = ia('PR'), ba('R'), ba('MV')
    c = z3.Int('c!pr')
    st.assume(z3.ForAll([c], z3.And(x.PR[c] >= 0, x.PR[c] < n), patterns=[x.PR[c]]))
    if subject is not None:
        st.assume(z3.And(subject > 0, subject < 2 ** 40))
    cd = stl.ptr_codec('ctx')
    filed = lambda e: x.PR[e] if not changing else z3.If(e == subject, z3.IntVal(-1), x.PR[e])

    def inv(v):
        l = v['lists']
        return [('no coroutine is queued twice', l.wf()),
                ('every coroutine is filed under its priority', every(l, lambda p, k, e: z3.Or(x.PR[e] == p, z3.And(z3.BoolVal(changing), e == (subject if subject is not None else 0))))),
                ('the number of coroutines is the number queued', zi(v['count']) == zi(l.total))]
    x.L = LMon('queues', e, P.off('env_lists_mu'), [Field('lists', P.off('env_lists'), 24, 'nest', mk=lambda ex, st: stl.fresh_nest(st, cd, n)),
                                                    Field('count', P.off('env_count'), 8, 'int')], inv=inv)
    x.M = MMon('min', e, P.off('env_min_mu'), [Field('min', P.off('env_min'), 8, 'int')], inv=lambda v: [('the search starts at a priority', z3.And(0 <= zi(v['min']), zi(v['min']) < n))])
    x.L.x = x.M.x = x
    ex.mine.add((e.id, P.off('env_curr')))
    x.pre = pre

    def met(ex, st):
        """facts about the state found by this operation"""
        if x.L.held(st):
            l = x.L.view(ex, st)['lists']
            for g in (pre(l, x) if pre and not st.ghost.get('changed') else ()):
                st.assume(g)
            st.assume(zi(l.total) < 2 ** 40)
            if x.M.held(st):
                m = zi(x.M.view(ex, st)['min'])
                st.assume(every(l, lambda p, k, e: z3.Implies(p < m, z3.Not(x.R[e]))))
    def narrowed(ex, st):
        a, b, n = st.ghost[('snap', 'min')]['min'], x.M.view(ex, st)['min'], x.L.view(ex, st)['lists']
        ex.oblige(st, 'nobody runnable is left out of the scheduler\'s search',
                  z3.Or(zi(b) <= zi(a), every(n, lambda p, k, e: z3.Implies(z3.And(p < zi(b), p >= zi(a)), z3.Not(x.R[e])))))
        st.ghost['narrowed'] = b
    x.met, x.narrowed = met, narrowed
    for m in (x.L, x.M):
        m.install(ex, st)
    x.idle = fresh_int('idle')
    st.assume(x.idle > 0)
    ex.store_cell(st, Ptr(e.id, P.off('env_idle')), Sym(x.idle, 0, 'ctx'), 8)
    sk = (e.id, P.off('env_sched'))
    x.ep = Ptr(e.id, 0)
    x.sk = sk

    def lock(ex, st, c):
        r = oslock.acquire(ex, st, c.args[0])
        if conc.lock_key(ex, st, c.args[0]) == sk:
            st.ghost['sched_acq'] = st.ghost['sched_acq'] + 1
        return r
    H = ex.handlers
    H['cocpp::co_recursive_mutex_with_count::lock'] = lock
    H['cocpp::co_recursive_mutex_with_count::unlock'] = oslock.h_unlock
    ex.bump_count = lambda st, p, d: None

    def notify(ex, st, c):
        p = ex.resolve_sym(st, c.args[0])
        if not (isinstance(p, Ptr) and (p.obj, p.off) == (e.id, P.off('env_cv'))):
            raise Unsupported('unknown condition variable')
        if oslock.depth(st, sk) > 0 or st.ghost['sched_acq'] > st.ghost['sched_at']:
            st.ghost['told'] = True
    for v in ('', '_V2::'):
        for w in ('one', 'all'):
            H['std::%scondition_variable_any::notify_%s' % (v, w)] = notify
    def t(ex, st, c):
        u = ex.pterm(st, c.args[0])
        if st.ghost['destroyed']:
            ex.oblige(st, 'a coroutine is not touched after it was destroyed', z3.And([u != d for d in st.ghost['destroyed']]))
        return u
    H['cocpp::co_ctx::priority'] = lambda ex, st, c: x.PR[t(ex, st, c)]
    H['cocpp::co_ctx::can_move'] = lambda ex, st, c: x.MV[t(ex, st, c)]

    def runnable(ex, st, c):
        return x.R[t(ex, st, c)]
    H['cocpp::co_ctx::can_schedule'] = runnable
    st.ghost['placed'] = z3.K(z3.IntSort(), z3.IntVal(0))

    def set_env(ex, st, c):
        st.ghost['placed'] = z3.Store(st.ghost['placed'], t(ex, st, c), ex.pterm(st, c.args[1]))
    H['cocpp::co_ctx::set_env'] = set_env
    H['cocpp::co_env::state'] = lambda ex, st, c: x.state
    H['cocpp::co_env::set_state'] = lambda ex, st, c: None

    def destroy(ex, st, c):
        g = t2(ex, st, c.args[0])
        n = st.ghost[('last', 'queues')]['lists'] if not x.L.held(st) else x.L.view(ex, st)['lists']
        ex.oblige(st, 'a coroutine is destroyed only after it was taken out of the queues', z3.Not(n.has(g)))
        st.ghost['destroyed'] = st.ghost['destroyed'] + (g,)
    t2 = lambda ex, st, v: ex.pterm(st, v)
    H['cocpp::co_ctx_factory::destroy_ctx'] = destroy
    ex.assumptions.add('a coroutine that becomes runnable is announced to the scheduler\'s search afterwards (proved for leaving a wait in C20, for adding and refiling in C19)')
    ex.assumptions.add('two operations on the same coroutine (adding, removing, changing its priority) do not overlap')
    ex.loop_hook.append(lambda ex, s0, cur, mod, depth: cands(ex, s0, cur, mod, depth, x))
    return st, x


def cands(ex, s0, cur, mod, depth, x):
    import loops
    out = []
    if not x.L.held(cur):
        return out
    start = zi(x.M.view(ex, s0)['min']) if x.M.held(cur) else z3.IntVal(0)
    for l in mod:
        v = loops.get(cur, l, depth)
        if v is None:
            continue
        v = v[1] if l[0] == 'cell' else v

        def val(s, l=l):
            w = loops.get(s, l, depth)
            if w is None:
                return None
            return w[1] if l[0] == 'cell' else w
        sel = [('runnable', lambda e: x.R[e]), ('movable', lambda e: x.MV[e])]
        if x.subject is not None:
            sel.append(('concerned', lambda e: e == x.subject))
        for nm, B in sel:
            if isinstance(v, (It, Elem)) and isinstance(v.c, stl.NK):
                def f(s, val=val, B=B):
                    w = val(s)
                    q = stl.get_cont(s, w.c)
                    k = z3.Int('k!c')
                    return z3.ForAll([k], z3.Implies(z3.And(zi(q.lo) <= k, k < zi(w.idx)), z3.Not(B(q.arr[k]))), patterns=[q.arr[k]])
                out.append(('nobody %s up to here' % nm, f))
            elif isinstance(v, (It, Elem)):
                def f(s, val=val, B=B):
                    w = val(s)
                    q = stl.get_cont(s, w.c)
                    if not isinstance(q, stl.Seq):
                        return None
                    k = z3.Int('k!c')
                    return z3.ForAll([k], z3.Implies(z3.And(zi(q.lo) <= k, k < zi(w.idx)), z3.Not(B(q.arr[k]))), patterns=[q.arr[k]])
                out.append(('nobody %s up to here in the copy' % nm, f))
            elif isinstance(v, z3.ArithRef) or (is_num(v) and not isinstance(v, bool)):
                def f(s, val=val, B=B):
                    w = val(s)
                    if not (is_num(w) or isinstance(w, z3.ArithRef)):
                        return None
                    n = x.L.view(ex, s)['lists']
                    return every(n, lambda p, k, e: z3.Implies(z3.And(start <= p, p < zi(w)), z3.Not(B(e))))
                out.append(('nobody %s in the queues before' % nm, f))
    return out


def qs(s, which):
    return s.ghost[(which, 'queues')]['lists']


def others_same(a, b, t, order=True):
    """everybody but t is queued as before, in the same order"""
    c, d = z3.Ints('c!o d!o')
    at = lambda v, c: v.pos[v.wh[c]][c]
    out = [z3.ForAll([c], z3.Implies(c != t, b.has(c) == a.has(c)), patterns=[b.wh[c]]),
           z3.ForAll([c], z3.Implies(z3.And(c != t, a.has(c)), b.wh[c] == a.wh[c]), patterns=[b.wh[c]]),
           z3.ForAll([c, d], z3.Implies(z3.And(c != t, d != t, a.has(c), a.has(d), a.wh[c] == a.wh[d], at(a, c) < at(a, d)), at(b, c) < at(b, d)), patterns=[mpat(b.wh[c], b.wh[d])])]
    return out


def frame(ex, s, t):
    a, b = qs(s, 'snap'), qs(s, 'last')
    g = others_same(a, b, t)
    for nm, f in zip(('is queued exactly if it was', 'stays in its queue', 'keeps its order'), g):
        ex.oblige(s, 'every other coroutine ' + nm, f, where='exit')


def op(P, name, args, subject, pre, check, cover, changing=False, find=None):
    def body(ex):
        t = z3.Int('subject') if subject else None
        st, x = setup(ex, P, t, pre, changing)
        fn = find(ex) if find else ex.get('cocpp::co_env::' + name)
        cov = {k: False for k in cover}
        for s, k, v in ex.run_function(st, fn, [x.ep] + (args(x, st) if args else [])):
            ex.oblige(s, '%s does not throw' % name, k == 'ret', where='exit')
            if k != 'ret':
                continue
            oslock.balanced(ex, s)
            check(ex, s, x, v)
            for nm, f in cover.items():
                cov[nm] = cov[nm] or ex.reachable(s, zb(f(s, x, v)))
        return cov
    return P.fn('co_env::' + name, body, budget=400)


def subj(x, st):
    return [Sym(x.subject, 0, 'ctx')]


def at_back(n, c):
    p = n.wh[c]
    return z3.And(n.has(c), n.pos[p][c] == n.hi[p] - 1)


def once(ex, s, nm='queues'):
    ex.oblige(s, 'the queues are changed in one step', z3.BoolVal(s.ghost[('acq', nm)] == 1), where='exit')


def move(P):
    def check(ex, s, x, v):
        once(ex, s)
        b = qs(s, 'last')
        ex.oblige(s, 'the coroutine is queued last under its priority', z3.And(at_back(b, x.subject), b.wh[x.subject] == x.PR[x.subject]), where='exit')
        frame(ex, s, x.subject)
        ex.oblige(s, 'the scheduler looks at its priority again', zb(s.ghost['reach']), where='exit')
        ex.oblige(s, 'a sleeping scheduler is woken', zb(s.ghost['told']), where='exit')
        ex.oblige(s, 'the coroutine belongs to this environment', s.ghost['placed'][x.subject] == ex.pterm(s, x.ep), where='exit')
    op(P, 'move_ctx_to_here', subj, True, lambda l, x: [z3.Not(l.has(x.subject)), nowhere(l, x.subject)], check, {'returns': lambda s, x, v: True})


def nowhere(l, t):
    return every(l, lambda p, k, e: e != t)


def remove(P):
    def check(ex, s, x, v):
        once(ex, s)
        a, b = qs(s, 'snap'), qs(s, 'last')
        ex.oblige(s, 'the coroutine is no longer queued', nowhere(b, x.subject), where='exit')
        frame(ex, s, x.subject)
        d = s.ghost['destroyed']
        ex.oblige(s, 'exactly this coroutine is destroyed, once', z3.BoolVal(len(d) == 1) if not d else z3.And(z3.BoolVal(len(d) == 1), d[0] == x.subject), where='exit')
    op(P, 'remove_ctx', subj, True, lambda l, x: [l.has(x.subject)], check, {'returns': lambda s, x, v: True})


def changed(P):
    def args(x, st):
        old = z3.Int('old')
        st.assume(z3.And(old >= 0, old < x.n))
        x.old = old
        return [old, Sym(x.subject, 0, 'ctx')]

    def check(ex, s, x, v):
        once(ex, s)
        b = qs(s, 'last')
        ex.oblige(s, 'the coroutine is queued last under its new priority', z3.And(at_back(b, x.subject), b.wh[x.subject] == x.PR[x.subject]), where='exit')
        frame(ex, s, x.subject)
        ex.oblige(s, 'the scheduler looks at its priority again', zb(s.ghost['reach']), where='exit')
    op(P, 'handle_priority_changed', args, True, lambda l, x: [l.has(x.subject), l.wh[x.subject] == z3.Int('old')], check,
       {'returns': lambda s, x, v: True}, changing=True)


def chosen(ex, s, x, r):
    """r: who was chosen, 0 if nobody"""
    once(ex, s)
    a, b = qs(s, 'snap'), qs(s, 'last')
    none = r == 0
    at = lambda v, c: v.pos[v.wh[c]][c]
    ex.oblige(s, 'nobody is chosen only if nobody is runnable', z3.Implies(none, every(a, lambda p, k, e: z3.Not(x.R[e]))), where='exit')
    ex.oblige(s, 'a chosen coroutine is queued here and runnable', z3.Implies(z3.Not(none), z3.And(a.has(r), x.R[r])), where='exit')
    ex.oblige(s, 'no runnable coroutine is more urgent than the chosen one', z3.Implies(z3.Not(none), every(a, lambda p, k, e: z3.Implies(p < a.wh[r], z3.Not(x.R[e])))), where='exit')
    ex.oblige(s, 'among equals the one chosen least recently is chosen',
              z3.Implies(z3.Not(none), every(a, lambda p, k, e: z3.Implies(z3.And(p == a.wh[r], k < at(a, r)), z3.Not(x.R[e])))), where='exit')
    ex.oblige(s, 'the chosen coroutine goes behind its equals', z3.Implies(z3.Not(none), z3.And(at_back(b, r), b.wh[r] == a.wh[r])), where='exit')
    ex.oblige(s, 'without a choice the queues stay as they are', z3.Implies(none, b.equal(a)), where='exit')
    frame(ex, s, r)
    cur = ex.load(s, Ptr(x.env.id, x.P.off('env_curr')), ('ptr',), ex.mods[0])
    ex.oblige(s, 'the chosen coroutine is the current one', ex.pterm(s, cur) == r, where='exit')


def choose(P):
    op(P, 'choose_ctx_from_normal_list__', None, False, None, lambda ex, s, x, v: chosen(ex, s, x, ex.pterm(s, v)),
       {'nobody': lambda s, x, v: sterm(v) == 0, 'somebody': lambda s, x, v: sterm(v) != 0})


def next_ctx(P):
    def check(ex, s, x, v):
        r = ex.pterm(s, v)
        if s.ghost['acq', 'queues'] == 0:
            ex.oblige(s, 'nobody is looked for only if the environment is to end', x.state == x.C['val_destroying'], where='exit')
            ex.oblige(s, 'then the idle coroutine runs', r == x.idle, where='exit')
        else:
            ex.oblige(s, 'nobody is chosen if the environment is to end', x.state != x.C['val_destroying'], where='exit')
            chosen(ex, s, x, z3.If(r == x.idle, z3.IntVal(0), r))
    op(P, 'next_ctx__', None, False, lambda l, x: [every(l, lambda p, k, e: e != x.idle)], check,
       {'idle': lambda s, x, v: sterm(v) == x.idle, 'somebody': lambda s, x, v: sterm(v) != x.idle, 'to end': lambda s, x, v: x.state == x.C['val_destroying']})


def need_sleep(P):
    def check(ex, s, x, v):
        a = qs(s, 'snap') if s.ghost['acq', 'queues'] else None
        if a is None:
            ex.oblige(s, 'nobody is looked for only if the environment is to end', x.state == x.C['val_destroying'], where='exit')
            ex.oblige(s, 'an environment that is to end does not sleep', z3.Not(zb(v)), where='exit')
            return
        nobody = every(a, lambda p, k, e: z3.Not(x.R[e]))
        ex.oblige(s, 'an environment sleeps only if nobody is runnable and it is not to end', z3.Implies(zb(v), z3.And(nobody, x.state != x.C['val_destroying'])), where='exit')
        ex.oblige(s, 'an environment with nothing to do sleeps', z3.Implies(z3.And(nobody, x.state != x.C['val_destroying']), zb(v)), where='exit')
        ex.oblige(s, 'looking changes nothing', qs(s, 'last').equal(a), where='exit')
    op(P, 'need_sleep__', None, False, None, check, {'yes': lambda s, x, v: zb(v), 'no': lambda s, x, v: z3.Not(zb(v))})


def sterm(v):
    return z3.IntVal(0) if is_num(v) and v == 0 else (v.term if isinstance(v, Sym) else zi(v) if isinstance(v, z3.ArithRef) else z3.IntVal(0))


def can_schedule(P):
    def check(ex, s, x, v):
        once(ex, s)
        a = qs(s, 'snap')
        ex.oblige(s, 'nothing to run is reported only if nobody is runnable', z3.Or(zb(v), every(a, lambda p, k, e: z3.Not(x.R[e]))), where='exit')
        w = z3.Int('c!any')
        ex.oblige(s, 'something to run is reported only if somebody is runnable', z3.Implies(every(a, lambda p, k, e: z3.Not(x.R[e])), z3.Not(zb(v))), where='exit')
        ex.oblige(s, 'looking changes nothing', qs(s, 'last').equal(a), where='exit')
    op(P, 'can_schedule__', None, False, None, check, {'yes': lambda s, x, v: zb(v), 'no': lambda s, x, v: z3.Not(zb(v))})


def take_one(P):
    def check(ex, s, x, v):
        once(ex, s)
        r = ex.pterm(s, v)
        a, b = qs(s, 'snap'), qs(s, 'last')
        none = r == 0
        ex.oblige(s, 'without a movable coroutine nothing changes', z3.Implies(none, b.equal(a)), where='exit')
        ex.oblige(s, 'the coroutine taken was queued here, is movable and no longer queued', z3.Implies(z3.Not(none), z3.And(a.has(r), x.MV[r], nowhere(b, r))), where='exit')
        frame(ex, s, r)
        ex.oblige(s, 'a coroutine is taken away only while its environment cannot be looking at it', z3.BoolVal(bool(s.ghost['sched_held'])), where='exit')
    op(P, 'take_one_movable_ctx', None, False, None, check, {'nobody': lambda s, x, v: sterm(v) == 0, 'somebody': lambda s, x, v: sterm(v) != 0})


def kept(a, b, x):
    """b holds coroutines of a in the same queues and the same order, and all that are not movable"""
    c, d = z3.Ints('c!k d!k')
    at = lambda v, c: v.pos[v.wh[c]][c]
    return [('nobody is added or refiled', z3.ForAll([c], z3.Implies(b.has(c), z3.And(a.has(c), a.wh[c] == b.wh[c])), patterns=[b.wh[c]])),
            ('whoever is not movable stays', z3.ForAll([c], z3.Implies(z3.And(a.has(c), z3.Not(x.MV[c])), b.has(c)), patterns=[b.wh[c], a.wh[c]])),
            ('the order is kept', z3.ForAll([c, d], z3.Implies(z3.And(b.has(c), b.has(d), b.wh[c] == b.wh[d], at(a, c) < at(a, d)), at(b, c) < at(b, d)), patterns=[mpat(b.wh[c], b.wh[d])]))]


def collected(a, b, q, x):
    """q: the coroutines taken on the way from a to b"""
    j, k = z3.Ints('j!t k!t')
    e = q.arr[k]
    here = lambda k: z3.And(zi(q.lo) <= k, k < zi(q.hi))
    return [('whoever is handed out was queued here and is movable', z3.ForAll([k], z3.Implies(here(k), z3.And(a.has(e), x.MV[e])), patterns=[e])),
            ('whoever is handed out is no longer queued', z3.ForAll([k], z3.Implies(here(k), z3.Not(b.has(e))), patterns=[e])),
            ('nobody is handed out twice', z3.ForAll([j, k], z3.Implies(z3.And(here(j), here(k), j < k), q.arr[j] != e), patterns=[mpat(q.arr[j], e)])),
            ('whoever is taken away is handed out', zi(b.total) + zi(q.size()) == zi(a.total))]


def take_all(P):
    def cands(ex, s0, cur, mod, depth, x):
        import loops
        if not x.L.held(cur):
            return []
        V = lambda s: x.L.view(ex, s)['lists']
        out = []

        def all_of(f):
            n = len(f(cur))
            for i in range(n):
                out.append((f(cur)[i][0], lambda s, i=i: f(s)[i][1]))
        a, b0 = cur.ghost[('snap', 'queues')]['lists'], V(s0)
        all_of(lambda s: kept(a, V(s), x))
        if not b0.same(a):
            all_of(lambda s: kept(b0, V(s), x))
        def val(s, l):
            w = loops.get(s, l, depth)
            return w[1] if w is not None and l[0] == 'cell' else w
        for l in mod:
            v = val(cur, l)
            if isinstance(v, stl.Seq):
                all_of(lambda s, l=l: collected(a, V(s), val(s, l), x) if isinstance(val(s, l), stl.Seq) else [('', None)] * 4)
            if isinstance(v, It) and not isinstance(v.c, stl.NK):
                def before(s, l=l):
                    w = val(s, l)
                    q = stl.get_cont(s, w.c) if isinstance(w, It) else None
                    if not isinstance(q, stl.Seq):
                        return None
                    k, b = z3.Int('k!b'), V(s)
                    return z3.ForAll([k], z3.Implies(z3.And(zi(q.lo) <= k, k < zi(w.idx)), z3.Not(z3.And(x.MV[q.arr[k]], b.has(q.arr[k])))), patterns=[q.arr[k]])

                def after(s, l=l):
                    w = val(s, l)
                    q = stl.get_cont(s, w.c) if isinstance(w, It) else None
                    if not isinstance(q, stl.Seq):
                        return None
                    k, b = z3.Int('k!b'), V(s)
                    return z3.ForAll([k], z3.Implies(z3.And(zi(w.idx) <= k, k < zi(q.hi)), b.has(q.arr[k])), patterns=[q.arr[k]])
                out.append(('nobody movable is left up to here in the copy', before))
                out.append(('the rest of the copy is still queued', after))
        return out

    def body(ex):
        st, x = setup(ex, P)
        usual = ex.loop_hook.pop()
        ex.loop_hook.append(lambda *a: [c for c in usual(*a) if 'runnable' not in c[0] and 'copy' not in c[0]] + cands(*a, x))
        if ex.mode == 'inv':
            ex.feas_ms = 2 * ex.feas_ms
        r = ex.new_obj(st, 'taken', 24, 'param')
        cov = {'nobody': False, 'somebody': False}
        for s, k, v in ex.run_function(st, ex.get('cocpp::co_env::take_all_movable_ctx[abi:cxx11]'), [Ptr(r.id, 0), x.ep]):
            ex.oblige(s, 'take_all_movable_ctx does not throw', k == 'ret', where='exit')
            if k != 'ret':
                continue
            oslock.balanced(ex, s)
            once(ex, s)
            a, b = qs(s, 'snap'), qs(s, 'last')
            q = s.mem[r.id].get(0)
            if q is None or not isinstance(q[1], stl.Seq):
                raise Unsupported('representation of the coroutines taken')
            for nm, g in kept(a, b, x) + collected(a, b, q[1], x):
                ex.oblige(s, nm, g, where='exit')
            m = zi(s.ghost[('snap', 'min')]['min'])
            ex.oblige(s, 'no movable coroutine is left where the scheduler looks', every(b, lambda p, k, e: z3.Implies(p >= m, z3.Not(x.MV[e]))), where='exit')
            ex.oblige(s, 'a coroutine is taken away only while its environment cannot be looking at it', z3.BoolVal(bool(s.ghost['sched_held'])), where='exit')
            n = zi(q[1].size())
            cov['nobody'] = cov['nobody'] or ex.reachable(s, n == 0)
            cov['somebody'] = cov['somebody'] or ex.reachable(s, n > 0)
        return cov
    return P.fn('co_env::take_all_movable_ctx', body, budget=400, unroll=2)


def counts(P):
    def n(s):
        return zi(s.ghost[('last', 'queues')]['count'])
    def mk(name, f):
        def check(ex, s, x, v):
            once(ex, s)
            ex.oblige(s, '%s reports the number queued' % name, f(v, zi(qs(s, 'last').total)), where='exit')
        op(P, name, None, False, None, check, {'returns': lambda s, x, v: True})
    mk('ctx_count', lambda v, n: zi(v) == n)
    mk('workload', lambda v, n: zi(v) == n)
    mk('has_ctx', lambda v, n: zb(v) == (n > 0))


def run18(P):
    choose(P)
    can_schedule(P)
    next_ctx(P)
    need_sleep(P)


def run19(P):
    move(P)
    remove(P)
    changed(P)
    take_one(P)
    counts(P)
    take_all(P)


def run22(P):
    remove(P)
    take_one(P)


def run(P):
    run18(P)
    run19(P)
