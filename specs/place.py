"""Contracts for the placement of coroutines and the retirement of environments.

ST, LOAD and the flags give the state of every environment.  An environment is shut down or found blocked only by whoever
holds the lock of the set of environments; between idle and busy it changes at any time.  What is chosen as the least loaded
is judged with the states standing still; that a coroutine is never placed where it must not be, also while they change."""
import z3
from values import *
import conc, oslock, stl, shared
from conc import Monitor, Field
from execu import Results, NOVAL, END, INLINE

SRCS = ['core/co_manager.cpp', 'core/co_env.cpp', 'core/co_ctx.cpp']
TUS = ['core.cpp', 'place.cpp']
M = 'cocpp::co_manager::'
E = 'cocpp::co_env::'


class W:
    pass


ia = lambda nm: z3.Const(nm, z3.ArraySort(z3.IntSort(), z3.IntSort()))
ba = lambda nm: z3.Const(nm, z3.ArraySort(z3.IntSort(), z3.BoolSort()))
fresh_ia = lambda nm: z3.FreshConst(z3.ArraySort(z3.IntSort(), z3.IntSort()), nm)


def setup(ex, P, noisy=False):
    oslock.install(ex)
    shared.install(ex)
    st = conc.initial(ex)
    C, H = P.consts, ex.handlers
    x = W()
    x.C = C
    x.mgr = ex.new_obj(st, 'manager', P.size('pl_mgr'), 'param')
    x.mp = Ptr(x.mgr.id, 0)
    x.NT, x.EX, x.KEEP, x.CONV, x.LOAD = ba('without thread'), ba('reserved'), ba('kept'), ba('converted'), ia('load')
    IDLE, BUSY, BLK, DES, CRE = (C['val_est_' + n] for n in ('idle', 'busy', 'blocked', 'destroying', 'created'))
    e = z3.Int('e!p')
    st.assume(z3.ForAll([e], z3.And(x.LOAD[e] >= 0, x.LOAD[e] < 2 ** 63), patterns=[x.LOAD[e]]))
    cd = stl.ptr_codec('env')

    def inv(v):
        q, ST = v['set'], v['ST']
        i = z3.Int('i')
        inside = lambda g: z3.ForAll([i], z3.Implies(z3.And(q.lo <= i, i < q.hi), g(q.arr[i])), patterns=[q.arr[i]])
        return [('environments are distinct', q.wf()),
                ('no environment is null', inside(lambda a: a != 0)),
                ('environments have a state', inside(lambda a: z3.Or([ST[a] == s for s in (IDLE, BUSY, BLK, DES, CRE)]))),
                ('only an environment with a scheduler is idle', inside(lambda a: z3.Implies(ST[a] == IDLE, z3.Not(x.NT[a]))))]
    x.m = Monitor('environments', x.mgr, P.off('pl_lock'), [Field('set', P.off('pl_set'), 48, 'list', cd=cd, pos=True)],
                  ghosts=[('ST', fresh_ia)], inv=inv, kind='os')
    x.m.install(ex, st)
    x.ST = lambda s: s.ghost[('ST', 'environments')]
    x.able = lambda s, a: z3.And(x.ST(s)[a] != BLK, x.ST(s)[a] != DES, z3.Not(x.NT[a]))
    x.takes = lambda s, a: z3.And(x.able(s, a), z3.Not(x.EX[a]))
    x.idle = lambda s, a: x.ST(s)[a] == IDLE
    x.member = lambda s, a: x.m.view(ex, s)['set'].member(a)
    st.ghost.update({'made': 0, 'new': z3.IntVal(0), 'placed': 0, 'where': z3.IntVal(0), 'retired': 0, 'RET': z3.K(z3.IntSort(), z3.BoolVal(False))})

    def locked(ex, st):
        ex.oblige(st, 'environments are looked at while their set is locked', z3.BoolVal(x.m.held(st)))

    def env(ex, st, p):
        return ex.pterm(st, p)

    def state(ex, st, c):
        sret, a = stl.this_ret(c)
        t = env(ex, st, a[0])
        v = x.ST(st)[t]
        if noisy:
            s = fresh_int('state')
            fixed = z3.Or(v == BLK, v == DES)
            st.assume(z3.If(fixed, s == v, z3.Or(z3.And(s == IDLE, z3.Not(x.NT[t])), s == BUSY, s == CRE)))
            v = s
        st.assume(z3.And(v >= 0, v < 256))
        return v
    H[E + 'state'] = state

    def flag(ex, st, c):
        t = env(ex, st, c.args[0])
        b = c.args[1]
        b = ex.load(st, b, ('int', 32), ex.mods[0]) if isinstance(b, (Ptr, Sym)) else b
        for n, a in (('nothread', x.NT), ('exclusive', x.EX), ('keep', x.KEEP), ('converted', x.CONV)):
            if is_num(b) and b == C['val_ef_' + n]:
                return z3.Select(a, t)
        return fresh_bool('flag')
    H[E + 'test_flag'] = flag

    def load(ex, st, c):
        t = env(ex, st, c.args[0])
        if noisy:
            v = fresh_int('load')
            st.assume(z3.And(v >= 0, v < 2 ** 63))
            return v
        return x.LOAD[t]
    H[E + 'workload'] = H[E + 'ctx_count'] = load

    def has(ex, st, c):
        return x.LOAD[env(ex, st, c.args[0])] > 0
    H[E + 'has_ctx'] = has

    def stop(ex, st, c):
        t = env(ex, st, c.args[0])
        locked(ex, st)
        ex.oblige(st, 'only an environment of the set is retired', x.member(st, t))
        ex.oblige(st, 'only an idle environment is retired', x.idle(st, t))
        ex.oblige(st, 'only an environment without coroutines is retired', x.LOAD[t] == 0)
        ex.oblige(st, 'no environment that is protected from it is retired', z3.Not(z3.Or(x.KEEP[t], x.CONV[t], x.NT[t])))
        ex.oblige(st, 'no environment is retired twice', z3.Not(st.ghost['RET'][t]))
        st.ghost['RET'] = z3.Store(st.ghost['RET'], t, z3.BoolVal(True))
        st.ghost['retired'] = simp(zi(st.ghost['retired']) + 1)
    H[E + 'stop_schedule'] = stop

    def create(ex, st, c):
        ex.oblige(st, 'an environment made on demand may be retired', z3.Not(zb(c.args[1])))
        ex.oblige(st, 'an environment is made while the set is locked', z3.BoolVal(x.m.held(st)))
        t = fresh_int('new env')
        st.assume(z3.And(t > 0, t < 2 ** 47, z3.Not(x.member(st, t))))
        st.ghost['made'] = simp(zi(st.ghost['made']) + 1)
        st.ghost['new'] = t
        return Sym(t, 0, 'env')
    H[M + 'create_env'] = create
    # the set in the order it is walked
    S = 'std::set::'
    H[S + 'begin'] = H[S + 'cbegin'] = stl.h_begin
    H[S + 'end'] = H[S + 'cend'] = stl.h_end
    H[S + 'empty'] = stl.h_empty
    H[S + 'size'] = stl.h_size
    for k in ('_Rb_tree_const_iterator', '_Rb_tree_iterator'):
        H['std::%s::operator*' % k] = H['std::%s::operator->' % k] = stl.h_it_deref
        H['std::%s::operator++' % k] = stl.h_it_inc
    H['std::vector::reserve'] = lambda ex, st, c: None
    ex.assumptions.add('an environment is shut down or found blocked only by whoever holds the lock of the set of environments')
    return st, x


def counted(ex, st, x, what):
    """number of environments among the first ones for which what holds"""
    q = x.m.view(ex, st)['set']
    N = z3.Function('N!%d' % ex.ctr, z3.IntSort(), z3.IntSort())
    ex.ctr += 1
    i = z3.Int('i')
    st.assume(z3.And(N(q.lo) == 0, q.hi - q.lo < 2 ** 48))
    st.assume(z3.ForAll([i], z3.Implies(z3.And(q.lo <= i, i < q.hi), N(i + 1) == N(i) + z3.If(what(st, q.arr[i]), 1, 0)), patterns=[q.arr[i]]))
    st.assume(z3.ForAll([i], z3.Implies(z3.And(q.lo <= i, i <= q.hi), z3.And(N(i) >= 0, N(i) <= i - q.lo)), patterns=[N(i)]))
    return N


def install_cands(ex, x, N, noisy):
    def cands(ex, s0, cur, mod, depth):
        import loops
        out, its, ints, ptrs, seqs = [], [], [], [], []

        def val(s, l):
            v = loops.get(s, l, depth)
            return v[1] if v is not None and l[0] == 'cell' else v
        for l in mod:
            v = val(cur, l)
            v0 = val(s0, l)
            if isinstance(v, It) and isinstance(stl.get_cont(cur, v.c), stl.Seq):
                its.append(l)
            elif isinstance(v, stl.Seq):
                seqs.append(l)
            elif isinstance(v, (Ptr, Sym)) or v is NULL:
                ptrs.append(l)
            elif is_num(v) or isinstance(v, z3.ArithRef):
                ints.append(l)
        k = z3.Int('k!p')

        def seen(s, l, g):
            it = val(s, l)
            if not isinstance(it, It):
                return None
            q = stl.get_cont(s, it.c)
            return z3.ForAll([k], z3.Implies(z3.And(q.lo <= k, k < zi(it.idx)), g(q.arr[k])), patterns=[q.arr[k]])

        def ok(*vs):
            return all(is_num(v) or isinstance(v, z3.ArithRef) for v in vs)
        for l in its:
            out.append(('no idle one so far', lambda s, l=l: seen(s, l, lambda a: z3.Not(x.idle(s, a)))))
            for n in ints:
                out.append(('counted so far', lambda s, l=l, n=n: zi(val(s, n)) == N(zi(val(s, l).idx)) if ok(val(s, n)) and isinstance(val(s, l), It) else None))
                out.append(('all that take have more', lambda s, l=l, n=n: seen(s, l, lambda a: z3.Implies(x.takes(s, a), x.LOAD[a] >= zi(val(s, n)))) if ok(val(s, n)) else None))
            for p in ptrs:
                out.append(('nobody takes so far', lambda s, l=l, p=p: z3.Implies(ex.pterm(s, val(s, p)) == 0, N(zi(val(s, l).idx)) == 0) if isinstance(val(s, l), It) else None))
                out.append(('somebody takes', lambda s, l=l, p=p: z3.Implies(ex.pterm(s, val(s, p)) != 0, N(zi(val(s, l).idx)) > 0) if isinstance(val(s, l), It) else None))
                out.append(('all that take have more than the best', lambda s, l=l, p=p: seen(s, l, lambda a: z3.Implies(x.takes(s, a), z3.And(ex.pterm(s, val(s, p)) != 0, x.LOAD[a] >= x.LOAD[ex.pterm(s, val(s, p))])))))
        for p in ptrs:
            out.append(('the best one takes', lambda s, p=p: z3.Implies(ex.pterm(s, val(s, p)) != 0, z3.And(x.member(s, ex.pterm(s, val(s, p))), x.takes(s, ex.pterm(s, val(s, p)))))))
            for n in ints:
                out.append(('load of the best', lambda s, p=p, n=n: z3.If(ex.pterm(s, val(s, p)) != 0, zi(val(s, n)) == x.LOAD[ex.pterm(s, val(s, p))], zi(val(s, n)) == 2 ** 64 - 1) if ok(val(s, n)) else None))
        for sq in seqs:
            def each(s, g, sq=sq):
                v = val(s, sq)
                if not isinstance(v, stl.Seq):
                    return None
                return z3.ForAll([k], z3.Implies(z3.And(v.lo <= k, k < v.hi), g(v, v.arr[k])), patterns=[v.arr[k]])
            mine = lambda s, a: z3.And(x.member(s, a), x.idle(s, a), x.LOAD[a] == 0, z3.Not(z3.Or(x.KEEP[a], x.CONV[a], x.NT[a])))
            out.append(('collected ones may be retired', lambda s, each=each: each(s, lambda v, a: mine(s, a))))
            for l in its:
                def upto(s, each=each, l=l):
                    it = val(s, l)
                    if not isinstance(it, It):
                        return None
                    q = stl.get_cont(s, it.c)
                    if q.pos is None:
                        return None
                    return each(s, lambda v, a: q.pos[a] < zi(it.idx))
                out.append(('collected ones were passed', upto))

            def order(s, sq=sq):
                v = val(s, sq)
                q = x.m.view(ex, s)['set']
                if not isinstance(v, stl.Seq):
                    return None
                j = z3.Int('j!p')
                return z3.ForAll([j, k], z3.Implies(z3.And(v.lo <= j, j < k, k < v.hi), q.pos[v.arr[j]] < q.pos[v.arr[k]]), patterns=[z3.MultiPattern(v.arr[j], v.arr[k])])
            out.append(('collected in order', order))
        if ('ghost', 'RET', None) in mod:
            for n in ints:
                out.append(('retired so far', lambda s, n=n: zi(val(s, n)) == zi(s.ghost['retired']) if ok(val(s, n)) else None))
                for l in [n]:
                    def rest(s, n=n):
                        if not ok(val(s, n)):
                            return None
                        r = []
                        for cells in s.mem.values():
                            for _, v in cells.values():
                                if isinstance(v, stl.Seq) and not v.arr.eq(x.m.view(ex, s)['set'].arr):
                                    r.append(z3.ForAll([k], z3.Implies(z3.And(v.lo + zi(val(s, n)) <= k, k < v.hi), z3.Not(s.ghost['RET'][v.arr[k]])), patterns=[v.arr[k]]))
                        return z3.And(r) if r else None
                    out.append(('the rest is not retired', rest))
            for l in its:
                def rest2(s, l=l):
                    it = val(s, l)
                    if not isinstance(it, It):
                        return None
                    v = stl.get_cont(s, it.c)
                    return z3.ForAll([k], z3.Implies(z3.And(zi(it.idx) <= k, k < v.hi), z3.Not(s.ghost['RET'][v.arr[k]])), patterns=[v.arr[k]])
                out.append(('the rest is not retired', rest2))
        return out
    ex.loop_hook.append(cands)


def choose(P, noisy):
    def body(ex):
        st, x = setup(ex, P, noisy)
        base = fresh_int('base')
        st.assume(z3.And(base >= 1, base < 2 ** 32))
        st.cells(x.mgr.id, True)[P.off('pl_base')] = (4, base)
        # the caller holds the lock too
        oslock.acquire(ex, st, Ptr(x.mgr.id, P.off('pl_lock')))
        q = x.m.view(ex, st)['set']
        N = counted(ex, st, x, x.takes)
        install_cands(ex, x, N, noisy)
        cov = {'new': False, 'idle': False, 'least loaded': False}
        k = z3.Int('k!q')
        some = lambda g: z3.Exists([k], z3.And(q.lo <= k, k < q.hi, g(q.arr[k])))
        for s, kd, v in ex.run_function(st, ex.get(M + 'get_best_env__'), [x.mp]):
            ex.oblige(s, 'choosing does not throw', kd == 'ret', where='exit')
            if kd != 'ret':
                continue
            r = ex.pterm(s, v)
            made = zi(s.ghost['made'])
            new = z3.And(made == 1, r == s.ghost['new'])
            ex.oblige(s, 'a new environment is used if one was made', z3.Implies(made != 0, new), where='exit')
            ex.oblige(s, 'the environment is one of the set or new', z3.Or(new, z3.And(made == 0, q.member(r))), where='exit')
            old = z3.And(made == 0)
            ex.oblige(s, 'the environment chosen has a scheduler', z3.Implies(old, z3.Not(x.NT[r])), where='exit')
            ex.oblige(s, 'the environment chosen is not shutting down or blocked', z3.Implies(old, x.able(s, r)), where='exit')
            if not noisy:
                idle = some(lambda a: x.idle(s, a))
                ex.oblige(s, 'an idle environment is chosen if there is one', z3.ForAll([k], z3.Implies(z3.And(q.lo <= k, k < q.hi, x.idle(s, q.arr[k])), z3.And(old, x.idle(s, r))), patterns=[q.arr[k]]), where='exit')
                busy = z3.And(old, z3.Not(x.idle(s, r)))
                ex.oblige(s, 'a reserved environment is chosen only if it is idle', z3.Implies(busy, x.takes(s, r)), where='exit')
                ex.oblige(s, 'the least loaded environment is chosen', z3.ForAll([k], z3.Implies(z3.And(q.lo <= k, k < q.hi, busy, x.takes(s, q.arr[k])), x.LOAD[r] <= x.LOAD[q.arr[k]]), patterns=[q.arr[k]]), where='exit')
                ex.oblige(s, 'an environment is made while fewer than the base number can take coroutines', z3.Implies(busy, N(q.hi) >= base), where='exit')
                ex.oblige(s, 'an environment is made only if none or fewer than the base number can take coroutines', z3.Implies(made != 0, z3.Or(N(q.hi) == 0, N(q.hi) < base)), where='exit')
                cov['idle'] = cov['idle'] or ex.reachable(s, z3.And(old, x.idle(s, r)))
                cov['least loaded'] = cov['least loaded'] or ex.reachable(s, busy)
            else:
                cov['idle'] = cov['idle'] or ex.reachable(s, old)
                cov['least loaded'] = cov['idle']
            cov['new'] = cov['new'] or ex.reachable(s, made == 1)
        return cov
    return P.fn('co_manager::get_best_env__' + (', states changing' if noisy else ''), body)


def place(P):
    def body(ex):
        st, x = setup(ex, P)
        H = ex.handlers
        bound = fresh_int('bound')
        st.assume(bound >= 0)
        cfg = ex.new_obj(st, 'config', P.size('config'), 'param')
        ctx = ex.new_obj(st, 'coroutine', P.size('ctx'), 'param')
        fn = ex.new_obj(st, 'entry', 32, 'param')
        ex.store_cell(st, Ptr(ctx.id, P.off('ctx_config') + P.off('config_bind_env')), Sym(bound, 0, 'env'), 8)
        st.ghost.update({'created': 0, 'locks': 0})

        def mk(ex, st, c):
            sret, a = stl.this_ret(c)
            ex.oblige(st, 'the coroutine is made from the configuration given', ex.ptr_eq(st, a[0], Ptr(cfg.id, 0)))
            st.ghost['created'] += 1
            return Ptr(ctx.id, 0)
        H['cocpp::co_ctx_factory::create_ctx'] = mk
        for n in ('std::function::function', 'std::function::~function'):
            H[n] = lambda ex, st, c: None
        H[M + 'subscribe_ctx_event__'] = lambda ex, st, c: None

        def ld(ex, st, c):
            ex.oblige(st, 'the coroutine is protected for its handle before it can run', z3.BoolVal(st.ghost['placed'] == 0))
            st.ghost['locks'] += 1
        H['cocpp::co_ctx::lock_destroy'] = ld

        def best(ex, st, c):
            was = x.m.held(st)
            if not was and oslock.acquire(ex, st, Ptr(x.mgr.id, P.off('pl_lock'))) is END:
                return END
            r = fresh_int('best')
            st.assume(z3.And(r > 0, r < 2 ** 47, x.able(st, r)))
            st.ghost['best'] = r
            if not was:
                oslock.release(ex, st, Ptr(x.mgr.id, P.off('pl_lock')))
            return Sym(r, 0, 'env')
        H[M + 'get_best_env__'] = best

        def add(ex, st, c):
            t = ex.pterm(st, c.args[0])
            ex.oblige(st, 'it is the new coroutine that is placed', ex.ptr_eq(st, c.args[1], Ptr(ctx.id, 0)))
            if ex.reachable(st, bound == 0):
                s2 = st
                # by now it may have been retired, unless the set was locked since it was chosen
                if not x.m.held(st):
                    x.m.havoc(ex, st)
                ex.oblige(s2, 'a coroutine is not placed in an environment that is shutting down, blocked or without a scheduler', z3.Implies(bound == 0, x.able(st, t)))
            st.ghost['placed'] += 1
            st.ghost['where'] = t
        H[E + 'add_ctx'] = add
        H['cocpp::co_ctx::config'] = lambda ex, st, c: Ptr(ctx.id, P.off('ctx_config'))
        lock = fresh_bool('lock')
        cov = {'bound': False, 'anywhere': False}
        for s, kd, v in ex.run_function(st, ex.get(M + 'create_and_schedule_ctx'), [x.mp, Ptr(cfg.id, 0), Ptr(fn.id, 0), lock]):
            oslock.balanced(ex, s)
            ex.oblige(s, 'placing does not throw', kd == 'ret', where='exit')
            if kd != 'ret':
                continue
            ex.oblige(s, 'one coroutine is made and placed once', z3.BoolVal(s.ghost['created'] == 1 and s.ghost['placed'] == 1), where='exit')
            ex.oblige(s, 'a bound coroutine is placed in its environment', z3.Implies(bound != 0, s.ghost['where'] == bound), where='exit')
            ex.oblige(s, 'any other coroutine is placed in the environment chosen', z3.Implies(bound == 0, s.ghost['where'] == zi(s.ghost.get('best', -1))), where='exit')
            ex.oblige(s, 'the coroutine is protected exactly if asked for', zi(s.ghost['locks']) == z3.If(zb(lock), 1, 0), where='exit')
            ex.oblige(s, 'the new coroutine is returned', ex.ptr_eq(s, v, Ptr(ctx.id, 0)), where='exit')
            cov['bound'] = cov['bound'] or ex.reachable(s, bound != 0)
            cov['anywhere'] = cov['anywhere'] or ex.reachable(s, bound == 0)
        return cov
    return P.fn('co_manager::create_and_schedule_ctx', body)


def retire(P):
    def body(ex):
        st, x = setup(ex, P)
        mx = fresh_int('max')
        st.assume(z3.And(mx >= 1, mx < 2 ** 32))
        st.cells(x.mgr.id, True)[P.off('pl_max')] = (4, mx)
        oslock.acquire(ex, st, Ptr(x.mgr.id, P.off('pl_lock')))
        q = x.m.view(ex, st)['set']
        N = counted(ex, st, x, x.able)
        install_cands(ex, x, N, False)
        cov = {'none': False, 'some': False}
        for s, kd, v in ex.run_function(st, ex.get(M + 'destroy_redundant_env__'), [x.mp]):
            ex.oblige(s, 'retiring does not throw', kd == 'ret', where='exit')
            n = zi(s.ghost['retired'])
            ex.oblige(s, 'not more environments are retired than exceed the maximum', z3.Or(n == 0, n <= N(q.hi) - mx), where='exit')
            cov['none'] = cov['none'] or ex.reachable(s, n == 0)
            cov['some'] = cov['some'] or ex.reachable(s, n > 0)
        return cov
    return P.fn('co_manager::destroy_redundant_env__', body)


def predicates(P):
    for name, want in (('can_schedule_ctx', lambda x, s, t: x.able(s, t)),
                       ('can_auto_destroy', lambda x, s, t: z3.Not(z3.Or(x.KEEP[t], x.CONV[t], x.NT[t])))):
        def body(ex, name=name, want=want):
            st, x = setup(ex, P)
            t = fresh_int('env')
            st.assume(z3.And(t > 0, t < 2 ** 47))
            cov = {'true': False, 'false': False}
            for s, kd, v in ex.run_function(st, ex.get(E + name), [Sym(t, 0, 'env')]):
                ex.oblige(s, '%s does not throw' % name, kd == 'ret', where='exit')
                ex.oblige(s, '%s answers rightly' % name, zb(v) == want(x, s, t), where='exit')
                cov['true'] = cov['true'] or ex.reachable(s, zb(v))
                cov['false'] = cov['false'] or ex.reachable(s, z3.Not(zb(v)))
            return cov
        P.fn('co_env::' + name, body)


def limits(P):
    for name, off in (('set_base_schedule_thread_count', 'pl_base'), ('set_max_schedule_thread_count', 'pl_max')):
        def body(ex, name=name, off=off):
            st, x = setup(ex, P)
            n = fresh_int('count')
            st.assume(z3.And(n >= 0, n < 2 ** 32))
            cov = {'taken': False, 'raised': False}
            for s, kd, v in ex.run_function(st, ex.get(M + name), [x.mp, n]):
                ex.oblige(s, '%s does not throw' % name, kd == 'ret', where='exit')
                g = s.mem[x.mgr.id].get(P.off(off))
                ex.oblige(s, 'the number is taken over, but at least one', zi(g[1]) == z3.If(n == 0, 1, n) if g else z3.BoolVal(False), where='exit')
                cov['taken'] = cov['taken'] or ex.reachable(s, n > 0)
                cov['raised'] = cov['raised'] or ex.reachable(s, n == 0)
            return cov
        P.fn('co_manager::' + name, body)


def run(P):
    limits(P)
    choose(P, False)
    choose(P, True)
    place(P)
    retire(P)
    predicates(P)
