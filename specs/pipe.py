"""Contracts for the stages and sources of a pipeline.

Every stage is run as it is: its constructor makes a coroutine, and what that coroutine would do is run after the constructor
has returned.  Channels are used through their contract (proved for the channels themselves): the input gives IN(0) .. IN(n-1)
and then says that it has ended; the output takes values until the consumer closes it.  EXP gives the sequence the stage is
meant to emit, TOTAL how many values; read and m count what was read and emitted."""
import re
import z3
from values import *
import conc, oslock, stl, shared, prio
from execu import Results, NOVAL, END, INLINE
from shared import PT

SRCS = ['core/co_manager.cpp', 'core/co_env.cpp', 'core/co_ctx.cpp']
TUS = ['core.cpp', 'pipe.cpp']
CH = 'cocpp::co_chan::'
I = z3.IntSort()
W64 = 2 ** 64


class W:
    pass


def setup(ex, P):
    oslock.install(ex)
    shared.install(ex)
    st = conc.initial(ex)
    prio.strings(ex)
    H = ex.handlers
    x = W()
    f = lambda n, *t: z3.Function('%s!%d' % (n, ex.ctr), *t)
    ex.ctr += 1
    x.IN = f('IN', I, I)
    x.n = z3.Int('n')
    j = z3.Int('j')
    x.word = lambda g: st.assume(z3.ForAll([j], z3.And(g(j) >= 0, g(j) < W64), patterns=[g(j)]))
    x.word(x.IN)
    st.assume(z3.And(x.n >= 0, x.n < 2 ** 62))
    x.f = f
    x.inp = ex.new_obj(st, 'shared input', 8, 'heap')
    x.pipe = ex.new_obj(st, 'pipeline', P.size('pipe'), 'param')
    ex.store_cell(st, Ptr(x.pipe.id, P.off('pipe_chan')), Ptr(x.inp.id, 0), 8)
    ex.store_cell(st, Ptr(x.pipe.id, P.off('pipe_chan') + 8), NULL, 8)
    st.ghost.update({'read': z3.IntVal(0), 'm': z3.IntVal(0), 'ended': z3.BoolVal(False), 'refused': z3.BoolVal(False), 'outclosed': False,
                     'inclosed': False, 'out': None, 'entry': None, 'started': False})
    x.may_read = lambda ex, st: None
    x.may_emit = lambda ex, st: None
    x.emitted = lambda st: None
    x.avail = None
    x.cands = []
    which = {}

    def side(ex, st, p):
        v = ex.resolve_sym(st, shared.get(ex, st, p))
        if isinstance(v, Ptr) and v.obj == x.inp.id:
            return 'in'
        if isinstance(v, Ptr) and v.obj == st.ghost['out']:
            return 'out'
        raise Unsupported('channel of a pipeline')
    g = lambda st: st.ghost

    def ctor(ex, st, c):
        if c.argtypes.strip('() ') != 'int':
            return INLINE
        if st.ghost['out'] is not None:
            raise Unsupported('a stage with several outputs')
        o = ex.new_obj(st, 'shared output', 8, 'heap')
        st.ghost['out'] = o.id
        shared.put(ex, st, c.args[0], Ptr(o.id, 0))
    H[CH + 'co_chan'] = ctor

    def stops(ex, st):
        ex.oblige(st, 'a stage stops once the consumer has closed its output', z3.Not(zb(st.ghost['refused'])))

    def nextval(ex, st, src, ended):
        """the next value of the input or of a source; [(state, has)]"""
        out = []
        k = zi(st.ghost['read'])
        more = k < x.n
        if st.ghost['inclosed'] is not False:
            more = z3.And(more, fresh_bool('still there'))
        a, b = st.fork(), st
        a.assume(more)
        a.ghost['read'] = simp(k + 1)
        b.assume(z3.Not(more))
        b.ghost['ended'] = z3.BoolVal(True)
        return [(a, [src(k), 1]), (b, [fresh_arg(b), 0])]

    def fresh_arg(st):
        v = fresh_int('none')
        st.assume(z3.And(v >= 0, v < W64))
        return v

    def pop(ex, st, c):
        if side(ex, st, c.args[0]) != 'in':
            ex.oblige(st, 'a stage does not take values from its own output', False)
            return END
        stops(ex, st)
        x.may_read(ex, st)
        return Results(nextval(ex, st, x.IN, 'ended'))
    H[CH + 'pop'] = pop

    def push(ex, st, c):
        if side(ex, st, c.args[0]) != 'out':
            ex.oblige(st, 'a stage does not send values into its input', False)
            return END
        stops(ex, st)
        ex.oblige(st, 'nothing is emitted after the output was closed', z3.BoolVal(st.ghost['outclosed'] is False))
        m = zi(st.ghost['m'])
        x.may_emit(ex, st)
        if x.total is not None:
            ex.oblige(st, 'no more values are emitted than there are', m < x.total)
        ex.oblige(st, 'the value emitted is the next one of the sequence', zi(c.args[1]) == x.EXP(m))
        b = st.fork()
        st.ghost['m'] = simp(m + 1)
        x.emitted(st)
        b.ghost['refused'] = z3.BoolVal(True)
        return Results([(st, 1), (b, 0)])
    H[CH + 'push'] = push

    def close(ex, st, c):
        st.ghost['outclosed' if side(ex, st, c.args[0]) == 'out' else 'inclosed'] = True
    H[CH + 'close'] = close

    def query(ex, st, c):
        b = fresh_bool('query')
        if side(ex, st, c.args[0]) == 'in':
            st.assume(z3.Implies(zb(st.ghost['ended']), b))
        return b
    H[CH + 'closed'] = H[CH + 'empty'] = query
    H['cocpp::co_manager::instance'] = lambda ex, st, c: Sym(z3.Int('manager'), 0, 'manager')

    def create(ex, st, c):
        sret, a = stl.this_ret(c)
        f = ex.resolve_sym(st, a[2])
        mng = ex.load(st, ex.padd(f, 16), PT, ex.mods[0])
        inv = ex.load(st, ex.padd(f, 24), PT, ex.mods[0])
        if not isinstance(mng, Fn) or not isinstance(inv, Fn) or st.ghost['entry'] is not None:
            raise Unsupported('the function of a coroutine')
        o = ex.new_obj(st, 'entry', 32, 'heap')
        out = []
        for s, k, v in ex.run_function(st, mng.name, [Ptr(o.id, 0), f, 2]):
            if k != 'ret':
                raise Unsupported('copying the function of a coroutine throws')
            ex.store_cell(s, Ptr(o.id, 16), mng, 8)
            ex.store_cell(s, Ptr(o.id, 24), inv, 8)
            s.ghost['entry'] = (o.id, inv.name)
            out.append((s, Sym(z3.Int('coroutine'), 0, 'ctx')))
        return Results(out)
    H['cocpp::co_manager::create_and_schedule_ctx'] = create
    H['cocpp::co::detach'] = lambda ex, st, c: None
    H['cocpp::co::~co'] = lambda ex, st, c: None
    st.assume(z3.And(z3.Int('coroutine') > 0, z3.Int('manager') > 0))
    ex.assumptions.add('the functions a stage is given depend on nothing but their arguments')
    ex.assumptions.add('fewer than 2^62 values go through one stage')
    return st, x


def install_cands(ex, x):
    def cands(ex, s0, cur, mod, depth):
        import loops
        out, ints, flags, its, seqs = [], [], [], [], []

        def val(s, l):
            v = loops.get(s, l, depth)
            return v[1] if v is not None and l[0] == 'cell' else v

        def num(v):
            return isinstance(v, (int, z3.ArithRef)) and not isinstance(v, bool)
        for l in mod:
            c = loops.get(cur, l, depth)
            v = c[1] if c is not None and l[0] == 'cell' else c
            if isinstance(v, It):
                its.append(l)
            elif isinstance(v, stl.Seq):
                seqs.append(l)
            elif l[0] != 'ghost' and (num(v) or isinstance(v, (bool, z3.BoolRef))):
                ints.append(l)
                if l[0] == 'cell' and c[0] == 1:
                    flags.append(l)
        k = lambda s: zi(s.ghost['read'])
        m = lambda s: zi(s.ghost['m'])

        def on(s, l):
            v = val(s, l)
            if isinstance(v, (bool, z3.BoolRef)):
                return zb(v)
            return zi(v) % 256 != 0 if num(v) else None
        upto = [('all', lambda s: k(s)), ('all but one', lambda s: k(s) - 1)]
        for h in flags:
            upto.append(('all but the one at hand', lambda s, h=h: k(s) - z3.If(on(s, h), 1, 0) if on(s, h) is not None else None))
        add = lambda n, g: out.append((n, g))
        add('not ended', lambda s: z3.Not(zb(s.ghost['ended'])))
        add('not refused', lambda s: z3.Not(zb(s.ghost['refused'])))
        add('not beyond the end', lambda s: z3.And(k(s) <= x.n, k(s) >= 0))
        add('ended at the end', lambda s: z3.Implies(zb(s.ghost['ended']), k(s) == x.n))
        add('counted', lambda s: m(s) >= 0)
        add('no more than there are', lambda s: m(s) <= x.n)
        for h in flags:
            add('at hand unless ended', lambda s, h=h: z3.Implies(z3.Not(on(s, h)), zb(s.ghost['ended'])) if on(s, h) is not None else None)
            add('at hand, so read', lambda s, h=h: z3.Implies(on(s, h), k(s) > 0) if on(s, h) is not None else None)
            add('at hand or ended', lambda s, h=h: on(s, h) != zb(s.ghost['ended']) if on(s, h) is not None else None)
        for nm, t in upto:
            for f in x.avail or []:
                add('emitted ' + nm, lambda s, t=t, f=f: m(s) == f(t(s)) if t(s) is not None else None)
            for g in x.limits:
                add('enough read', lambda s, t=t, g=g: z3.Or(t(s) >= g, zb(s.ghost['ended'])) if t(s) is not None else None)
                add('not too many read', lambda s, t=t, g=g: t(s) <= g if t(s) is not None else None)
        for l in ints:
            for nm, t in upto:
                add('index', lambda s, l=l, t=t: zi(val(s, l)) == t(s) if num(val(s, l)) and t(s) is not None else None)
                for f in x.state:
                    add('state', lambda s, l=l, t=t, f=f: zi(val(s, l)) == f(t(s)) if num(val(s, l)) and t(s) is not None else None)
            add('index emitted', lambda s, l=l: zi(val(s, l)) == m(s) if num(val(s, l)) else None)
            add('index left', lambda s, l=l: zi(val(s, l)) == x.left(s) if num(val(s, l)) and x.left(s) is not None else None)
            for f in x.next:
                add('next to emit', lambda s, l=l, f=f: zi(val(s, l)) == f(m(s)) if num(val(s, l)) else None)
            if x.block is not None:
                add('index in the group', lambda s, l=l: zi(val(s, l)) == k(s) - x.block(s) if num(val(s, l)) else None)
            for h in flags:
                add('value at hand', lambda s, l=l, h=h: z3.Implies(on(s, h), zi(val(s, l)) == x.IN(k(s) - 1)) if num(val(s, l)) and on(s, h) is not None else None)
        if x.block is not None:
            add('group at hand', lambda s: z3.And(x.block(s) <= k(s), k(s) <= x.block(s) + x.C))
            add('group begins', lambda s: x.block(s) == k(s))
            j = z3.Int('j!b')
            for q in seqs:
                def part(s, q=q):
                    v = val(s, q)
                    if not isinstance(v, stl.Seq):
                        return None
                    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k(s) - x.block(s)), v.arr[zi(v.lo) + j] == x.IN(x.block(s) + j)), patterns=[v.arr[zi(v.lo) + j]])
                add('group so far', part)
                add('room for the group', lambda s, q=q: zi(val(s, q).hi) - zi(val(s, q).lo) == x.C if isinstance(val(s, q), stl.Seq) else None)
        for l in its:
            def pos(s, l=l):
                it = val(s, l)
                if not isinstance(it, It):
                    return None
                q = stl.get_cont(s, it.c)
                return zi(it.idx) == zi(q.lo) + m(s) if isinstance(q, stl.Seq) else None
            add('position', pos)
        return out
    ex.loop_hook.append(cands)


def stage(P, name, fn, prep):
    def body(ex):
        st, x = setup(ex, P)
        x.total, x.EXP, x.state, x.next, x.limits, x.block, x.C = None, None, [], [], [], None, None
        x.left = lambda s: None
        args = prep(ex, st, x)
        install_cands(ex, x)
        cov = {'ends': False, 'closed by the consumer': False}
        for s, k, v in ex.run_function(st, ex.get(fn), args):
            ex.oblige(s, 'setting a stage up does not throw', k == 'ret', where='exit')
            ex.oblige(s, 'a stage runs in a coroutine', z3.BoolVal(s.ghost['entry'] is not None), where='exit')
            if k != 'ret' or s.ghost['entry'] is None:
                continue
            x.leave(ex, s)
            o, f = s.ghost['entry']
            ret = ex.new_obj(s, 'result', P.size('pany'), 'heap')
            for t, k2, v2 in ex.run_function(s, f, [Ptr(o, 0), Ptr(ret.id, 0)]):
                ex.oblige(t, 'a stage does not throw', k2 == 'ret', where='exit')
                if k2 != 'ret':
                    continue
                g = t.ghost
                ex.oblige(t, 'a stage closes its output when it ends', z3.Or(zb(g['refused']), z3.BoolVal(g['outclosed'] is True)), where='exit')
                ex.oblige(t, 'a stage emits the whole sequence unless the consumer closes', z3.Or(zb(g['refused']), x.complete(ex, t)), where='exit')
                x.atend(ex, t)
                cov['ends'] = cov['ends'] or ex.reachable(t, z3.Not(zb(g['refused'])))
                cov['closed by the consumer'] = cov['closed by the consumer'] or ex.reachable(t, zb(g['refused']))
        return cov

    return P.fn(name, body)


def default(x):
    x.complete = lambda ex, s: zi(s.ghost['m']) == x.total
    x.atend = lambda ex, s: None
    x.leave = lambda ex, s: None


def run(P):
    pipe = lambda x: Ptr(x.pipe.id, 0)
    fun = lambda ex, st: Ptr(ex.new_obj(st, 'function', 8, 'param').id, 0)

    def p_map(ex, st, x):
        default(x)
        G = x.f('G', I, I)
        x.word(G)
        x.total, x.EXP, x.avail = x.n, lambda m: G(x.IN(m)), [lambda k: k]
        ex.handlers['user_map::operator()'] = lambda ex, st, c: G(zi(c.args[1]))
        return [pipe(x), fun(ex, st)]
    stage(P, 'map', 'vf_pipe_map', p_map)

    def p_filter(ex, st, x):
        default(x)
        KEEP, F, EXP = x.f('KEEP', I, z3.BoolSort()), x.f('F', I, I), x.f('EXP', I, I)
        j = z3.Int('j!f')
        st.assume(F(0) == 0)
        st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < x.n), z3.And(F(j + 1) == F(j) + z3.If(KEEP(x.IN(j)), 1, 0), z3.Implies(KEEP(x.IN(j)), z3.And(EXP(F(j)) == x.IN(j), F(j) < F(x.n))))), patterns=[x.IN(j)]))
        x.total, x.EXP, x.avail = F(x.n), EXP, [lambda k: F(k)]
        ex.handlers['user_filter::operator()'] = lambda ex, st, c: KEEP(zi(c.args[1]))
        return [pipe(x), fun(ex, st)]
    stage(P, 'filter', 'vf_pipe_filter', p_filter)

    def p_reduce(ex, st, x):
        default(x)
        init = fresh_int('init')
        st.assume(z3.And(init >= 0, init < W64))
        R, RF = x.f('R', I, I), x.f('RF', I, I, I)
        j = z3.Int('j!r')
        a = z3.Int('a!r')
        st.assume(z3.ForAll([a, j], z3.And(RF(a, j) >= 0, RF(a, j) < W64), patterns=[RF(a, j)]))
        st.assume(R(0) == init)
        x.word(R)
        st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < x.n), R(j + 1) == RF(R(j), x.IN(j))), patterns=[x.IN(j)]))
        x.total, x.EXP, x.avail, x.state = z3.IntVal(1), lambda m: R(x.n), [lambda k: z3.IntVal(0)], [R]
        ex.handlers['user_reduce::operator()'] = lambda ex, st, c: RF(zi(c.args[1]), zi(c.args[2]))
        return [pipe(x), fun(ex, st), init]
    stage(P, 'reduce', 'vf_pipe_reduce', p_reduce)

    def size(st, n):
        v = fresh_int(n)
        st.assume(z3.And(v >= 0, v < W64))
        return v

    def p_take(ex, st, x):
        default(x)
        T = size(st, 'take')
        x.total, x.EXP, x.avail, x.limits = z3.If(T < x.n, T, x.n), x.IN, [lambda k: k], [T]
        x.left = lambda s: T - zi(s.ghost['m'])
        x.may_read = lambda ex, st: ex.oblige(st, 'a value is asked for only if one more is to be emitted', zi(st.ghost['m']) < T)
        x.atend = lambda ex, s: ex.oblige(s, 'taking closes the input when it ends', z3.BoolVal(s.ghost['inclosed'] is True), where='exit')
        return [pipe(x), T]
    stage(P, 'take', 'vf_pipe_take', p_take)

    def p_skip(ex, st, x):
        default(x)
        S = size(st, 'skip')
        less = lambda k: z3.If(k > S, k - S, 0)
        x.total, x.EXP, x.avail, x.limits = less(x.n), lambda m: x.IN(S + m), [less, lambda k: z3.IntVal(0)], [S]
        x.left = lambda s: S - zi(s.ghost['read'])
        return [pipe(x), S]
    stage(P, 'skip', 'vf_pipe_skip', p_skip)

    def p_group(ex, st, x):
        default(x)
        x.C = size(st, 'group')
        st.assume(x.C < 2 ** 62)
        G = x.f('GRP', I, I)
        x.word(G)
        st.ghost['block'] = z3.IntVal(0)    # where the next group begins: C times m
        x.block = B = lambda s: zi(s.ghost['block'])
        x.emitted = lambda s: s.ghost.__setitem__('block', simp(B(s) + x.C))
        x.avail = []
        x.EXP = G

        def call(ex, st, c):
            q = stl.cont(ex, st, c.args[1])
            m = zi(st.ghost['m'])
            ex.oblige(st, 'a group has as many values as asked for', zi(q.hi) - zi(q.lo) == x.C)
            ex.oblige(st, 'a group is made of values of the input', B(st) + x.C <= zi(st.ghost['read']))
            i = z3.Int('i!g')
            ex.oblige(st, 'a group holds the next values of the input in order', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < x.C), q.arr[zi(q.lo) + i] == x.IN(B(st) + i))))
            return G(m)
        ex.handlers['user_group::operator()'] = call
        x.may_emit = lambda ex, st: ex.oblige(st, 'a group is emitted once it is complete', B(st) + x.C <= zi(st.ghost['read']))
        x.complete = lambda ex, s: z3.And(zb(s.ghost['ended']), x.n - B(s) < x.C, x.n >= B(s))
        return [pipe(x), fun(ex, st), x.C]
    stage(P, 'group', 'vf_pipe_group', p_group)

    def limit(st):
        v = fresh_int('max')
        st.assume(z3.And(v >= 0, v < 2 ** 32))
        return v

    def p_source(ex, st, x):
        default(x)
        x.total, x.EXP, x.avail = x.n, x.IN, [lambda k: k]

        def call(ex, st, c):
            ex.oblige(st, 'a source stops once the consumer has closed its output', z3.Not(zb(st.ghost['refused'])))
            ex.oblige(st, 'the source is not asked again after it ended', z3.Not(zb(st.ghost['ended'])))
            k = zi(st.ghost['read'])
            a, b = st.fork(), st
            a.assume(k < x.n)
            a.ghost['read'] = simp(k + 1)
            b.assume(k >= x.n)
            b.ghost['ended'] = z3.BoolVal(True)
            v = fresh_int('none')
            b.assume(z3.And(v >= 0, v < W64))
            return Results([(a, [x.IN(k), 1]), (b, [v, 0])])
        ex.handlers['user_source::operator()'] = call
        return [fun(ex, st), limit(st)]
    stage(P, 'source (function)', 'vf_pipe_source', p_source)

    def p_range(ex, st, x):
        default(x)
        a0 = z3.Int('first')
        st.assume(z3.And(a0 >= 0, a0 < 2 ** 62))
        x.total, x.EXP, x.next = x.n, lambda m: x.IN(a0 + m), [lambda m: a0 + m]
        at = lambda ex, st, p: zi(ex.load(st, p, ('int', 64), ex.mods[0]))
        a, b = ex.new_obj(st, 'begin', 8, 'param'), ex.new_obj(st, 'end', 8, 'param')
        ex.store_cell(st, Ptr(a.id, 0), a0, 8)
        ex.store_cell(st, Ptr(b.id, 0), a0 + x.n, 8)
        H = ex.handlers

        def deref(ex, st, c):
            t = at(ex, st, c.args[0])
            ex.oblige(st, 'only what lies between the two iterators is read', z3.And(a0 <= t, t < a0 + x.n))
            return x.IN(t)
        H['user_iter::operator*'] = deref

        def inc(ex, st, c):
            p = ex.resolve_sym(st, c.args[0])
            t = at(ex, st, p)
            ex.oblige(st, 'an iterator is not moved beyond the end', z3.And(a0 <= t, t < a0 + x.n))
            ex.store(st, p, simp(t + 1), ('int', 64), ex.mods[0])
            return p
        H['user_iter::operator++'] = inc
        H['user_iter::operator!='] = lambda ex, st, c: at(ex, st, c.args[0]) != at(ex, st, c.args[1])
        return [Ptr(a.id, 0), Ptr(b.id, 0), limit(st)]
    stage(P, 'source (iterators)', 'vf_pipe_range', p_range)

    def p_count(ex, st, x):
        default(x)
        o = []
        for n in ('begin', 'end', 'inc'):
            v = size(st, n)
            b = ex.new_obj(st, n, 8, 'param')
            ex.store_cell(st, Ptr(b.id, 0), v, 8)
            o.append((v, b))
        E = x.f('E', I, I)
        x.word(E)
        j = z3.Int('j!e')
        st.assume(E(0) == o[0][0])
        st.assume(z3.ForAll([j], z3.Implies(j >= 0, E(j + 1) == (E(j) + o[2][0]) % W64), patterns=[E(j)]))
        x.EXP, x.next = E, [E]
        x.may_emit = lambda ex, st: ex.oblige(st, 'the end itself is not emitted', E(zi(st.ghost['m'])) != o[1][0])
        x.complete = lambda ex, s: E(zi(s.ghost['m'])) == o[1][0]
        return [Ptr(b.id, 0) for _, b in o] + [limit(st)]
    stage(P, 'source (arithmetic)', 'vf_pipe_count', p_count)

    def values(ex, st, x, o):
        q = stl.fresh_seq(ex, st, stl.codec_of(ex, 'long'), 'vector')
        st.assume(zi(q.hi) - zi(q.lo) == x.n)
        x.total, x.EXP = x.n, lambda m: q.arr[zi(q.lo) + m]
        return q

    def p_list(ex, st, x):
        default(x)
        o = ex.new_obj(st, 'collection', 24, 'param')
        stl.put(ex, st, Ptr(o.id, 0), values(ex, st, x, o), raw=True)

        def leave(ex, s):
            # the collection given may be gone by the time the stage runs
            s.cells(o.id, True).pop(0, None)
        x.leave = leave
        return [Ptr(o.id, 0), limit(st)]
    stage(P, 'source (collection)', 'vf_pipe_list', p_list)

    def p_init(ex, st, x):
        default(x)
        o = ex.new_obj(st, 'list', 16, 'param')
        a = ex.new_obj(st, 'values of the list', 8, 'param')
        q = values(ex, st, x, o)
        ex.store_cell(st, Ptr(o.id, 0), Ptr(a.id, 0), 8)
        ex.store_cell(st, Ptr(o.id, 8), x.n, 8)
        st.ghost['gone'] = False

        def walk(ex, st, c):
            ex.oblige(st, 'the values given are used only while they exist', z3.BoolVal(st.ghost['gone'] is False))
            if st.ghost['gone']:
                return END
            raise Unsupported('walking over a list')
        H = ex.handlers
        H['std::initializer_list::begin'] = H['std::initializer_list::end'] = walk

        def vec(ex, st, c):
            if 'initializer_list' not in c.argtypes:
                return was(ex, st, c)
            p = ex.resolve_sym(st, c.args[1])
            if not (isinstance(p, Ptr) and p.obj == a.id) or simp(zi(c.args[2]) == x.n) is not True:
                raise Unsupported('vector of a list')
            ex.oblige(st, 'the values given are used only while they exist', z3.BoolVal(st.ghost['gone'] is False))
            stl.put(ex, st, c.args[0], q.with_())
        was = H['std::vector::vector']
        H['std::vector::vector'] = vec
        x.leave = lambda ex, s: s.ghost.__setitem__('gone', True)
        return [Ptr(o.id, 0), limit(st)]
    stage(P, 'source (list)', 'vf_pipe_init', p_init)
