"""Contracts of type-erased values, coroutine results and coroutine-local variables.

What a value holds is nothing, or a value of one type; the contracts are round trips from every such state through every
operation, read back under every type of the instances."""
import z3
from values import *
import conc, stl, maps, shared, prio
from llparse import demangle, simplify

SRCS = []
TUS = ['values.cpp']
TYPES = {'long': 8, 'int': 4, 'thing': None}
DEFAULT = z3.Int('a default-created thing')


def install(ex):
    maps.install(ex)
    shared.install(ex)
    prio.strings(ex)
    H = ex.handlers

    def thing(ex, st, c):
        a = stl.this_ret(c)[1]
        t = DEFAULT if len(a) == 1 else thing_at(ex, st, a[1])
        stl.put(ex, st, ex.resolve_sym(st, a[0]), maps.Obj(t))
        return a[0] if 'operator=' in c.q else None
    H['vf_thing::vf_thing'] = thing
    H['vf_thing::operator='] = thing
    H['vf_thing::~vf_thing'] = lambda ex, st, c: None


def thing_at(ex, st, p):
    v = stl.cont(ex, st, ex.resolve_sym(st, p), False, lambda: maps.Obj(fresh_int('thing')))
    if not isinstance(v, maps.Obj):
        raise Unsupported('expected a thing')
    return v.t


def value(ex, st, T):
    """an arbitrary value of the type, in memory"""
    o = ex.new_obj(st, 'value', 8, 'param')
    x = fresh_int('value')
    if T == 'thing':
        stl.put(ex, st, Ptr(o.id, 0), maps.Obj(x), raw=True)
    else:
        st.assume(z3.And(x >= 0, x < 2 ** (8 * TYPES[T])))
        st.cells(o.id, True)[0] = (TYPES[T], x)
    return Ptr(o.id, 0), x


def read(ex, st, T, p):
    p = shared.settle(ex, st, p)
    if T == 'thing':
        return zi(thing_at(ex, st, p))
    return zi(ex.load(st, p, ('int', 8 * TYPES[T]), ex.mods[0]))


def one(ex, outs, what):
    r = []
    for s, kind, v in outs:
        ex.oblige(s, what + ' does not fail', z3.BoolVal(kind == 'ret'))
        if kind == 'ret':
            r.append((s, v))
    return r


def holding(ex, st, P, what):
    """a value that holds nothing, or a value of a type: (state, address, value)"""
    a = ex.new_obj(st, 'any', P.size('any'), 'param')
    p = Ptr(a.id, 0)
    if what is None:
        return [(s, p, None) for s, v in one(ex, ex.run_function(st, 'vf_empty', [p]), 'creating an empty value')]
    q, x = value(ex, st, what)
    return [(s, p, x) for s, v in one(ex, ex.run_function(st, 'vf_make_' + what, [p, q]), 'creating a value')]


def check(ex, st, P, p, held, x, cov):
    """reading under every type, directly and as the result of a coroutine"""
    for T in TYPES:
        for how in ('read', 'result'):
            s0 = st.fork()
            if how == 'read':
                outs = ex.run_function(s0, 'vf_read_' + T, [p])
            else:
                to = ex.new_obj(s0, 'to', 8, 'param')
                outs = ex.run_function(s0, 'vf_result_' + T, [p, Ptr(to.id, 0)])
            nm = 'a value' if how == 'read' else 'a result'
            for s, kind, v in outs:
                if held != T:
                    ex.oblige(s, nm + ' read under another type is reported', z3.BoolVal(kind == 'throw'))
                    continue
                ex.oblige(s, nm + ' is readable under its own type', z3.BoolVal(kind == 'ret'))
                if kind == 'ret':
                    cov[T] = True
                    ex.oblige(s, nm + ' comes back unchanged', read(ex, s, T, v if how == 'read' else Ptr(to.id, 0)) == x)


def run(P):
    def anyval(prior):
        def body(ex):
            install(ex)
            cov = {}
            st0 = conc.initial(ex)
            for st, p, x in holding(ex, st0, P, prior):
                check(ex, st, P, p, prior, x, cov)
                for new in [None] + list(TYPES):
                    if new is not None:
                        s = st.fork()
                        q, y = value(ex, s, new)
                        for s1, _ in one(ex, ex.run_function(s, 'vf_store_' + new, [p, q]), 'storing a value'):
                            check(ex, s1, P, p, new, y, cov)
                    for s, b, y in holding(ex, st.fork(), P, new):
                        for s1, _ in one(ex, ex.run_function(s, 'vf_assign', [p, b]), 'assigning a value'):
                            check(ex, s1, P, p, new, y, cov)
                            check(ex, s1, P, b, new, y, cov)
                a = ex.new_obj(st, 'copy', P.size('any'), 'param')
                for s1, _ in one(ex, ex.run_function(st, 'vf_copy', [Ptr(a.id, 0), p]), 'copying a value'):
                    check(ex, s1, P, Ptr(a.id, 0), prior, x, cov)
                    check(ex, s1, P, p, prior, x, cov)
                    # storing in a copy leaves the original alone
                    q, y = value(ex, s1, 'int')
                    for s2, _ in one(ex, ex.run_function(s1, 'vf_store_int', [Ptr(a.id, 0), q]), 'storing in a copy'):
                        check(ex, s2, P, p, prior, x, cov)
            return {'values of %s come back' % T: cov.get(T, False) for T in TYPES}
        return body

    for prior in [None] + list(TYPES):
        P.fn('co_any holding %s' % (prior or 'nothing'), anyval(prior))

    def local(T):
        def body(ex):
            install(ex)
            st = conc.initial(ex)
            c = ex.new_obj(st, 'ctx', P.size('vctx'), 'param')
            cp = Ptr(c.id, 0)
            kt = (-2 ** 70, 2 ** 64, 'shared', 'str')
            m = maps.fresh_map(st, kt)
            stl.put(ex, st, Ptr(c.id, P.off('ctx_locals')), m, raw=True)
            k, j = z3.Ints('k!a j!a')
            # distinct variables are distinct objects
            st.assume(z3.ForAll([k, j], z3.Implies(z3.And(m.keys[k], m.keys[j], k != j), m.val[k] != m.val[j]), patterns=[mpat(m.keys[k], m.keys[j])]))
            st.assume(z3.ForAll([k], z3.Implies(m.keys[k], m.val[k] > 0), patterns=[m.keys[k]]))
            names = []
            for i in range(2):
                o = ex.new_obj(st, 'name%d' % i, 32, 'param')
                t = fresh_int('name')
                st.assume(z3.And(t >= 0, t < 2 ** 64))
                stl.put(ex, st, Ptr(o.id, 0), prio.Str(t), raw=True)
                names.append((Ptr(o.id, 0), t))
            (n1, t1), (n2, t2) = names
            # a name is used with one type (otherwise there is no such variable to give)
            tid = want(ex, T)
            ex.assumptions.add('a coroutine-local variable is used under one type only')
            for t in (t1, t2):
                st.assume(z3.Implies(m.keys[t], shared.klass(m.val[t]) == tid))
            cov = {'first use': False, 'later use': False, 'another variable': False}

            def call(s, n):
                return one(ex, ex.run_function(s, 'vf_local_' + T, [cp, n]), 'using a variable')
            for s1, v1 in call(st, n1):
                if ex.reachable(s1, z3.Not(m.keys[t1])):
                    cov['first use'] = True
                    f = s1.fork()
                    f.assume(z3.Not(m.keys[t1]))
                    ex.oblige(f, 'a variable is default-created on first use', read(ex, f, T, v1) == (DEFAULT if T == 'thing' else 0))
                    if not ex.reachable(s1, m.keys[t1]):
                        s1 = f
                    else:
                        raise Unsupported('first and later use on one path')
                a1 = ex.pterm(s1, v1)
                for s2, v2 in call(s1.fork(), n1):
                    cov['later use'] = True
                    ex.oblige(s2, 'a variable is the same whenever it is used', ex.pterm(s2, v2) == a1)
                s2 = s1.fork()
                q, x = value(ex, s2, T)
                set_ = fresh_value(ex, s2, T, v1, x)
                for s3, v3 in call(s2, n2):
                    s3.assume(t1 != t2)
                    if not ex.reachable(s3):
                        continue
                    cov['another variable'] = True
                    ex.oblige(s3, 'variables of different names are different', ex.pterm(s3, v3) != a1)
                    for s4, v4 in call(s3, n1):
                        ex.oblige(s4, 'a variable is the same after others were used', ex.pterm(s4, v4) == a1)
                        if set_:
                            ex.oblige(s4, 'a variable keeps its value', read(ex, s4, T, v4) == x)
            return cov
        return body

    def fresh_value(ex, s, T, p, x):
        if T != 'thing':
            ex.store(s, p, x, ('int', 8 * TYPES[T]), ex.mods[0])
        elif isinstance(p, Ptr):
            stl.put(ex, s, p, maps.Obj(x))
        else:
            return False
        return True

    def want(ex, T):
        fn = 'vf_local_' + T
        for n in shared.callees(ex, fn, r'cocpp::co_ctx::local_storage$'):
            for d in calls(ex, n):
                if simplify(demangle(d))[0] == 'std::dynamic_pointer_cast':
                    return ex.typeid(shared.target(ex, d))
        return ex.typeid('none')

    def calls(ex, n):
        for b in ex.funcs[n].parse().blocks.values():
            for i in b.ins:
                if i.op in ('call', 'invoke') and i.a['callee'][0] == 'global':
                    yield i.a['callee'][1]

    for T in TYPES:
        P.fn('co_ctx::local_storage<%s>' % T, local(T))
