"""Shared pointers (trusted contract): a shared pointer is the address it holds; the object lives as long as it is referred
to.  make_shared creates an object and runs the constructor the library would run; a dynamic cast looks at the class the
constructor left in the object."""
import re
import z3
from values import *
import stl
from stl import this_ret
from execu import INLINE, Results, NOVAL, Throw
from llparse import demangle, simplify

PT = ('ptr',)
klass = z3.Function('class of', z3.IntSort(), z3.IntSort())


def get(ex, st, p):
    return settle(ex, st, ex.load(st, p, PT, ex.mods[0]))


def settle(ex, st, v):
    """a pointer that can only be one of the objects made here"""
    if isinstance(v, Sym) and not is_num(simp(v.term)):
        for o in st.objs.values():
            if o.name.startswith('shared ') and ex.implied(st.pc, v.term == o.base):
                return Ptr(o.id, v.off)
    return v


def put(ex, st, p, v):
    p = ex.resolve_sym(st, p)
    ex.store(st, p, v, PT, ex.mods[0])
    if isinstance(p, Ptr):
        ex.store_cell(st, ex.padd(p, 8), NULL, 8)


def callees(ex, name, rx):
    """functions below a library function whose qualified name matches, nearest first"""
    seen, w, out = set(), [name], []
    while w:
        n = w.pop(0)
        if n in seen or n not in ex.funcs:
            continue
        seen.add(n)
        q = simplify(demangle(n))[0]
        if n != name and re.match(rx, q):
            out.append(n)
            continue
        if n != name and not re.match(r'(std|__gnu_cxx)::', q):
            continue
        f = ex.funcs[n].parse()
        for b in f.blocks.values():
            for i in b.ins:
                if i.op in ('call', 'invoke') and i.a['callee'][0] == 'global':
                    w.append(i.a['callee'][1])
    return out


def h_ctor(ex, st, c):
    sret, a = this_ret(c)
    t = c.argtypes
    if len(a) == 1 or 'nullptr_t' in t or 'decltype(nullptr)' in t:
        put(ex, st, a[0], NULL)
        return
    if 'weak_ptr' in t or 'unique_ptr' in t or len(a) != 2:
        raise Unsupported('shared_ptr constructor ' + t)
    if 'shared_ptr' in t:
        v = get(ex, st, a[1])
        if '&&' in t:
            put(ex, st, a[1], NULL)
        put(ex, st, a[0], v)
        return
    v = ex.resolve_sym(st, a[1])
    if isinstance(v, Ptr) and v.off == 0 and st.objs[v.obj].kind == 'heap' and not st.objs[v.obj].name.startswith('shared '):
        o = st.objs[v.obj]
        o.name = 'shared ' + o.name
        adopt(ex, st, o)
    put(ex, st, a[0], a[1])


def h_assign(ex, st, c):
    a = c.args
    v = get(ex, st, a[1])
    if '&&' in c.argtypes:
        put(ex, st, a[1], NULL)
    put(ex, st, a[0], v)
    return a[0]


def h_reset(ex, st, c):
    put(ex, st, c.args[0], c.args[1] if len(c.args) > 1 else NULL)


def h_swap(ex, st, c):
    x, y = get(ex, st, c.args[0]), get(ex, st, c.args[1])
    put(ex, st, c.args[0], y)
    put(ex, st, c.args[1], x)


def fresh_facts(ex, st, o):
    """no pointer stored before refers to the new object"""
    import maps
    k = z3.Int('k!ff')
    for cells in st.mem.values():
        for sz, v in (cells or {}).values():
            if isinstance(v, maps.MapV) and v.kt[2]:
                st.assume(z3.ForAll([k], z3.Implies(v.keys[k], v.val[k] != o.base), patterns=[v.keys[k]]))


def known_class(ex, st, o):
    try:
        st.assume(klass(z3.IntVal(o.base)) == ex.typeid(vclass(ex, st, Ptr(o.id, 0))))
    except Unsupported:
        pass


def adopt(ex, st, o):
    fresh_facts(ex, st, o)
    known_class(ex, st, o)


def make_shared(ex, st, c):
    sret, a = this_ret(c)
    fns = [n for n in callees(ex, c.name, r'std::(construct_at|_Construct)$|.*allocator::construct$') if len(ex.funcs[n].parse().params) == len(a) + 1]
    if not fns:
        raise Unsupported('construction in ' + c.name)
    o = ex.new_obj(st, 'shared ' + (c.targs[0] if c.targs else ''), 4096, 'heap')
    fresh_facts(ex, st, o)

    def done(ex, s, kind, v, sink, work):
        if kind == 'throw':
            return ex.unwind(s, v, sink, work)
        put(ex, s, sret, Ptr(o.id, 0))
        known_class(ex, s, o)
        return ex.finish_call(s, None, sink, work)
    return ex.call_closure(st, fns[0], [Ptr(o.id, 0)] + list(a), done)


def vclass(ex, st, p):
    """type information symbol of the class an object was constructed as"""
    v = ex.load(st, p, PT, ex.mods[0])
    g = ex.global_of(st, v)
    if not g or not g.startswith('_ZTV'):
        raise Unsupported('class of an object')
    return '_ZTI' + g[4:]


def target(ex, name):
    """the class a dynamic cast asks for"""
    for b in ex.funcs[name].parse().blocks.values():
        for i in b.ins:
            if i.op in ('call', 'invoke') and i.a['callee'] == ('global', '__dynamic_cast'):
                return i.a['args'][2][1][1]
    raise Unsupported('target of a dynamic cast')


def h_dyncast(ex, st, c):
    sret, a = this_ret(c)
    v = get(ex, st, a[0])
    want = target(ex, c.name)
    v = ex.resolve_sym(st, v) if not (isinstance(v, Sym) and as_py(simp(v.term + v.off)) == 0) else NULL
    if isinstance(v, Sym) and as_py(simp(v.term + v.off)) == 0:
        put(ex, st, sret, NULL)
        return
    if isinstance(v, Ptr):
        put(ex, st, sret, v if ex.exc_match(vclass(ex, st, v), want) else NULL)
        return
    t = ex.pterm(st, v)
    put(ex, st, sret, Sym(simp(z3.If(z3.And(t != 0, klass(t) == ex.typeid(want)), t, 0)), 0, v.tag))


def h_stcast(ex, st, c):
    sret, a = this_ret(c)
    put(ex, st, sret, get(ex, st, a[0]))


def install(ex):
    H = ex.handlers
    for k in ('std::shared_ptr::', 'std::__shared_ptr::'):
        n = k.split('::')[1]
        H[k + n] = h_ctor
        H[k + '~' + n] = lambda ex, st, c: None
        H[k + 'operator='] = h_assign
        H[k + 'reset'] = h_reset
        H[k + 'swap'] = h_swap
    H['std::make_shared'] = make_shared
    H['std::dynamic_pointer_cast'] = h_dyncast
    H['std::static_pointer_cast'] = h_stcast
    ex.assumptions.add('shared pointers: an object is kept while a shared pointer refers to it (reference counts are not modelled)')
