"""Ordered maps (trusted contract): which keys are present and what is stored under each.  Iterators are keys, the end is
above all of them."""
import re
import z3
from values import *
import stl
from stl import newver, this_ret, ret_it, get_it, split_targs
from execu import INLINE, Results, NOVAL

END_KEY = 2 ** 65


class Obj:
    """an object of a library class, known by its value only"""
    kind = 'obj'
    __slots__ = ('t', 'ver')

    def __init__(self, t):
        self.t, self.ver = t, newver()

    def same(self, o):
        return isinstance(o, Obj) and veq(self.t, o.t)

    def equal(self, o):
        return zi(self.t) == zi(o.t)

    def havoc(self, ex, st):
        return Obj(fresh_int('obj'))

    def __repr__(self):
        return 'Obj(%s)' % (self.t,)


class MapV:
    kind = 'map'
    __slots__ = ('kt', 'keys', 'val', 'n', 'ver')

    def __init__(self, kt, keys, val, n):
        self.kt, self.keys, self.val, self.n, self.ver = kt, keys, val, n, newver()

    def same(self, o):
        return isinstance(o, MapV) and self.keys.eq(o.keys) and self.val.eq(o.val) and veq(self.n, o.n)

    def equal(self, o):
        if self.same(o):
            return z3.BoolVal(True)
        k = z3.Int('k!m')
        return z3.And(z3.ForAll([k], z3.And(self.keys[k] == o.keys[k], z3.Implies(self.keys[k], self.val[k] == o.val[k])), patterns=[self.keys[k]]), zi(self.n) == zi(o.n))

    def has(self, k):
        return z3.Select(self.keys, zi(k))

    def at(self, k):
        return z3.Select(self.val, zi(k))

    def havoc(self, ex, st):
        return fresh_map(st, self.kt)

    # memory access to a stored pair: the key, then the value object
    def load_elem(self, ex, st, p, size, rt):
        ex.oblige(st, 'an entry of a map is used only while it exists', self.has(p.idx))
        if p.off == 0:
            v = simp(zi(p.idx) % 2 ** (8 * size))
            return v
        if p.off == 8 and size == 8 and self.kt[2]:
            return ex.to_ptr(st, self.at(p.idx), self.kt[2])
        raise Unsupported('inside of a map entry')

    def store_elem(self, ex, st, p, v, size, rt):
        if p.off == 8 and size == 8 and self.kt[2]:
            stl.put(ex, st, Ptr(*p.c), with_key(st, self, zi(p.idx), ex.pterm(st, v)))
            return
        raise Unsupported('store into a map entry')

    def __repr__(self):
        return 'MapV'


def facts(st, m):
    k = z3.Int('k!mf')
    st.assume(zi(m.n) >= 0)
    st.assume(z3.ForAll([k], z3.Implies(m.keys[k], z3.And(zi(m.n) > 0, m.val[k] >= 0)), patterns=[m.keys[k]]))
    w = fresh_int('key')
    st.assume(z3.Implies(zi(m.n) > 0, m.keys[w]))
    return m


def fresh_map(st, kt):
    k = z3.Int('k!fm')
    m = MapV(kt, z3.Const(fresh_name('keys'), z3.ArraySort(z3.IntSort(), z3.BoolSort())), z3.Const(fresh_name('vals'), z3.ArraySort(z3.IntSort(), z3.IntSort())), fresh_int('n'))
    lo, hi = kt[0], kt[1]
    st.assume(z3.ForAll([k], z3.Implies(m.keys[k], z3.And(k >= lo, k < hi)), patterns=[m.keys[k]]))
    return facts(st, m)


def key_type(c):
    ts = split_targs(c.targs[0])
    k = kt_of(ts[0])
    if len(ts) > 1 and ts[1].strip().startswith('std::shared_ptr'):
        return (k[0], k[1], 'shared', k[3])
    return k


def kt_of(t):
    t = t.strip()
    if t in ('int', 'long', 'long long', 'short'):
        b = stl.INT_BITS[t]
        return (-2 ** (b - 1), 2 ** (b - 1), None, b)
    if t in stl.INT_BITS:
        return (0, 2 ** stl.INT_BITS[t], None, stl.INT_BITS[t])
    if 'basic_string' in t:
        return (-2 ** 70, 2 ** 64, None, 'str')
    raise Unsupported('map key ' + t)


def read_key(ex, st, kt, p):
    if kt[3] == 'str':
        import prio
        return zi(prio.str_at(ex, st, p).t)
    v = zi(ex.load(st, p, ('int', kt[3]), ex.mods[0]))
    return z3.If(v >= kt[1], v - 2 ** kt[3], v) if kt[0] < 0 else v


def map_at(ex, st, c, p, write=False):
    m = stl.cont(ex, st, p, write, lambda: fresh_map(st, key_type(c)))
    if not isinstance(m, MapV):
        raise Unsupported('expected a map')
    return m


def put(ex, st, p, m):
    stl.put(ex, st, ex.resolve_sym(st, p), m)


def ckey(ex, st, p):
    return stl.key(ex.resolve_sym(st, p))


def named(st, t):
    if is_num(t) or (z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED):
        return t
    k = fresh_int('key')
    st.assume(k == t)
    return k


def with_key(st, m, k, v):
    h = m.has(k)
    return facts(st, MapV(m.kt, z3.Store(m.keys, k, z3.BoolVal(True)), z3.Store(m.val, k, zi(v)), simp(z3.If(h, zi(m.n), zi(m.n) + 1))))


def without_key(st, m, k):
    h = m.has(k)
    return facts(st, MapV(m.kt, z3.Store(m.keys, k, z3.BoolVal(False)), m.val, simp(z3.If(h, zi(m.n) - 1, zi(m.n)))))


def bound(ex, st, m, k, strict):
    """the first key not below (strict: above) k"""
    r = fresh_int('it')
    q = z3.Int('k!b')
    ok = (lambda x: x > k) if strict else (lambda x: x >= k)
    if k is None:
        ok = lambda x: z3.BoolVal(True)
    st.assume(z3.Or(r == END_KEY, z3.And(m.keys[r], ok(r))))
    st.assume(z3.ForAll([q], z3.Implies(z3.And(m.keys[q], ok(q)), q >= r), patterns=[m.keys[q]]))
    st.assume(z3.And(r <= END_KEY, r >= m.kt[0]))
    return r


def h_ctor(ex, st, c):
    sret, a = this_ret(c)
    if len(a) == 1:
        kt = key_type(c)
        put(ex, st, a[0], facts(st, MapV(kt, z3.K(z3.IntSort(), z3.BoolVal(False)), z3.K(z3.IntSort(), z3.IntVal(0)), 0)))
        return
    if len(a) == 2 and re.match(r'\(?\s*std::map<', c.argtypes):
        m = map_at(ex, st, c, a[1])
        put(ex, st, a[0], MapV(m.kt, m.keys, m.val, m.n))
        return
    raise Unsupported('map constructor')


def h_assign(ex, st, c):
    m = map_at(ex, st, c, c.args[1])
    put(ex, st, c.args[0], MapV(m.kt, m.keys, m.val, m.n))
    return c.args[0]


def h_begin(ex, st, c):
    sret, a = this_ret(c)
    m = map_at(ex, st, c, a[0])
    return ret_it(ex, st, c, sret, It(ckey(ex, st, a[0]), bound(ex, st, m, None, False), m.ver))


def h_end(ex, st, c):
    sret, a = this_ret(c)
    m = map_at(ex, st, c, a[0])
    return ret_it(ex, st, c, sret, It(ckey(ex, st, a[0]), END_KEY, m.ver))


def h_bound(strict):
    def f(ex, st, c):
        sret, a = this_ret(c)
        m = map_at(ex, st, c, a[0])
        return ret_it(ex, st, c, sret, It(ckey(ex, st, a[0]), bound(ex, st, m, read_key(ex, st, m.kt, a[1]), strict), m.ver))
    return f


def h_find(ex, st, c):
    sret, a = this_ret(c)
    m = map_at(ex, st, c, a[0])
    k = read_key(ex, st, m.kt, a[1])
    r = fresh_int('it')
    st.assume(r == z3.If(m.has(k), k, END_KEY))
    return ret_it(ex, st, c, sret, It(ckey(ex, st, a[0]), r, m.ver))


def h_contains(ex, st, c):
    m = map_at(ex, st, c, c.args[0])
    r = m.has(read_key(ex, st, m.kt, c.args[1]))
    return r if c.q.endswith('contains') else zi(r)


def h_size(ex, st, c):
    return map_at(ex, st, c, c.args[0]).n


def h_empty(ex, st, c):
    return simp(zi(map_at(ex, st, c, c.args[0]).n) == 0)


def h_clear(ex, st, c):
    m = map_at(ex, st, c, c.args[0], True)
    put(ex, st, c.args[0], facts(st, MapV(m.kt, z3.K(z3.IntSort(), z3.BoolVal(False)), m.val, 0)))


def h_erase(ex, st, c):
    sret, a = this_ret(c)
    m = map_at(ex, st, c, a[0], True)
    if 'iterator' in c.argtypes:
        it = get_it(ex, st, a[1])
        ex.oblige(st, 'only an existing element is erased', m.has(it.idx))
        nx = bound(ex, st, m, zi(it.idx), True)
        n = without_key(st, m, zi(it.idx))
        put(ex, st, a[0], n)
        return ret_it(ex, st, c, sret, It(it.c, nx, n.ver))
    k = named(st, read_key(ex, st, m.kt, a[1]))
    put(ex, st, a[0], without_key(st, m, k))
    return zi(m.has(k))


def h_index(ex, st, c):
    m = map_at(ex, st, c, c.args[0], True)
    k = named(st, read_key(ex, st, m.kt, c.args[1]))
    v = z3.If(m.has(k), m.at(k), 0)
    n = with_key(st, m, k, v)
    put(ex, st, c.args[0], n)
    return Elem(ckey(ex, st, c.args[0]), k, 8, n.ver)


def h_at(ex, st, c):
    m = map_at(ex, st, c, c.args[0])
    k = named(st, read_key(ex, st, m.kt, c.args[1]))
    ex.oblige(st, 'an entry that is looked up exists', m.has(k))
    return Elem(ckey(ex, st, c.args[0]), k, 8, m.ver)


def h_emplace(assign):
    """emplace(key, value), insert_or_assign(key, value), try_emplace(key, value)"""
    def f(ex, st, c):
        sret, a = this_ret(c)
        if len(a) != 3:
            raise Unsupported('map insertion')
        m = map_at(ex, st, c, a[0], True)
        k = named(st, read_key(ex, st, m.kt, a[1]))
        v = obj_at(ex, st, a[2]).t
        h = m.has(k)
        put(ex, st, a[0], with_key(st, m, k, v if assign else z3.If(h, m.at(k), zi(v))))
        ck = ckey(ex, st, a[0])
        it = It(ck, k, m.ver)
        if sret is not None:
            ret_it(ex, st, c, sret, it)
            ex.store_cell(st, ex.padd(sret, 8), zi(z3.Not(h)), 1)
            return None
        return [it, simp(z3.Not(h))]
    return f


def h_it_deref(ex, st, c):
    it = get_it(ex, st, c.args[0])
    return Elem(it.c, it.idx, 0, it.ver)


def is_map_it(ex, st, p):
    try:
        return isinstance(get_it(ex, st, p), It)
    except (Unsupported, KeyError):
        return False


def h_it_step(prev):
    def f(ex, st, c):
        sret, a = this_ret(c)
        if not is_map_it(ex, st, a[0]):
            return prev(ex, st, c)
        if '--' in c.q:
            raise Unsupported('map iterator backwards')
        it = get_it(ex, st, a[0])
        m = stl.get_cont(st, it.c)
        ex.check_access(st, Ptr(*it.c), 1, False, None)
        ex.oblige(st, 'an iterator moves on only from an existing entry', m.has(it.idx))
        n = It(it.c, bound(ex, st, m, zi(it.idx), True), m.ver)
        stl.set_it(ex, st, a[0], n)
        if len(a) > 1:
            return ret_it(ex, st, c, sret, it)
        return a[0]
    return f


def h_it_copy(ex, st, c):
    sret, a = this_ret(c)
    if len(a) == 1:
        return None
    if not is_map_it(ex, st, a[1]):
        return INLINE
    return stl.h_it_copy(ex, st, c)


# ------------------------------------------------------------------ objects known by value
def obj_at(ex, st, p, make=True):
    p = ex.resolve_sym(st, p)
    if isinstance(p, Elem):
        m = stl.get_cont(st, p.c)
        ex.check_access(st, Ptr(*p.c), 1, False, None)
        if not isinstance(m, MapV) or p.off != 8:
            raise Unsupported('object in a container')
        ex.oblige(st, 'an entry of a map is used only while it exists', m.has(p.idx))
        return Obj(m.at(p.idx))
    v = stl.cont(ex, st, p, False, (lambda: Obj(fresh_int('obj'))) if make else None)
    if not isinstance(v, Obj):
        raise Unsupported('expected an object known by value')
    return v


def put_obj(ex, st, p, t):
    p = ex.resolve_sym(st, p)
    if isinstance(p, Elem):
        m = stl.get_cont(st, p.c)
        if not isinstance(m, MapV) or p.off != 8:
            raise Unsupported('object in a container')
        ex.check_access(st, Ptr(*p.c), 1, True, None)
        ex.oblige(st, 'an entry of a map is used only while it exists', m.has(p.idx))
        n = MapV(m.kt, m.keys, z3.Store(m.val, zi(p.idx), zi(t)), m.n)
        n.ver = m.ver
        stl.put(ex, st, Ptr(*p.c), n)
        return
    stl.put(ex, st, p, Obj(t))


def functions(ex, call):
    """std::function objects as opaque values; call(ex, st, c, term) is their call operator"""
    H = ex.handlers
    F = 'std::function::'

    def ctor(ex, st, c):
        sret, a = this_ret(c)
        if len(a) == 1 or 'nullptr' in c.argtypes:
            put_obj(ex, st, a[0], 0)
        elif re.match(r'\(?\s*std::function<', c.argtypes):
            t = obj_at(ex, st, a[1]).t
            put_obj(ex, st, a[0], t)
        else:
            raise Unsupported('function from a callable')

    def assign(ex, st, c):
        if not re.match(r'\(?\s*std::function<', c.argtypes):
            raise Unsupported('function from a callable')
        t = obj_at(ex, st, c.args[1]).t
        put_obj(ex, st, c.args[0], t)
        if '&&' in c.argtypes:
            put_obj(ex, st, c.args[1], fresh_int('moved'))
        return c.args[0]

    def swap(ex, st, c):
        a, b = obj_at(ex, st, c.args[0]).t, obj_at(ex, st, c.args[1]).t
        put_obj(ex, st, c.args[0], b)
        put_obj(ex, st, c.args[1], a)
    H[F + 'function'] = ctor
    H[F + '~function'] = lambda ex, st, c: None
    H[F + 'operator='] = assign
    H[F + 'swap'] = swap
    H[F + 'operator bool'] = lambda ex, st, c: zi(obj_at(ex, st, c.args[0]).t) != 0
    H[F + 'operator()'] = lambda ex, st, c: call(ex, st, c, obj_at(ex, st, this_ret(c)[1][0]).t)
    H['std::_Function_base::_M_empty'] = lambda ex, st, c: zi(obj_at(ex, st, c.args[0]).t) == 0


def install(ex):
    H = ex.handlers
    for n, h in (('map', h_ctor), ('~map', lambda ex, st, c: None), ('operator=', h_assign), ('begin', h_begin), ('cbegin', h_begin), ('end', h_end), ('cend', h_end),
                 ('upper_bound', h_bound(True)), ('lower_bound', h_bound(False)), ('find', h_find), ('contains', h_contains), ('count', h_contains), ('size', h_size),
                 ('empty', h_empty), ('clear', h_clear), ('erase', h_erase), ('operator[]', h_index), ('at', h_at), ('emplace', h_emplace(False)),
                 ('try_emplace', h_emplace(False)), ('insert_or_assign', h_emplace(True))):
        H['std::map::' + n] = h
    for k in ('_Rb_tree_const_iterator', '_Rb_tree_iterator'):
        q = 'std::%s::' % k
        H[q + 'operator++'] = h_it_step(H.get(q + 'operator++', stl.h_setit_inc))
        H[q + 'operator*'] = h_it_deref
        H[q + 'operator->'] = h_it_deref
        H[q + k] = h_it_copy
