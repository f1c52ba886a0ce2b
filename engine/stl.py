"""Contracts of the standard library containers used by the code (trusted)."""
import re
import z3
from values import *
from execu import INLINE, END, Results, Throw, Exc, Call, NullDeref, NOVAL
from llparse import simplify, demangle

_ver = [0]


def newver():
    _ver[0] += 1
    return _ver[0]


# ------------------------------------------------------------------ element codecs
class Codec:
    """How one container element is represented as a logic term."""

    def __init__(self, kind, tag=None, bits=64, fields=None, sort=None, size=8, name=''):
        self.kind, self.tag, self.bits, self.fields, self.sort, self.size, self.name = kind, tag, bits, fields, sort, size, name

    def key(self, t):
        """what the ghost index of a sequence is keyed by"""
        if self.kind == 'struct':
            return self.field(t, KEY_FIELD[self.name])
        return t

    def field(self, t, off):
        for k, f in enumerate(self.fields):
            if f[0] == off:
                return self.sort.accessor(0, k)(t)
        raise Unsupported('no field at offset %s of %s' % (off, self.name))

    def mk(self, **offs):
        return self.sort.mk(*[zi(offs['f%d' % f[0]]) for f in self.fields])


KEY_FIELD = {}

_codecs = {}
PTR_TAGS = {'cocpp::co_ctx': 'ctx', 'cocpp::co_env': 'env'}


def ptr_codec(tag):
    return Codec('ptr', tag, 64, None, z3.IntSort(), 8, 'ptr:' + str(tag))


INT_BITS = {'long': 64, 'unsigned long': 64, 'int': 32, 'unsigned int': 32, 'char': 8, 'bool': 8, 'unsigned char': 8, 'long long': 64,
            'unsigned long long': 64, 'short': 16, 'unsigned short': 16}


def codec_of(ex, tstr):
    tstr = tstr.strip()
    if tstr in _codecs:
        return _codecs[tstr]
    c = None
    if tstr.endswith('*'):
        base = tstr.rstrip('* ').replace('const', '').strip()
        c = ptr_codec(PTR_TAGS.get(base, base))
    elif tstr in INT_BITS:
        c = Codec('int', None, INT_BITS[tstr], None, z3.IntSort(), INT_BITS[tstr] // 8, tstr)
    else:
        c = struct_codec(ex, tstr)
    _codecs[tstr] = c
    return c


def struct_codec(ex, tstr):
    for m in ex.mods:
        for pre in ('struct.', 'class.'):
            n = pre + tstr
            if n in m._rawtypes:
                leaves = m.leaves(('named', n))
                fs = []
                for off, lt in leaves:
                    sz = m.size_align(lt)[0]
                    fs.append((off, sz, lt))
                D = z3.Datatype('S_' + re.sub(r'\W', '_', tstr))
                D.declare('mk', *[('f%d' % off, z3.IntSort()) for off, sz, lt in fs])
                srt = D.create()
                return Codec('struct', None, 0, fs, srt, m.size_align(('named', n))[0], tstr)
    raise Unsupported('element type ' + tstr)


def encode(ex, st, cd, v):
    """term for a scalar element value"""
    if cd.kind == 'ptr':
        return ex.pterm(st, v)
    if cd.kind == 'int':
        if isinstance(v, (Undef, Opaque)):
            return fresh_int('undef')
        return zi(v)
    raise Unsupported('encode')


def decode(ex, st, cd, t):
    if cd.kind == 'ptr':
        r = ex.to_ptr(st, t, cd.tag)
        return r
    if cd.kind == 'int':
        t = simp(t)
        if not is_num(t):
            st.assume(z3.And(t >= 0, t < 2 ** cd.bits))
        return t
    raise Unsupported('decode')


def read_elem(ex, st, cd, p):
    """term of the element object stored at address p"""
    M = ex.mods[0]
    if cd.kind == 'ptr':
        return ex.pterm(st, ex.load(st, p, ('ptr',), M))
    if cd.kind == 'int':
        return encode(ex, st, cd, ex.load(st, p, ('int', cd.bits), M))
    ts = []
    for off, sz, lt in cd.fields:
        v = ex.load(st, ex.padd(p, off), lt, M)
        ts.append(ex.pterm(st, v) if lt[0] == 'ptr' else (fresh_int('u') if isinstance(v, (Undef, Opaque)) else zi(v)))
    return cd.sort.mk(*ts)


def write_elem(ex, st, cd, p, t):
    M = ex.mods[0]
    if cd.kind in ('ptr', 'int'):
        ex.store(st, p, decode(ex, st, cd, t), ('ptr',) if cd.kind == 'ptr' else ('int', cd.bits), M)
        return
    for k, (off, sz, lt) in enumerate(cd.fields):
        f = cd.sort.accessor(0, k)(t)
        v = ex.to_ptr(st, f, ptr_field_tag(cd, off)) if lt[0] == 'ptr' else simp(f)
        ex.store(st, ex.padd(p, off), v, lt, M)


def ptr_field_tag(cd, off):
    return FIELD_TAGS.get((cd.name, off))


FIELD_TAGS = {}


def elem_ok(cd, t):
    """range facts of an element term"""
    if cd.kind == 'ptr':
        return t >= 0
    if cd.kind == 'int':
        return z3.And(t >= 0, t < 2 ** cd.bits)
    fs = []
    for k, (off, sz, lt) in enumerate(cd.fields):
        f = cd.sort.accessor(0, k)(t)
        fs.append(f >= 0)
        if lt[0] == 'int':
            fs.append(f < 2 ** (8 * sz))
    return z3.And(fs)


# ------------------------------------------------------------------ sequences
class Seq:
    """elements arr[lo..hi)"""
    __slots__ = ('lo', 'hi', 'arr', 'cd', 'kind', 'ver', 'pos')

    def __init__(self, cd, lo, hi, arr, kind='deque', pos=None, ver=None):
        self.cd, self.lo, self.hi, self.arr, self.kind, self.pos = cd, lo, hi, arr, kind, pos
        self.ver = ver if ver is not None else newver()

    def same(self, o):
        return veq(self.lo, o.lo) and veq(self.hi, o.hi) and self.arr.eq(o.arr) and \
            (self.pos is None or self.pos.eq(o.pos))

    def with_(self, **k):
        s = Seq(self.cd, self.lo, self.hi, self.arr, self.kind, self.pos, newver())
        for a, b in k.items():
            setattr(s, a, b)
        return s

    def havoc(self, ex, st):
        return fresh_seq(ex, st, self.cd, self.kind, self.pos is not None)

    def size(self):
        return simp(zi(self.hi) - zi(self.lo))

    def empty(self):
        return simp(zi(self.hi) == zi(self.lo))

    def at(self, i):
        return z3.Select(self.arr, zi(i))

    def member(self, c):
        """with ghost index: is the (pointer) term an element"""
        p = z3.Select(self.pos, c)
        return z3.And(zi(self.lo) <= p, p < zi(self.hi), self.cd.key(z3.Select(self.arr, p)) == c)

    def wf(self):
        """ghost index agrees with the contents (implies elements distinct)"""
        i = z3.Int('i!wf')
        return z3.ForAll([i], z3.Implies(z3.And(zi(self.lo) <= i, i < zi(self.hi)), z3.Select(self.pos, self.cd.key(z3.Select(self.arr, i))) == i),
                         patterns=[z3.Select(self.arr, i)])

    def equal(self, o):
        i = z3.Int('i!eq')
        if self.arr.eq(o.arr):
            return z3.And(zi(self.lo) == zi(o.lo), zi(self.hi) == zi(o.hi))
        return z3.And(zi(self.lo) == zi(o.lo), zi(self.hi) == zi(o.hi),
                      z3.ForAll([i], z3.Implies(z3.And(zi(self.lo) <= i, i < zi(self.hi)), self.arr[i] == o.arr[i])))

    def __repr__(self):
        return 'Seq[%s,%s)' % (self.lo, self.hi)


def fresh_seq(ex, st, cd, kind='deque', pos=False):
    lo = 0 if kind == 'vector' else fresh_int('lo')
    hi = fresh_int('hi')
    arr = z3.Const(fresh_name('arr'), z3.ArraySort(z3.IntSort(), cd.sort))
    st.assume(zi(lo) <= hi)
    i = z3.Int('i!r')
    st.assume(z3.ForAll([i], elem_ok(cd, arr[i]), patterns=[arr[i]]))
    p = z3.Const(fresh_name('pos'), z3.ArraySort(z3.IntSort(), z3.IntSort())) if pos else None
    return Seq(cd, lo, hi, arr, kind, p)


def empty_seq(cd, kind='deque', pos=False):
    arr = z3.Const(fresh_name('arr'), z3.ArraySort(z3.IntSort(), cd.sort))
    p = z3.Const(fresh_name('pos'), z3.ArraySort(z3.IntSort(), z3.IntSort())) if pos else None
    return Seq(cd, 0, 0, arr, kind, p)


def seq_push_back(s, t):
    return s.with_(arr=z3.Store(s.arr, zi(s.hi), t), hi=simp(zi(s.hi) + 1),
                   pos=z3.Store(s.pos, s.cd.key(t), zi(s.hi)) if s.pos is not None else None)


def seq_push_front(s, t):
    if s.kind == 'vector':
        return None
    l = simp(zi(s.lo) - 1)
    return s.with_(arr=z3.Store(s.arr, zi(l), t), lo=l, pos=z3.Store(s.pos, s.cd.key(t), zi(l)) if s.pos is not None else None)


def seq_erase(ex, st, s, i):
    """remove the element at index i"""
    na = z3.Const(fresh_name('arr'), s.arr.sort())
    k = z3.Int('k!er')
    i = zi(i)
    st.assume(z3.ForAll([k], z3.Implies(z3.And(zi(s.lo) <= k, k < i), na[k] == s.arr[k]), patterns=[na[k]]))
    st.assume(z3.ForAll([k], z3.Implies(z3.And(i <= k, k < zi(s.hi) - 1), na[k] == s.arr[k + 1]), patterns=[na[k]]))
    st.assume(z3.ForAll([k], z3.Implies(z3.And(i < k, k < zi(s.hi)), na[k - 1] == s.arr[k]), patterns=[s.arr[k]]))
    st.assume(z3.ForAll([k], z3.Implies(z3.And(zi(s.lo) <= k, k < i), na[k] == s.arr[k]), patterns=[s.arr[k]]))
    np_ = None
    if s.pos is not None:
        np_ = z3.Const(fresh_name('pos'), s.pos.sort())
        c = z3.Int('c!er')
        st.assume(z3.ForAll([c], np_[c] == z3.If(s.pos[c] == i, zi(s.lo) - 1, z3.If(s.pos[c] > i, s.pos[c] - 1, s.pos[c])), patterns=[np_[c]]))
    return s.with_(arr=na, hi=simp(zi(s.hi) - 1), pos=np_)


def seq_insert(ex, st, s, i, t):
    na = z3.Const(fresh_name('arr'), s.arr.sort())
    k = z3.Int('k!in')
    i = zi(i)
    st.assume(z3.ForAll([k], z3.Implies(z3.And(zi(s.lo) <= k, k < i), na[k] == s.arr[k]), patterns=[na[k]]))
    st.assume(z3.ForAll([k], z3.Implies(z3.And(i < k, k <= zi(s.hi)), na[k] == s.arr[k - 1]), patterns=[na[k]]))
    st.assume(z3.ForAll([k], z3.Implies(z3.And(i <= k, k < zi(s.hi)), na[k + 1] == s.arr[k]), patterns=[s.arr[k]]))
    st.assume(na[i] == t)
    np_ = None
    if s.pos is not None:
        np_ = z3.Const(fresh_name('pos'), s.pos.sort())
        c = z3.Int('c!in')
        st.assume(z3.ForAll([c], np_[c] == z3.If(c == s.cd.key(t), i, z3.If(s.pos[c] >= i, s.pos[c] + 1, s.pos[c])), patterns=[np_[c]]))
    return s.with_(arr=na, hi=simp(zi(s.hi) + 1), pos=np_)


# ------------------------------------------------------------------ a fixed number of sequences
class NK(tuple):
    """key of one inner sequence of a Nest"""
    def __new__(cls, c, ix):
        t = tuple.__new__(cls, c)
        t.ix = ix
        t.s = str(simp(ix))
        return t

    def __eq__(self, o):
        return isinstance(o, NK) and tuple.__eq__(self, o) and self.s == o.s

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((tuple(self), self.s))

    def __repr__(self):
        return '%s[%s]' % (tuple(self), self.s)


class Nest:
    """n sequences of the same kind: sequence i is arr[i][lo[i]..hi[i]), with ghost index pos[i]; wh: which one an element is in;
    total: all elements"""
    __slots__ = ('cd', 'n', 'lo', 'hi', 'arr', 'pos', 'wh', 'total', 'ver')
    kind = 'nest'

    def __init__(self, cd, n, lo, hi, arr, pos, wh, total):
        self.cd, self.n, self.lo, self.hi, self.arr, self.pos, self.wh, self.total, self.ver = cd, n, lo, hi, arr, pos, wh, total, newver()

    def same(self, o):
        return all(a.eq(b) for a, b in ((self.lo, o.lo), (self.hi, o.hi), (self.arr, o.arr), (self.pos, o.pos), (self.wh, o.wh))) and veq(self.total, o.total)

    def equal(self, o):
        p, k = z3.Ints('p!n k!n')
        if self.same(o):
            return z3.BoolVal(True)
        return z3.And(zi(self.total) == zi(o.total),
                      z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < self.n), z3.And(self.lo[p] == o.lo[p], self.hi[p] == o.hi[p])), patterns=[self.lo[p]]),
                      z3.ForAll([p, k], z3.Implies(z3.And(0 <= p, p < self.n, self.lo[p] <= k, k < self.hi[p]), self.arr[p][k] == o.arr[p][k]), patterns=[self.arr[p][k]]))

    def havoc(self, ex, st):
        return fresh_nest(st, self.cd, self.n)

    def at(self, ix):
        ix = zi(ix)
        return Seq(self.cd, self.lo[ix], self.hi[ix], z3.Select(self.arr, ix), 'list', z3.Select(self.pos, ix), self.ver)

    def with_(self, ix, s):
        ix = zi(ix)
        old = self.at(ix)
        return Nest(self.cd, self.n, z3.Store(self.lo, ix, zi(s.lo)), z3.Store(self.hi, ix, zi(s.hi)), z3.Store(self.arr, ix, s.arr),
                    z3.Store(self.pos, ix, s.pos), self.wh, simp(zi(self.total) - zi(old.size()) + zi(s.size())))

    def member(self, p, c):
        k = z3.Select(z3.Select(self.pos, p), c)
        return z3.And(self.lo[p] <= k, k < self.hi[p], z3.Select(z3.Select(self.arr, p), k) == c)

    def has(self, c):
        p = self.wh[c]
        return z3.And(0 <= p, p < self.n, self.member(p, c))

    def wf(self):
        """the ghost index agrees with the contents: every element occurs once"""
        p, k = z3.Ints('p!w k!w')
        e = self.arr[p][k]
        return z3.ForAll([p, k], z3.Implies(z3.And(0 <= p, p < self.n, self.lo[p] <= k, k < self.hi[p]), z3.And(self.pos[p][e] == k, self.wh[e] == p)), patterns=[e])

    def __repr__(self):
        return 'Nest'


def fresh_nest(st, cd, n):
    A = lambda nm, r: z3.Const(fresh_name(nm), z3.ArraySort(z3.IntSort(), r))
    ia = z3.ArraySort(z3.IntSort(), z3.IntSort())
    v = Nest(cd, n, A('lo', z3.IntSort()), A('hi', z3.IntSort()), A('arr', ia), A('pos', ia), A('wh', z3.IntSort()), fresh_int('total'))
    p, k = z3.Ints('p!f k!f')
    st.assume(z3.And(z3.ForAll([p], v.lo[p] <= v.hi[p], patterns=[v.lo[p]]), v.total >= 0, z3.ForAll([p, k], v.arr[p][k] > 0, patterns=[v.arr[p][k]])))
    return v


# ------------------------------------------------------------------ sets
class SetV:
    """a set of keys and its cardinality"""
    __slots__ = ('cd', 'arr', 'n', 'ver')
    kind = 'set'

    def __init__(self, cd, arr, n):
        self.cd, self.arr, self.n, self.ver = cd, arr, n, newver()

    def same(self, o):
        return self.arr.eq(o.arr) and veq(self.n, o.n)

    def equal(self, o):
        if self.arr.eq(o.arr):
            return zi(self.n) == zi(o.n)
        return z3.And(self.arr == o.arr, zi(self.n) == zi(o.n))

    def has(self, c):
        return z3.Select(self.arr, c)

    def empty(self):
        return zi(self.n) == 0

    def havoc(self, ex, st):
        return fresh_set(ex, st, self.cd)

    def __repr__(self):
        return 'SetV(%s)' % self.arr


def set_facts(st, v):
    """facts of finite sets: what the cardinality says about the members"""
    c, d = z3.Ints('c!s d!s')
    n = zi(v.n)
    w = fresh_int('member')
    st.assume(n >= 0)
    st.assume(z3.ForAll([c], z3.Implies(v.arr[c], n > 0), patterns=[v.arr[c]]))
    st.assume(z3.Implies(n > 0, v.arr[w]))
    st.assume(z3.Implies(n == 1, z3.ForAll([c], z3.Implies(v.arr[c], c == w), patterns=[v.arr[c]])))
    return v


def fresh_set(ex, st, cd):
    return set_facts(st, SetV(cd, z3.Const(fresh_name('set'), z3.ArraySort(z3.IntSort(), z3.BoolSort())), fresh_int('card')))


def set_insert(st, v, k):
    a = z3.Select(v.arr, k)
    return set_facts(st, SetV(v.cd, z3.Store(v.arr, k, z3.BoolVal(True)), simp(z3.If(a, zi(v.n), zi(v.n) + 1))))


def set_erase(st, v, k):
    a = z3.Select(v.arr, k)
    return set_facts(st, SetV(v.cd, z3.Store(v.arr, k, z3.BoolVal(False)), simp(z3.If(a, zi(v.n) - 1, zi(v.n)))))


def set_for(ex, st, c, p, write=False):
    s = cont(ex, st, p, write, lambda: fresh_set(ex, st, codec_of(ex, elem_type(c))))
    if not isinstance(s, SetV):
        raise Unsupported('expected a set')
    return s


def h_set_ctor(ex, st, c):
    if len(c.args) != 1:
        raise Unsupported('set constructor')
    put(ex, st, c.args[0], set_facts(st, SetV(codec_of(ex, elem_type(c)), z3.K(z3.IntSort(), z3.BoolVal(False)), 0)))


def setit_of(k):
    return Sym(simp(zi(k) + 1), 0, 'setit')


def h_set_insert(ex, st, c):
    sret, a = this_ret(c)
    s = set_for(ex, st, c, a[0], True)
    t = read_elem(ex, st, s.cd, a[-1])
    put(ex, st, a[0], set_insert(st, s, t))
    if len(a) == 3:
        return setit_of(t)
    return [setit_of(t), simp(z3.Not(s.has(t)))]


def h_set_erase(ex, st, c):
    s = set_for(ex, st, c, c.args[0], True)
    p = c.args[1]
    if 'iterator' in c.argtypes:
        t = zi(ex.pterm(st, p)) - 1
        ex.oblige(st, 'only an existing element is erased', s.has(t))
        put(ex, st, c.args[0], set_erase(st, s, t))
        return Sym(fresh_int('it'), 0, 'setit')
    t = read_elem(ex, st, s.cd, p)
    put(ex, st, c.args[0], set_erase(st, s, t))
    return simp(zi(s.has(t)))


def h_set_contains(ex, st, c):
    s = set_for(ex, st, c, c.args[0])
    r = s.has(read_elem(ex, st, s.cd, c.args[1]))
    return r if c.q.endswith('contains') else zi(r)


def h_set_find(ex, st, c):
    s = set_for(ex, st, c, c.args[0])
    t = read_elem(ex, st, s.cd, c.args[1])
    return Sym(z3.If(s.has(t), t + 1, z3.IntVal(0)), 0, 'setit')


def h_set_begin(ex, st, c):
    set_for(ex, st, c, c.args[0])
    return Sym(fresh_int('begin'), 0, 'setit')


def h_set_end(ex, st, c):
    set_for(ex, st, c, c.args[0])
    return Sym(z3.IntVal(0), 0, 'setit')


def h_set_size(ex, st, c):
    return set_for(ex, st, c, c.args[0]).n


def h_set_empty(ex, st, c):
    return simp(set_for(ex, st, c, c.args[0]).empty())


def h_set_clear(ex, st, c):
    s = set_for(ex, st, c, c.args[0], True)
    put(ex, st, c.args[0], set_facts(st, SetV(s.cd, z3.K(z3.IntSort(), z3.BoolVal(False)), 0)))


def h_setit_inc(ex, st, c):
    p = c.args[0]
    ex.store(st, p, Sym(fresh_int('it'), 0, 'setit'), ('ptr',), ex.mods[0])
    return p


def collect_cands(ex, s0, cur, mod, depth):
    """loops that walk a sequence and add to, or remove from, a set of keys what they have seen"""
    import loops
    out = []
    its, sets = [], []
    for l in mod:
        v = loops.get(cur, l, depth)
        v0 = loops.get(s0, l, depth)
        if v is None or v0 is None:
            continue
        if l[0] == 'cell':
            v, v0 = v[1], v0[1]
        if isinstance(v, (It, Elem)):
            its.append((l, v0))
        elif isinstance(v, SetV):
            sets.append((l, v0.arr, lambda x: x.arr))
        elif isinstance(v, z3.ArrayRef) and v.sort().range() == z3.BoolSort():
            sets.append((l, v0, lambda x: x))
        elif isinstance(v, Seq) and v.pos is not None:
            its.append((l, v0))
    for il, i0 in its:
        for sl, a0, arr in sets:
            def f(s, grow, il=il, i0=i0, sl=sl, a0=a0, arr=arr):
                v = loops.get(s, il, depth)
                v = v[1] if il[0] == 'cell' else v
                x = loops.get(s, sl, depth)
                x = arr(x[1] if sl[0] == 'cell' else x)
                if isinstance(v, Seq):
                    if not v.arr.eq(i0.arr):
                        return None
                    q, a, b = v, zi(i0.lo), zi(v.lo)
                else:
                    q = get_cont(s, v.c)
                    a, b = zi(i0.idx), zi(v.idx)
                if not isinstance(q, Seq) or q.pos is None:
                    return None
                c = z3.Int('c!acc')
                p = z3.Select(q.pos, c)
                seen = z3.And(a <= p, p < b, q.cd.key(z3.Select(q.arr, p)) == c)
                old = z3.Select(a0, c)
                return z3.ForAll([c], z3.Select(x, c) == (z3.Or(old, seen) if grow else z3.And(old, z3.Not(seen))),
                                 patterns=[z3.Select(x, c)])
            out.append(('set holds what was seen', lambda s, f=f: f(s, True)))
            out.append(('set lost what was seen', lambda s, f=f: f(s, False)))
    return out


# ------------------------------------------------------------------ algorithms
def closure_fn(ex, name):
    """the call operator of the closure an algorithm was instantiated with"""
    seen, w = set(), [name]
    while w:
        n = w.pop(0)
        if n in seen or n not in ex.funcs:
            continue
        seen.add(n)
        d = demangle(n)
        q = simplify(d)[0]
        if n != name and q.endswith('operator()') and not re.match(r'(std|__gnu_cxx|__ops)::', q):
            return n
        f = ex.funcs[n].parse()
        for b in f.blocks.values():
            for i in b.ins:
                if i.op in ('call', 'invoke') and i.a['callee'][0] == 'global':
                    w.append(i.a['callee'][1])
    raise Unsupported('closure of ' + demangle(name))


def pure_predicate(ex, st, fname, clo, ck, s):
    """formula P(term) of a predicate over the elements of a sequence; the predicate must not change anything"""
    k = fresh_int('k')
    s1 = st.fork()
    s1.assume(z3.And(zi(s.lo) <= k, k < zi(s.hi)))
    n0 = len(s1.pc)
    rec = ex.recording
    ex.recording = False
    try:
        arg = Elem(ck, k, 0, s.ver)
        d = demangle(fname)
        d = re.sub(r'\)( const)?( noexcept)?$', '', d[d.rfind('operator()(') + len('operator()('):])
        if not d.endswith('&'):
            ty = ex.funcs[fname].params[1][0] if len(ex.funcs[fname].params) == 2 else None
            if ty is None or ty[0] not in ('ptr', 'int'):
                raise Unsupported('predicate by value')
            arg = ex.load(s1, arg, ty, ex.funcs[fname].mod)
        outs = ex.run_function(s1, fname, [clo, arg])
    finally:
        ex.recording = rec
    fs = []
    for so, kind, v in outs:
        if kind != 'ret':
            raise Unsupported('predicate throws')
        now = get_cont(so, ck)
        if now is not s and not (isinstance(ck, NK) and now.ver == s.ver):
            raise Unsupported('predicate changes the sequence')
        fs.append(z3.And([zb(v)] + [p for p in so.pc[n0:] if not ex.implied(s1.pc[:n0], p)]))
    body = z3.simplify(z3.Or(fs))
    def P(t):
        x = z3.FreshConst(s.cd.sort, 'x')
        return z3.substitute(z3.substitute(body, (s.arr[k], x)), (x, t))
    if any(c.eq(k) for c in _consts(z3.substitute(body, (s.arr[k], z3.FreshConst(s.cd.sort, 'x'))))):
        raise Unsupported('predicate depends on the position')
    return P


def _consts(t):
    import loops
    return loops.consts(t)


def range_of(ex, st, a, b):
    x, y = get_it(ex, st, a), get_it(ex, st, b)
    if x.c != y.c:
        raise Unsupported('range over two containers')
    s = chk_ver(ex, st, x)
    chk_ver(ex, st, y)
    if not isinstance(s, Seq):
        raise Unsupported('range')
    return s, x, y


def closure_arg(ex, st, a):
    if a:
        if isinstance(a[0], Ptr):
            return a[0]
        o = ex.new_obj(st, 'closure', 64, 'stack')
        ex.store_cell(st, Ptr(o.id, 0), a[0], 8)
        return Ptr(o.id, 0)
    o = ex.new_obj(st, 'closure', 1, 'stack')
    return Ptr(o.id, 0)


def h_partition(stable):
    def f(ex, st, c):
        sret, a = this_ret(c)
        s, x, y = range_of(ex, st, a[0], a[1])
        if not (simp(zi(x.idx) == zi(s.lo)) is True and simp(zi(y.idx) == zi(s.hi)) is True):
            raise Unsupported('partition of a part of a sequence')
        P = pure_predicate(ex, st, closure_fn(ex, c.name), closure_arg(ex, st, a[2:]), x.c, s)
        lo, hi = zi(s.lo), zi(s.hi)
        na = z3.Const(fresh_name('arr'), s.arr.sort())
        mid = fresh_int('mid')
        src = z3.Function(fresh_name('src'), z3.IntSort(), z3.IntSort())
        dst = z3.Function(fresh_name('dst'), z3.IntSort(), z3.IntSort())
        i, j = z3.Ints('i!p j!p')
        inr = lambda k: z3.And(lo <= k, k < hi)
        st.assume(z3.And(lo <= mid, mid <= hi))
        st.assume(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(src(i)), na[i] == s.arr[src(i)], dst(src(i)) == i)), patterns=[na[i]]))
        st.assume(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(dst(i)), na[dst(i)] == s.arr[i], src(dst(i)) == i)), patterns=[s.arr[i]]))
        st.assume(z3.ForAll([i], z3.Implies(inr(i), P(na[i]) == (i < mid)), patterns=[na[i]]))
        if stable:
            for half in (lambda k: z3.And(lo <= k, k < mid), lambda k: z3.And(mid <= k, k < hi)):
                st.assume(z3.ForAll([i, j], z3.Implies(z3.And(half(i), half(j), i < j), src(i) < src(j)), patterns=[mpat(na[i], na[j])]))
        np_ = None
        if s.pos is not None:
            np_ = z3.Const(fresh_name('pos'), s.pos.sort())
            k = z3.Int('c!p')
            st.assume(z3.ForAll([k], np_[k] == z3.If(inr(s.pos[k]), dst(s.pos[k]), s.pos[k]), patterns=[np_[k]]))
        n = s.with_(arr=na, pos=np_, ver=s.ver)
        put_c(ex, st, x.c, n)
        st.ghost[('partition', n.arr.get_id())] = (s, mid, src, dst)
        return ret_it(ex, st, c, sret, It(x.c, mid, n.ver))
    return f


def h_find(ex, st, c):
    sret, a = this_ret(c)
    s, x, y = range_of(ex, st, a[0], a[1])
    t = read_elem(ex, st, s.cd, a[2])
    return first_match(ex, st, c, sret, s, x, y, lambda e: e == t)


def h_find_if(ex, st, c):
    sret, a = this_ret(c)
    s, x, y = range_of(ex, st, a[0], a[1])
    P = pure_predicate(ex, st, closure_fn(ex, c.name), closure_arg(ex, st, a[2:]), x.c, s)
    return first_match(ex, st, c, sret, s, x, y, P)


def first_match(ex, st, c, sret, s, x, y, P):
    r = fresh_int('found')
    a, b = zi(x.idx), zi(y.idx)
    i = z3.Int('i!f')
    st.assume(z3.And(a <= r, r <= b))
    st.assume(z3.Implies(r < b, P(s.arr[r])))
    st.assume(z3.ForAll([i], z3.Implies(z3.And(a <= i, i < r), z3.Not(P(s.arr[i]))), patterns=[s.arr[i]]))
    return ret_it(ex, st, c, sret, It(x.c, r, s.ver))


# ------------------------------------------------------------------ container cells
def key(p):
    if isinstance(p, Elem) and not isinstance(p.c, NK):
        return NK(p.c, p.idx)
    if not isinstance(p, Ptr) or not is_num(p.off):
        raise Unsupported('container at %r' % (p,))
    return (p.obj, p.off)


def cont(ex, st, p, write=False, make=None):
    if isinstance(p, Sym):
        p = ex.resolve_sym(st, p)
    if isinstance(p, Elem):
        return nested(ex, st, p)
    if isinstance(p, Sym):
        raise Unsupported('container behind a symbolic address')
    k = key(p)
    ex.check_access(st, p, 1, write, None)
    c = st.mem.get(k[0], {}).get(k[1])
    if c is None or c[0] is not None:
        if make is None:
            raise Unsupported('no container known at %s+%s' % (st.objs[k[0]].name, k[1]))
        v = make()
        put(ex, st, p, v, raw=True)
        return v
    return c[1]


def peek(st, p):
    if not isinstance(p, Ptr) or not is_num(p.off):
        return None
    c = st.mem.get(p.obj, {}).get(p.off)
    return c[1] if c is not None and c[0] is None else None


def nested(ex, st, p):
    o = get_cont(st, p.c)
    ex.check_access(st, Ptr(*p.c), 1, False, None)
    if not isinstance(o, Nest):
        raise Unsupported('nested container')
    ex.oblige(st, 'container element exists when it is accessed', z3.And(0 <= zi(p.idx), zi(p.idx) < o.n))
    v = o.at(p.idx)
    st.assume(zi(o.total) >= zi(v.size()))
    return v


def put_c(ex, st, ck, v):
    put(ex, st, Elem(tuple(ck), ck.ix, 0, None) if isinstance(ck, NK) else Ptr(*ck), v)


def put(ex, st, p, v, raw=False):
    if isinstance(p, Elem):
        o = get_cont(st, p.c)
        if not isinstance(o, Nest) or v.pos is None:
            raise Unsupported('nested container')
        n = o.with_(p.idx, v)
        n.wh = z3.Const(fresh_name('wh'), o.wh.sort())
        c = z3.Int('c!wh')
        st.assume(z3.ForAll([c], n.wh[c] == z3.If(v.member(c), zi(p.idx), o.wh[c]), patterns=[n.wh[c]]))
        return put(ex, st, Ptr(*p.c), n)
    if not raw:
        ex.check_access(st, p, 1, True, None)
    cells = st.cells(p.obj, True)
    if p.off in cells and cells[p.off][0] is not None:
        # raw bytes below become the container
        pass
    cells[p.off] = (None, v)


def seq_for(ex, st, c, p, write=False, kind=None):
    tname = c.q.split('::')
    kind = kind or next((x for x in ('deque', 'list', 'vector') if x in c.q), 'deque')
    def mk():
        cd = codec_of(ex, elem_type(c))
        s = fresh_seq(ex, st, cd, kind)
        return s
    s = cont(ex, st, p, write, mk)
    if not isinstance(s, Seq):
        raise Unsupported('expected a sequence')
    return s


def elem_type(c):
    for t in c.targs:
        return split_targs(t)[0]
    raise Unsupported('element type of ' + c.name)


def split_targs(t):
    out, d, cur = [], 0, ''
    for ch in t:
        if ch in '<([{':
            d += 1
        elif ch in '>)]}':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def elem_size(ex, st, ck):
    s = st.mem[ck[0]][ck[1]][1]
    return s.cd.size if isinstance(s, Seq) else None


def get_cont(st, ck):
    c = st.mem.get(ck[0], {}).get(ck[1])
    if c is None or c[0] is not None:
        raise Unsupported('iterator into a container that is gone')
    if isinstance(ck, NK):
        return c[1].at(ck.ix)
    return c[1]


def load_elem(ex, st, p, size, rt):
    s = get_cont(st, p.c)
    ex.check_access(st, Ptr(*p.c), 1, False, None)
    return s_load(ex, st, s, p, size, rt)


def s_load(ex, st, s, p, size, rt):
    if not isinstance(s, Seq):
        return s.load_elem(ex, st, p, size, rt)
    chk_index(ex, st, s, p.idx)
    t = s.at(p.idx)
    cd = s.cd
    if cd.kind in ('ptr', 'int'):
        if p.off != 0:
            raise Unsupported('inner element offset')
        return decode(ex, st, cd, t)
    for k, (off, sz, lt) in enumerate(cd.fields):
        if off == p.off and sz == size:
            f = cd.sort.accessor(0, k)(t)
            if lt[0] == 'ptr':
                return ex.to_ptr(st, simp(f), ptr_field_tag(cd, off))
            st.assume(z3.And(f >= 0, f < 2 ** (8 * sz)))
            return simp(f)
    raise Unsupported('element field at %s' % p.off)


def chk_index(ex, st, s, i):
    ex.oblige(st, 'container element exists when it is accessed', z3.And(zi(s.lo) <= zi(i), zi(i) < zi(s.hi)))


def store_elem(ex, st, p, v, size, rt):
    s = get_cont(st, p.c)
    ex.check_access(st, Ptr(*p.c), 1, True, None)
    if not isinstance(s, Seq):
        return s.store_elem(ex, st, p, v, size, rt)
    cd = s.cd
    chk_index(ex, st, s, p.idx)
    if cd.kind in ('ptr', 'int'):
        t = encode(ex, st, cd, v)
    else:
        old = s.at(p.idx)
        ts = []
        hit = False
        for k, (off, sz, lt) in enumerate(cd.fields):
            if off == p.off and sz == size:
                ts.append(ex.pterm(st, v) if lt[0] == 'ptr' else zi(v)); hit = True
            else:
                ts.append(cd.sort.accessor(0, k)(old))
        if not hit:
            raise Unsupported('element field store')
        t = cd.sort.mk(*ts)
    n = s.with_(arr=z3.Store(s.arr, zi(p.idx), t), ver=s.ver)
    put_c(ex, st, p.c, n)


def elem_layout(ex, st, p, n):
    if isinstance(p, Elem):
        s = get_cont(st, p.c)
        cd = s.cd
        if cd.kind == 'struct':
            return [(off, sz, lt) for off, sz, lt in cd.fields if p.off <= off < p.off + n]
        return [(0, cd.size, ('ptr',) if cd.kind == 'ptr' else ('int', cd.bits))]
    if n == 8:
        return [(0, 8, ('int', 64))]
    raise Unsupported('copy of %d bytes from %r' % (n, p))


# ------------------------------------------------------------------ handlers
def this_ret(c):
    """(sret pointer or None, remaining args)"""
    a = c.ins.a['args']
    if a and 'sret' in a[0][2]:
        return c.args[0], c.args[1:]
    return None, c.args


def ret_it(ex, st, c, sret, it):
    if sret is not None:
        cells = st.cells(sret.obj, True)
        for o in [o for o in cells if sret.off <= o < sret.off + 32]:
            del cells[o]
        cells[sret.off] = (32, it)
        return None
    return it


def get_it(ex, st, p):
    """iterator object stored at address p (or the value itself)"""
    if isinstance(p, It):
        return p
    if isinstance(p, Ptr):
        c = st.mem[p.obj].get(p.off)
        if c is not None and isinstance(c[1], It):
            return c[1]
        if c is not None and isinstance(c[1], Elem):
            return c[1]
    raise Unsupported('iterator at %r' % (p,))


def set_it(ex, st, p, it):
    c = st.cells(p.obj, True)
    c[p.off] = (c[p.off][0], it)


def step_it(it, n):
    d = -n if it.rev else n
    if isinstance(it, Elem):
        return Elem(it.c, simp(zi(it.idx) + n), it.off, it.ver)
    return It(it.c, simp(zi(it.idx) + d), it.ver, it.rev)


def chk_ver(ex, st, it):
    s = get_cont(st, it.c)
    if it.ver != s.ver and s.kind != 'rng':
        raise Unsupported('iterator kept across a modification')
    return s


def h_ctor(kind):
    def f(ex, st, c):
        sret, a = this_ret(c)
        if len(a) == 1 or (len(a) == 2 and re.match(r'\(?\s*std::allocator<', c.argtypes)):
            put(ex, st, a[0], empty_seq(codec_of(ex, elem_type(c)), kind))
            return None
        if len(a) == 2 and re.match(r'\(?\s*std::(__cxx11::)?(deque|list|vector)<', c.argtypes):
            s = cont(ex, st, a[1])
            put(ex, st, a[0], s.with_())
            if '&&' in c.argtypes:
                put(ex, st, a[1], empty_seq(s.cd, s.kind, s.pos is not None))
            return None
        if kind == 'vector' and len(a) == 3 and re.match(r'\(?\s*unsigned long, std::allocator<', c.argtypes):
            cd = codec_of(ex, elem_type(c))
            if cd.kind == 'int':
                e = empty_seq(cd, kind)
                put(ex, st, a[0], e.with_(arr=z3.K(z3.IntSort(), z3.IntVal(0)), hi=simp(zi(e.lo) + zi(a[1]))))
                return None
        raise Unsupported('constructor ' + demangle(c.name))
    return f


def h_dtor(ex, st, c):
    p = c.args[0]
    if isinstance(p, Ptr):
        cells = st.cells(p.obj, True)
        if p.off in cells and cells[p.off][0] is None:
            pass
    return None


def upd(ex, st, p, new):
    put(ex, st, p, new)


def h_push_back(ex, st, c):
    s = seq_for(ex, st, c, c.args[0], True)
    t = read_elem(ex, st, s.cd, c.args[1])
    upd(ex, st, c.args[0], seq_push_back(s, t))
    return None


def h_emplace_back(ex, st, c):
    s = seq_for(ex, st, c, c.args[0], True)
    cd = s.cd
    if len(c.args) == 2:
        t = read_elem(ex, st, cd, c.args[1])
    else:
        ts = []
        if len(c.args) - 1 != len(cd.fields):
            raise Unsupported('emplace')
        for k, (off, sz, lt) in enumerate(cd.fields):
            v = ex.load(st, c.args[1 + k], lt, ex.mods[0])
            ts.append(ex.pterm(st, v) if lt[0] == 'ptr' else zi(v))
        t = cd.sort.mk(*ts)
    n = seq_push_back(s, t)
    upd(ex, st, c.args[0], n)
    return Elem(key(c.args[0]), simp(zi(n.hi) - 1), 0, n.ver)


def h_push_front(ex, st, c):
    s = seq_for(ex, st, c, c.args[0], True)
    upd(ex, st, c.args[0], seq_push_front(s, read_elem(ex, st, s.cd, c.args[1])))


def h_pop_front(ex, st, c):
    s = seq_for(ex, st, c, c.args[0], True)
    ex.oblige(st, 'removing an element only from a non-empty queue', zi(s.lo) < zi(s.hi))
    upd(ex, st, c.args[0], s.with_(lo=simp(zi(s.lo) + 1)))


def h_pop_back(ex, st, c):
    s = seq_for(ex, st, c, c.args[0], True)
    ex.oblige(st, 'removing an element only from a non-empty queue', zi(s.lo) < zi(s.hi))
    upd(ex, st, c.args[0], s.with_(hi=simp(zi(s.hi) - 1)))


def h_front(ex, st, c):
    s = seq_for(ex, st, c, c.args[0])
    return Elem(key(c.args[0]), s.lo, 0, s.ver)


def h_back(ex, st, c):
    s = seq_for(ex, st, c, c.args[0])
    return Elem(key(c.args[0]), simp(zi(s.hi) - 1), 0, s.ver)


def h_size(ex, st, c):
    o = peek(st, c.args[0])
    if isinstance(o, Nest):
        ex.check_access(st, c.args[0], 1, False, None)
        return o.n
    s = seq_for(ex, st, c, c.args[0])
    n = s.size()
    if not is_num(n):
        st.assume(zi(n) < 2 ** 48)
    return n


def h_empty(ex, st, c):
    return seq_for(ex, st, c, c.args[0]).empty()


def h_clear(ex, st, c):
    s = seq_for(ex, st, c, c.args[0], True)
    upd(ex, st, c.args[0], s.with_(lo=0, hi=0))


def h_begin(ex, st, c):
    sret, a = this_ret(c)
    s = seq_for(ex, st, c, a[0])
    return ret_it(ex, st, c, sret, It(key(a[0]), s.lo, s.ver))


def h_end(ex, st, c):
    sret, a = this_ret(c)
    s = seq_for(ex, st, c, a[0])
    return ret_it(ex, st, c, sret, It(key(a[0]), s.hi, s.ver))


def h_index(ex, st, c):
    o = peek(st, c.args[0])
    if isinstance(o, Nest):
        ex.check_access(st, c.args[0], 1, False, None)
        i = c.args[1]
        if not is_num(i) and z3.is_app_of(i, z3.Z3_OP_ITE):
            i = fresh_int('ix')
            st.assume(i == c.args[1])
        return Elem(key(c.args[0]), i, 0, o.ver)
    s = seq_for(ex, st, c, c.args[0])
    i = simp(zi(s.lo) + zi(c.args[1]))
    return Elem(key(c.args[0]), i, 0, s.ver)


def h_erase1(ex, st, c):
    sret, a = this_ret(c)
    s = seq_for(ex, st, c, a[0], True)
    its = [get_it(ex, st, x) for x in a[1:]]
    for it in its:
        chk_ver(ex, st, it)
    k = key(a[0])
    if len(its) == 1:
        i = its[0].idx
        ex.oblige(st, 'only an existing element is erased', z3.And(zi(s.lo) <= zi(i), zi(i) < zi(s.hi)))
        n = seq_erase(ex, st, s, i)
        put(ex, st, a[0], n)
        return ret_it(ex, st, c, sret, It(k, i, n.ver))
    f, l = its[0].idx, its[1].idx
    ex.oblige(st, 'erased range lies inside the container', z3.And(zi(s.lo) <= zi(f), zi(f) <= zi(l), zi(l) <= zi(s.hi)))
    if simp(zi(l) == zi(s.hi)) is True:
        n = s.with_(hi=f)
        put(ex, st, a[0], n)
        return ret_it(ex, st, c, sret, It(k, f, n.ver))
    if simp(zi(f) == zi(s.lo)) is True:
        n = s.with_(lo=l)
        put(ex, st, a[0], n)
        return ret_it(ex, st, c, sret, It(k, l, n.ver))
    raise Unsupported('erase of an inner range')


def h_remove(ex, st, c):
    """list::remove: every element equal to the given one"""
    s = seq_for(ex, st, c, c.args[0], True)
    if s.pos is None:
        raise Unsupported('remove from a sequence without index')
    t = read_elem(ex, st, s.cd, c.args[1])
    ex.oblige(st, 'no coroutine is queued twice', s.wf())
    m = s.member(t)
    s2 = st.fork()
    out = []
    if ex.reachable(st, m):
        st.assume(m)
        put(ex, st, c.args[0], seq_erase(ex, st, s, z3.Select(s.pos, t)))
        out.append((st, 1))
    if ex.reachable(s2, z3.Not(m)):
        s2.assume(z3.Not(m))
        out.append((s2, 0))
    return Results(out)


def h_insert(ex, st, c):
    sret, a = this_ret(c)
    if len(a) != 3:
        raise Unsupported('insert')
    s = seq_for(ex, st, c, a[0], True)
    it = get_it(ex, st, a[1])
    chk_ver(ex, st, it)
    t = read_elem(ex, st, s.cd, a[2])
    n = seq_insert(ex, st, s, it.idx, t)
    put(ex, st, a[0], n)
    return ret_it(ex, st, c, sret, It(key(a[0]), it.idx, n.ver))


def indexed(ex, st, s, like):
    """s with a ghost index if like has one"""
    if like is None or like.pos is None or s.pos is not None:
        return s
    if not ex.implied(st.pc, zi(s.lo) == zi(s.hi)):
        raise Unsupported('the positions of the elements are not known')
    return s.with_(pos=z3.Const(fresh_name('pos'), z3.ArraySort(z3.IntSort(), z3.IntSort())))


def h_assign(ex, st, c):
    s = seq_for(ex, st, c, c.args[1])
    put(ex, st, c.args[0], indexed(ex, st, s.with_(), seq_for(ex, st, c, c.args[0])))
    if '&&' in c.argtypes:
        put(ex, st, c.args[1], empty_seq(s.cd, s.kind, s.pos is not None))
    return c.args[0]


def h_swap(ex, st, c):
    a = seq_for(ex, st, c, c.args[0])
    b = seq_for(ex, st, c, c.args[1])
    put(ex, st, c.args[0], indexed(ex, st, b, a))
    put(ex, st, c.args[1], indexed(ex, st, a, b))


def h_it_deref(ex, st, c):
    it = get_it(ex, st, c.args[0])
    s = chk_ver(ex, st, it)
    if it.rev:
        return Elem(it.c, simp(zi(it.idx) - 1), 0, it.ver)
    return Elem(it.c, it.idx, 0, it.ver)


def h_it_inc(ex, st, c):
    sret, a = this_ret(c)
    p = a[0]
    it = get_it(ex, st, p)
    chk_ver(ex, st, it)
    d = 1 if '++' in c.q else -1
    set_it(ex, st, p, step_it(it, d))
    if len(a) > 1:      # postfix
        return ret_it(ex, st, c, sret, it)
    return p


def h_it_eq(ex, st, c):
    a, b = get_it(ex, st, c.args[0]), get_it(ex, st, c.args[1])
    if a.c != b.c:
        raise Unsupported('comparison of iterators of different containers')
    r = simp(zi(a.idx) == zi(b.idx))
    if c.q.endswith('!='):
        r = (not r) if isinstance(r, bool) else simp(z3.Not(r))
    return r


def h_it_diff(ex, st, c):
    sret, a = this_ret(c)
    x, y = get_it(ex, st, a[0]), a[1]
    if isinstance(y, Ptr) or isinstance(y, It):
        y = get_it(ex, st, y)
        d = simp(zi(x.idx) - zi(y.idx))
        if is_num(d):
            return d % 2 ** 64
        return z3.If(d < 0, d + 2 ** 64, d)
    n = ex.signed(y, 64)
    return ret_it(ex, st, c, sret, step_it(x, simp(-zi(n))))


def h_it_plus(ex, st, c):
    sret, a = this_ret(c)
    x = get_it(ex, st, a[0])
    n = ex.signed(a[1], 64)
    return ret_it(ex, st, c, sret, step_it(x, n))


def h_it_base(ex, st, c):
    """vector iterator base(): pointer object to the stored pointer"""
    return c.args[0]


def h_it_copy(ex, st, c):
    sret, a = this_ret(c)
    if len(a) == 1:
        return None
    it = get_it(ex, st, a[1])
    src = st.mem[a[1].obj].get(a[1].off) if isinstance(a[1], Ptr) else (8, it)
    cells = st.cells(a[0].obj, True)
    cells[a[0].off] = (src[0], it)
    return None


def h_it_assign(ex, st, c):
    h_it_copy(ex, st, c)
    return c.args[0]


def install(ex):
    H = ex.handlers
    for k in ('deque', 'list', 'vector', '__cxx11::list'):
        q = 'std::' + k + '::'
        n = k.split('::')[-1]
        H[q + n] = h_ctor(n)
        H[q + '~' + n] = h_dtor
        H[q + 'push_back'] = h_push_back
        H[q + 'emplace_back'] = h_emplace_back
        H[q + 'push_front'] = h_push_front
        H[q + 'pop_front'] = h_pop_front
        H[q + 'pop_back'] = h_pop_back
        H[q + 'front'] = h_front
        H[q + 'back'] = h_back
        H[q + 'size'] = h_size
        H[q + 'empty'] = h_empty
        H[q + 'clear'] = h_clear
        for b in ('begin', 'cbegin'):
            H[q + b] = h_begin
        for b in ('end', 'cend'):
            H[q + b] = h_end
        H[q + 'operator[]'] = h_index
        H[q + 'erase'] = h_erase1
        H[q + 'remove'] = h_remove
        H[q + 'insert'] = h_insert
        H[q + 'operator='] = h_assign
        H[q + 'swap'] = h_swap
        if n == 'vector':
            H[q + 'reserve'] = lambda ex, st, c: None
    for q, h in (('set', h_set_ctor), ('~set', h_dtor), ('insert', h_set_insert), ('emplace', h_set_insert), ('erase', h_set_erase), ('contains', h_set_contains),
                 ('count', h_set_contains), ('find', h_set_find), ('begin', h_set_begin), ('end', h_set_end), ('size', h_set_size),
                 ('empty', h_set_empty), ('clear', h_set_clear)):
        H['std::set::' + q] = h
    for k in ('_Rb_tree_const_iterator', '_Rb_tree_iterator'):
        H['std::%s::operator++' % k] = h_setit_inc
    H['std::stable_partition'] = h_partition(True)
    H['std::partition'] = h_partition(False)
    H['std::find'] = h_find
    H['std::find_if'] = h_find_if
    ex.loop_hook.append(collect_cands)
    for k in ('std::_Deque_iterator', 'std::_List_iterator', 'std::_List_const_iterator', '__gnu_cxx::__normal_iterator'):
        n = k.split('::')[-1]
        H[k + '::operator*'] = h_it_deref
        H[k + '::operator->'] = h_it_deref
        H[k + '::operator++'] = h_it_inc
        H[k + '::operator--'] = h_it_inc
        H[k + '::operator+'] = h_it_plus
        H[k + '::operator-'] = h_it_diff
        H[k + '::' + n] = h_it_copy
        H[k + '::operator='] = h_it_assign
    H['std::operator=='] = lambda ex, st, c: h_it_eq(ex, st, c) if '_iterator' in c.argtypes and is_it_args(st, c) else INLINE
    H['std::operator!='] = lambda ex, st, c: h_it_eq(ex, st, c) if '_iterator' in c.argtypes and is_it_args(st, c) else INLINE
    H['std::operator-'] = lambda ex, st, c: h_it_diff(ex, st, c) if '_iterator' in c.argtypes and is_it_args(st, c) else INLINE
    H['__gnu_cxx::operator=='] = h_it_eq
    H['__gnu_cxx::operator!='] = h_it_eq
    H['__gnu_cxx::operator-'] = h_it_diff


def is_it_args(st, c):
    def ok(p):
        if isinstance(p, It):
            return True
        if isinstance(p, Ptr):
            x = st.mem[p.obj].get(p.off)
            return x is not None and isinstance(x[1], It)
        return False
    _, a = this_ret(c)
    return ok(a[0])
