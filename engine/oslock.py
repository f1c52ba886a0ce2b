"""Thread-level locks of the C++ library (recursive): contracts, and flag sets."""
import z3
from values import *
import conc, stl
from execu import INLINE, END, Results, NOVAL


def depth(st, k):
    return st.ghost.get(('depth', k), 0)


def acquire(ex, st, p):
    k = conc.lock_key(ex, st, p)
    d = depth(st, k)
    if d == 0:
        m = ex.monitors.get(k)
        if m:
            if m.acquire(ex, st) is END:
                return END
        else:
            st.ghost['held'] = st.ghost.get('held', ()) + (k,)
    st.ghost[('depth', k)] = d + 1
    return None


def release(ex, st, p):
    k = conc.lock_key(ex, st, p)
    d = depth(st, k)
    if d == 0:
        ex.oblige(st, 'a lock is released only by its holder', False)
        return END
    if d == 1:
        m = ex.monitors.get(k)
        if m:
            if m.release(ex, st) is END:
                return END
        else:
            st.ghost['held'] = tuple(x for x in st.ghost['held'] if x != k)
    st.ghost[('depth', k)] = d - 1
    return None


def h_lock(ex, st, c):
    return acquire(ex, st, c.args[0])


def h_unlock(ex, st, c):
    return release(ex, st, c.args[0])


def h_try(ex, st, c):
    k = conc.lock_key(ex, st, c.args[0])
    if depth(st, k) > 0:
        acquire(ex, st, c.args[0])
        return True
    s2 = st.fork()
    if acquire(ex, st, c.args[0]) is END:
        return END
    return Results([(st, True), (s2, False)])


def h_lock_all(ex, st, c):
    """std::lock: all of them, without deadlock among them"""
    ts = []
    for t in c.targs:
        ts += stl.split_targs(t)
    if len(ts) != len(c.args):
        raise Unsupported('std::lock')
    for t, p in zip(ts, c.args):
        if 'recursive_mutex_with_count' in t:
            ex.bump_count(st, p, 1)
        if acquire(ex, st, p) is END:
            return END
    return None


def bump_count(off):
    def f(st, p, d):
        raise Unsupported('counted lock')
    return f


def install(ex, plain=True):
    H = ex.handlers
    for t in ('std::recursive_mutex', 'std::mutex'):
        H[t + '::lock'] = h_lock
        H[t + '::unlock'] = h_unlock
        H[t + '::try_lock'] = h_try
        n = t.split('::')[1]
        H['%s::%s' % (t, n)] = lambda ex, st, c: None
        H['%s::~%s' % (t, n)] = lambda ex, st, c: None
    H['std::lock'] = h_lock_all
    H['std::bitset::set'] = h_bits_set
    H['std::bitset::reset'] = h_bits_reset
    H['std::bitset::flip'] = h_bits_flip
    H['std::bitset::test'] = h_bits_test
    H['std::bitset::bitset'] = h_bits_ctor


def balanced(ex, s, what=''):
    """every lock taken by the operation was given back"""
    ex.oblige(s, 'every lock taken is given back' + what, z3.BoolVal(s.ghost.get('held', ()) == ()), where='exit')


# ------------------------------------------------------------------ flag sets
class Bits:
    """a fixed number of flags"""
    kind = 'bits'
    __slots__ = ('n', 'arr', 'ver')

    def __init__(self, n, arr):
        self.n, self.arr, self.ver = n, arr, stl.newver()

    def same(self, o):
        return self.arr.eq(o.arr)

    def equal(self, o):
        i = z3.Int('i!b')
        return z3.And([self.bit(k) == o.bit(k) for k in range(self.n)])

    def bit(self, i):
        return z3.Select(self.arr, zi(i))

    def havoc(self, ex, st):
        return fresh_bits(self.n)

    def __repr__(self):
        return 'Bits'


def fresh_bits(n):
    return Bits(n, conc.bool_array('flags'))


def bits_n(c):
    t = c.targs[0].rstrip('ul')
    return int(t)


def bits_at(ex, st, c, p, write=False):
    v = stl.cont(ex, st, p, write, lambda: fresh_bits(bits_n(c)))
    if not isinstance(v, Bits):
        raise Unsupported('expected a flag set')
    return v


def in_range(ex, st, v, i):
    ex.oblige(st, 'a flag number exists', z3.And(zi(i) >= 0, zi(i) < v.n))
    st.assume(z3.And(zi(i) >= 0, zi(i) < v.n))


def h_bits_set(ex, st, c):
    v = bits_at(ex, st, c, c.args[0], True)
    if len(c.args) == 1:
        n = z3.K(z3.IntSort(), z3.BoolVal(True))
    else:
        in_range(ex, st, v, c.args[1])
        n = z3.Store(v.arr, zi(c.args[1]), zb(c.args[2]) if len(c.args) > 2 else z3.BoolVal(True))
    stl.put(ex, st, ex.resolve_sym(st, c.args[0]), Bits(v.n, n))
    return c.args[0]


def h_bits_reset(ex, st, c):
    v = bits_at(ex, st, c, c.args[0], True)
    if len(c.args) == 1:
        n = z3.K(z3.IntSort(), z3.BoolVal(False))
    else:
        in_range(ex, st, v, c.args[1])
        n = z3.Store(v.arr, zi(c.args[1]), z3.BoolVal(False))
    stl.put(ex, st, ex.resolve_sym(st, c.args[0]), Bits(v.n, n))
    return c.args[0]


def h_bits_flip(ex, st, c):
    v = bits_at(ex, st, c, c.args[0], True)
    if len(c.args) == 1:
        raise Unsupported('flip of all flags')
    in_range(ex, st, v, c.args[1])
    stl.put(ex, st, ex.resolve_sym(st, c.args[0]), Bits(v.n, z3.Store(v.arr, zi(c.args[1]), z3.Not(v.bit(c.args[1])))))
    return c.args[0]


def h_bits_test(ex, st, c):
    v = bits_at(ex, st, c, c.args[0])
    in_range(ex, st, v, c.args[1])
    return v.bit(c.args[1])


def h_bits_ctor(ex, st, c):
    if len(c.args) != 1:
        raise Unsupported('flag set constructor')
    stl.put(ex, st, ex.resolve_sym(st, c.args[0]), Bits(bits_n(c), z3.K(z3.IntSort(), z3.BoolVal(False))))
