"""Values and symbolic state of the verifier."""
import z3

_ctr = [0]


def reset_names():
    _ctr[0] = 0


def fresh_name(p):
    _ctr[0] += 1
    return '%s!%d' % (p, _ctr[0])


def fresh_int(p='i'):
    return z3.Int(fresh_name(p))


def fresh_bool(p='b'):
    return z3.Bool(fresh_name(p))


class Unsupported(Exception):
    """A construct the verifier has no rule for."""


class Ptr:
    """Pointer into a known object."""
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=0):
        self.obj, self.off = obj, off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)


class Sym:
    """Symbolic address (term, an Int) plus a constant offset; tag names the kind of object it points to."""
    __slots__ = ('term', 'off', 'tag')

    def __init__(self, term, off=0, tag=None):
        self.term, self.off, self.tag = term, off, tag

    def __repr__(self):
        return 'Sym(%s+%s:%s)' % (self.term, self.off, self.tag)


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Fn(%s)' % self.name


class It:
    """Container iterator: container address, index, container version."""
    __slots__ = ('c', 'idx', 'ver', 'rev')

    def __init__(self, c, idx, ver=0, rev=False):
        self.c, self.idx, self.ver, self.rev = c, idx, ver, rev

    def __repr__(self):
        return 'It(%s,%s)' % (self.c, self.idx)


class Elem:
    """Address of (a part of) a container element."""
    __slots__ = ('c', 'idx', 'off', 'ver')

    def __init__(self, c, idx, off=0, ver=0):
        self.c, self.idx, self.off, self.ver = c, idx, off, ver

    def __repr__(self):
        return 'Elem(%s,%s,%s)' % (self.c, self.idx, self.off)


class Undef:
    def __repr__(self):
        return 'undef'


class Opaque:
    """A value the proof never looks into (floating point, strings, ...)"""
    __slots__ = ('what',)

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return 'Opaque(%s)' % (self.what,)


UNDEF = Undef()
NULL = Sym(z3.IntVal(0), 0, None)


def is_num(v):
    return isinstance(v, int) and not isinstance(v, bool)


def zi(v):
    """Int term of an integer value"""
    if isinstance(v, bool):
        return z3.IntVal(1 if v else 0)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v


def zb(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.BoolVal(v != 0)
    if isinstance(v, z3.BoolRef):
        return v
    # Int 0/1 term
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        a, b = v.arg(1), v.arg(2)
        if z3.is_int_value(a) and z3.is_int_value(b):
            if a.as_long() == 1 and b.as_long() == 0:
                return v.arg(0)
            if a.as_long() == 0 and b.as_long() == 1:
                return z3.Not(v.arg(0))
    return v != 0


def as_py(t):
    """python int if the term is a numeral"""
    if isinstance(t, (int, bool)):
        return int(t)
    if z3.is_int_value(t):
        return t.as_long()
    return None


def norm(t):
    if isinstance(t, (int, bool)):
        return t
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return t


def simp(t):
    if isinstance(t, (int, bool)):
        return t
    return norm(z3.simplify(t))


def veq(a, b):
    """syntactic equality of values"""
    if a is b:
        return True
    if type(a) in (int, bool) and type(b) in (int, bool):
        return a == b
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, Ptr):
        return a.obj == b.obj and veq(a.off, b.off)
    if isinstance(a, Sym):
        return a.off == b.off and veq(a.term, b.term)
    if isinstance(a, Fn):
        return a.name == b.name
    if isinstance(a, It):
        return a.c == b.c and veq(a.idx, b.idx) and a.rev == b.rev
    if isinstance(a, Elem):
        return a.c == b.c and veq(a.idx, b.idx) and a.off == b.off
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(veq(x, y) for x, y in zip(a, b))
    if hasattr(a, 'same'):
        return a.same(b)
    if isinstance(a, Undef):
        return True
    if isinstance(a, (str, frozenset, type(None))):
        return a == b
    return False


class Obj:
    __slots__ = ('id', 'name', 'size', 'kind', 'base', 'meta')

    def __init__(self, id, name, size, kind):
        self.id, self.name, self.size, self.kind = id, name, size, kind
        self.base = 0x10000000 + id * 0x100000
        self.meta = {}


class Frame:
    __slots__ = ('fn', 'block', 'idx', 'regs', 'prev', 'call', 'active', 'allocas', 'on_ret', 'visits', 'spec', 'caught')

    def __init__(self, fn):
        self.fn = fn
        self.block = fn.entry
        self.idx = 0
        self.regs = {}
        self.prev = None
        self.call = None       # instruction in the caller's frame
        self.active = {}
        self.on_ret = None     # python continuation instead of a caller frame
        self.visits = {}
        self.spec = None
        self.caught = None

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.block, f.idx, f.prev, f.call, f.on_ret, f.spec = self.fn, self.block, self.idx, self.prev, self.call, self.on_ret, self.spec
        f.regs = dict(self.regs)
        f.active = dict(self.active)
        f.visits = dict(self.visits)
        f.caught = self.caught
        return f


class State:
    def __init__(self):
        self.frames = []
        self.pc = []
        self.mem = {}        # obj id -> {off: (size, value)}
        self.objs = {}
        self.heap = {}       # (tag, off, size) -> Array Int Int
        self.ghost = {}
        self.landing = None
        self.exc_stack = ()
        self.trace = ()
        self.own = set()
        self.cache = {}
        self.solver_lemmas = ()

    def fork(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.pc = list(self.pc)
        s.mem = dict(self.mem)
        self.own = set()
        s.own = set()
        s.objs = dict(self.objs)
        s.heap = dict(self.heap)
        s.ghost = dict(self.ghost)
        s.landing = self.landing
        s.exc_stack = self.exc_stack
        s.trace = self.trace
        s.cache = self.cache
        s.solver_lemmas = self.solver_lemmas
        return s

    def cells(self, oid, write=False):
        if write and oid not in self.own:
            self.mem[oid] = dict(self.mem[oid])
            self.own.add(oid)
        return self.mem[oid]

    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                self.pc.append(z3.BoolVal(False))
            return
        if z3.is_true(f):
            return
        self.pc.append(f)


_keep = []


def mpat(*ts):
    """multi-pattern; the terms are kept alive (the binding does not hold them)"""
    _keep.append(ts)
    m = z3.MultiPattern(*ts)
    _keep.append(m)
    return m
