"""Symbolic executor over LLVM IR with function contracts, monitors and loop invariants."""
import re, time, os, sys
import z3
from values import *
import llparse, finite
from llparse import demangle, simplify, demangle_many

sys.setrecursionlimit(20000)


class Throw:
    def __init__(self, exc):
        self.exc = exc


class Exc:
    __slots__ = ('ty', 'ptr', 'val')

    def __init__(self, ty, ptr=None, val=None):
        self.ty, self.ptr, self.val = ty, ptr, val

    def same(self, o):
        return self.ty == o.ty and veq(self.val, o.val)

    def __repr__(self):
        return 'Exc(%s)' % self.ty


class Obligation:
    __slots__ = ('label', 'where', 'fn', 'status', 'time', 'path', 'model', 'smt', 'goal', 'pc', 'backend', 'mode')


class Timeout(Exception):
    pass


STD_BASES = {
    '_ZTISt11logic_error': ['_ZTISt9exception'], '_ZTISt13runtime_error': ['_ZTISt9exception'],
    '_ZTISt8bad_cast': ['_ZTISt9exception'], '_ZTISt9bad_alloc': ['_ZTISt9exception'],
    '_ZTISt19bad_optional_access': ['_ZTISt9exception'], '_ZTISt12length_error': ['_ZTISt11logic_error'],
    '_ZTISt12out_of_range': ['_ZTISt11logic_error'], '_ZTISt16invalid_argument': ['_ZTISt11logic_error'],
    '_ZTISt17bad_function_call': ['_ZTISt9exception'],
}


class Sink:
    """Where paths end."""

    def __init__(self, depth=None, header=None, body=None):
        self.depth, self.header, self.body = depth, header, body
        self.backs = []
        self.exits = []
        self.rets = []      # (state, kind, value)


class Executor:
    def __init__(self, modules, opts=None):
        self.mods = modules
        self.opts = opts or {}
        self.funcs = {}
        for m in modules:
            for n, f in m.funcs.items():
                if n not in self.funcs or ' available_externally ' in self.funcs[n].header:
                    self.funcs[n] = f
        self.aliases = {}
        for m in modules:
            self.aliases.update(m.aliases)
        demangle_many(list(self.funcs) + [d for m in modules for d in m.decls])
        self.byname = {}
        for n in self.funcs:
            q = simplify(demangle(n))[0]
            self.byname.setdefault(q, []).append(n)
        self.handlers = {}       # simplified name -> fn
        self.patterns = []       # (regex, fn)
        self._hcache = {}
        self.ctr = 0
        self.obligs = []
        self.recording = True
        self.mode = 'inv'        # or 'unroll'
        self.unroll = 3
        self.bounded_hit = False
        self.timeout_ms = 20000
        self.feas_ms = 1500
        self.nsolve = 0
        self.tsolve = 0.0
        self.protected = {}
        self.cur_fn = ''
        self.loop_hook = []      # spec candidate generators
        self.deadline = None
        self.used_funcs = set()
        self.used_models = set()
        self.assumptions = set()
        self.trace_on = bool(os.environ.get('VTRACE'))
        self.max_paths = 20000
        self.npaths = 0
        self.loop_reports = []
        self.global_objs = {}
        self.mine = set()      # unprotected fields that only the thread under analysis writes
        self.sat_is_violation = True
        self.fnum = {}
        self.inv_notes = []
        self.lemmas = []
        self.branch_log = None
        self.lazy_log = {}
        self.lazy_facts = {}
        self.ghost_havoc = {}

    # ---------------------------------------------------------------- solver
    def _solver(self, ms):
        s = z3.Solver()
        s.set('timeout', ms)
        return s

    def check_sat(self, pc, extra=(), ms=None, quick=False):
        """sat / unsat / unknown.  quick: instantiate quantifiers by matching only."""
        self.nsolve += 1
        t = time.time()
        if quick:
            s = z3.SimpleSolver()
            s.set('timeout', ms or self.feas_ms)
            s.set('smt.mbqi', False)
            s.set('smt.auto_config', False)
        else:
            s = self._solver(ms or self.feas_ms)
        for l in self.lemmas:
            s.add(l)
        for p in pc:
            s.add(p)
        for p in extra:
            s.add(p)
        r = s.check()
        dt = time.time() - t
        self.tsolve += dt
        if self.trace_on and dt > 1:
            print('   slow query %.1fs %s quick=%s extra=%s' % (dt, r, quick, str(extra)[:300]))
        if self.deadline and time.time() > self.deadline:
            raise Timeout('time budget of the check used up')
        if r == z3.sat:
            return 'sat', s
        if r == z3.unsat:
            return 'unsat', s
        return 'unknown', s

    def feasible(self, st, cond):
        c = simp(cond)
        if c is True:
            return True
        if c is False:
            return False
        r, _ = self.check_sat(st.pc, [c], quick=True)
        return r != 'unsat'

    def implied(self, pc, goal):
        """quick test used while searching for invariants"""
        return self.check_sat(pc, [z3.Not(zb(goal))], self.feas_ms, quick=True)[0] == 'unsat'

    def reachable(self, st, cond=True):
        """for cover checks: not shown contradictory"""
        return self.check_sat(st.pc, [zb(cond)], 2000, quick=True)[0] != 'unsat'

    def valid(self, st, goal, ms=None):
        g = simp(goal)
        if g is True:
            return 'unsat', None
        r, s = self.check_sat(st.pc, [z3.Not(zb(g))], ms or self.timeout_ms, quick=True)
        if r == 'unknown':
            f = finite.find(list(self.lemmas) + list(st.pc) + [z3.Not(zb(g))])
            r, s = self.check_sat(st.pc, [z3.Not(zb(g))], 4000 if f is not None else ms or self.timeout_ms)
            if r == 'unknown' and f is not None:
                return 'sat', f
        return r, s

    def oblige(self, st, label, goal, where=None):
        """Record and discharge a proof obligation, then continue under it."""
        goal = zb(goal) if not isinstance(goal, bool) else z3.BoolVal(goal)
        f = self.opts.get('focus')
        t = 'preempt' in label or 'no spin lock is held' in label
        if f is None and 'preempt' in label:
            return                      # decided by the check of that property
        if self.recording and (f != 'preempt' or t):
            o = Obligation()
            o.label, o.fn = label, self.cur_fn
            o.where = where or self.where(st)
            o.mode = self.mode
            t = time.time()
            r, s = self.valid(st, goal)
            if r == 'unknown':
                r, s = self.retry(st, goal)
            o.time = time.time() - t
            o.status = {'unsat': 'proved', 'sat': 'failed', 'unknown': 'unknown'}[r]
            o.backend = 'z3'
            o.goal = goal
            o.pc = None
            if self.opts.get('keep_smt'):
                o.pc = list(self.lemmas) + list(st.pc)
            o.path = st.trace
            o.model = None
            o.smt = None
            if r == 'sat':
                try:
                    o.model = s.model()
                except z3.Z3Exception:
                    pass
            self.obligs.append(o)
            if self.trace_on and o.status != 'proved':
                print('   !! %s: %s at %s' % (o.status, label, o.where))
        st.assume(goal)

    def retry(self, st, goal):
        """Second attempt with different solver settings when the first gives up."""
        for opt in ({'smt.mbqi': False, 'smt.random_seed': 3}, {'smt.random_seed': 7}):
            s = z3.Solver()
            s.set('timeout', self.timeout_ms)
            for k, v in opt.items():
                try:
                    s.set(k, v)
                except z3.Z3Exception:
                    pass
            for p in self.lemmas:
                s.add(p)
            for p in st.pc:
                s.add(p)
            s.add(z3.Not(goal))
            self.nsolve += 1
            r = s.check()
            if r == z3.unsat:
                return 'unsat', s
            if r == z3.sat:
                return 'sat', s
        return 'unknown', None

    def where(self, st):
        for f in reversed(st.frames):
            b = f.fn.blocks[f.block]
            i = min(f.idx, len(b.ins) - 1)
            l = f.fn.mod.loc(f.fn, b.ins[i].line)
            if '/repo/' in l or l.startswith('source') or l.startswith('include') or 'cocpp' in l:
                return l
        return '?'

    # ---------------------------------------------------------------- objects
    def new_obj(self, st, name, size, kind='heap', cells=None):
        self.ctr += 1
        o = Obj(self.ctr, name, size, kind)
        st.objs[o.id] = o
        st.mem[o.id] = cells if cells is not None else {}
        st.own.add(o.id)
        return o

    def pterm(self, st, v):
        """Int term of a pointer value"""
        if isinstance(v, Ptr):
            o = st.objs[v.obj]
            if is_num(v.off):
                return z3.IntVal(o.base + v.off)
            return z3.IntVal(o.base) + v.off
        if isinstance(v, Sym):
            return v.term if v.off == 0 else v.term + v.off
        if isinstance(v, Fn):
            if v.name not in self.fnum:
                self.fnum[v.name] = 0x1000 + 16 * len(self.fnum)
            return z3.IntVal(self.fnum[v.name])
        if isinstance(v, (It, Elem)):
            f = z3.Function('addr_' + re.sub(r'\W', '_', repr(v.c)), z3.IntSort(), z3.IntSort())
            return f(zi(v.idx))
        if isinstance(v, Undef):
            return fresh_int('undefp')
        if is_num(v) or isinstance(v, z3.ArithRef):
            return zi(v)
        raise Unsupported('pointer term of %r' % (v,))

    def to_ptr(self, st, t, tag=None):
        """pointer value of an Int term"""
        t = simp(t) if not isinstance(t, int) else t
        if is_num(t):
            if t == 0:
                return NULL
            for o in st.objs.values():
                if o.base <= t < o.base + max(o.size or 1, 1):
                    return Ptr(o.id, t - o.base)
            for n, k in self.fnum.items():
                if k == t:
                    return Fn(n)
            return Sym(z3.IntVal(t), 0, tag)
        return Sym(t, 0, tag)

    def ptr_eq(self, st, a, b):
        if isinstance(a, It) and isinstance(b, It) and a.c == b.c:
            return simp(zi(a.idx) == zi(b.idx))
        if isinstance(a, Elem) and isinstance(b, Elem) and a.c == b.c:
            if a.off == b.off:
                return simp(zi(a.idx) == zi(b.idx))
            return False
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj != b.obj:
                return False
            return simp(zi(a.off) == zi(b.off))
        if isinstance(a, Fn) and isinstance(b, Fn):
            return a.name == b.name
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (Ptr, Fn, It, Elem)) and isinstance(y, Sym) and as_py(simp(y.term + y.off)) == 0:
                return False
        return simp(self.pterm(st, a) == self.pterm(st, b))

    # ---------------------------------------------------------------- memory
    def resolve_sym(self, st, p):
        if isinstance(p, Sym):
            t = simp(p.term)
            if is_num(t):
                q = self.to_ptr(st, t + p.off)
                if isinstance(q, Ptr):
                    return q
                if t + p.off < 4096:
                    raise NullDeref()
        return p

    def load(self, st, p, ty, mod, atomic=None):
        rt = mod.resolve(ty)
        if rt[0] in ('struct', 'array'):
            n = len(rt[1]) if rt[0] == 'struct' else rt[1]
            out = []
            for i in range(n):
                off, ft = mod.field_offset(rt, i)
                out.append(self.load(st, self.padd(p, off), ft, mod))
            return out
        size = mod.size_align(rt)[0]
        p = self.resolve_sym(st, p)
        if isinstance(p, Ptr):
            if not self.check_access(st, p, size, False, atomic) and self.others_write(st, p):
                return self.fresh_of(st, rt, 'shared')
            return self.load_cell(st, p, size, rt)
        if isinstance(p, Elem):
            import stl
            return stl.load_elem(self, st, p, size, rt)
        if isinstance(p, Sym):
            return self.load_sym(st, p, size, rt)
        if isinstance(p, It):
            raise Unsupported('raw access to iterator node')
        raise Unsupported('load from %r' % (p,))

    def padd(self, p, off):
        if is_num(off) and off == 0:
            return p
        if isinstance(p, Ptr):
            return Ptr(p.obj, simp(zi(p.off) + zi(off)))
        if isinstance(p, Elem):
            o = simp(zi(p.off) + zi(off))
            return Elem(p.c, p.idx, o, p.ver)
        if isinstance(p, Sym):
            o = simp(zi(off))
            if is_num(o):
                return Sym(p.term, p.off + o, p.tag)
            return Sym(p.term + o, p.off, p.tag)
        if isinstance(p, It):
            raise Unsupported('address arithmetic on iterator')
        raise Unsupported('address arithmetic on %r' % (p,))

    def sym_field(self, st, tag, off, size):
        k = (tag, off, size)
        if k not in st.heap:
            st.heap[k] = z3.Array('H_%s_%d_%d' % (tag, off, size), z3.IntSort(), z3.IntSort())
        return st.heap[k]

    field_tags = {}   # (tag, off) -> tag of the pointer stored there

    def load_sym(self, st, p, size, rt):
        a = self.sym_field(st, p.tag, p.off, size)
        v = z3.Select(a, p.term)
        if rt[0] == 'ptr':
            return Sym(v, 0, self.field_tags.get((p.tag, p.off)))
        if rt[0] == 'int':
            if rt[1] == 1:
                return v != 0
            st.assume(z3.And(v >= 0, v < 2 ** (8 * size)))
            return v
        return Opaque('fp')

    def load_cell(self, st, p, size, rt):
        cells = st.mem.get(p.obj)
        if cells is None:
            raise Unsupported('load from freed or unknown object')
        off = p.off
        if not is_num(off):
            return self.load_symoff(st, p, size, rt)
        c = cells.get(off)
        if c is not None and c[0] == size:
            return self.coerce(st, c[1], rt)
        if c is None:
            # overlapping?
            for o2, (s2, v2) in cells.items():
                if s2 is not None and o2 < off + size and off < o2 + s2:
                    return self.load_partial(st, p, size, rt, o2, s2, v2)
            n = len(st.pc)
            v = self.fresh_of(st, rt, st.objs[p.obj].name + '+%d' % off)
            self.lazy_facts[(p.obj, off)] = st.pc[n:]
            self.lazy_log[(p.obj, off)] = (size, v)
            st.cells(p.obj, True)[off] = (size, v)
            return v
        if c[0] is None:
            raise Unsupported('raw access to container at %s+%d' % (st.objs[p.obj].name, off))
        return self.load_partial(st, p, size, rt, off, c[0], c[1])

    def load_partial(self, st, p, size, rt, o2, s2, v2):
        off = p.off
        if o2 <= off and off + size <= o2 + s2 and rt[0] == 'int' and (is_num(v2) or isinstance(v2, z3.ArithRef)):
            sh = 8 * (off - o2)
            v = zi(v2)
            r = (v / (2 ** sh)) % (2 ** (8 * size))
            return simp(r)
        # assemble from concrete smaller cells
        cells = st.mem[p.obj]
        if rt[0] == 'int':
            acc = 0
            o = off
            while o < off + size:
                c = cells.get(o)
                if c is None or c[0] is None or o + c[0] > off + size or not (is_num(c[1]) or isinstance(c[1], z3.ArithRef)):
                    break
                acc = acc + zi(c[1]) * (2 ** (8 * (o - off)))
                o += c[0]
            else:
                return simp(acc)
        raise Unsupported('partial load at %s+%s size %d' % (st.objs[p.obj].name, off, size))

    def load_symoff(self, st, p, size, rt):
        raise Unsupported('symbolic offset into ' + st.objs[p.obj].name)

    def store_symoff(self, st, p, v, size, rt):
        raise Unsupported('symbolic offset into ' + st.objs[p.obj].name)

    def coerce(self, st, v, rt):
        if rt[0] == 'ptr':
            if is_num(v) or isinstance(v, z3.ArithRef):
                return self.to_ptr(st, v)
            return v
        if rt[0] == 'int':
            if isinstance(v, (Ptr, Sym, Fn)):
                return simp(self.pterm(st, v))
            if isinstance(v, Undef):
                return self.fresh_of(st, rt, 'undef')
            if rt[1] == 1:
                return norm(zb(v))
            return norm(v) if not isinstance(v, z3.BoolRef) else zi(v)
        return v

    def fresh_of(self, st, rt, nm='v'):
        if rt[0] == 'int':
            if rt[1] == 1:
                return fresh_bool(nm)
            v = fresh_int(nm)
            st.assume(z3.And(v >= 0, v < 2 ** rt[1]))
            return v
        if rt[0] == 'ptr':
            v = fresh_int(nm)
            st.assume(v >= 0)
            return Sym(v)
        if rt[0] == 'fp':
            return Opaque('fp')
        if rt[0] == 'struct':
            return [self.fresh_of(st, f, nm) for f in rt[1]]
        raise Unsupported('fresh of %r' % (rt,))

    def store(self, st, p, v, ty, mod, atomic=None):
        rt = mod.resolve(ty)
        if rt[0] in ('struct', 'array'):
            n = len(rt[1]) if rt[0] == 'struct' else rt[1]
            for i in range(n):
                off, ft = mod.field_offset(rt, i)
                vi = v[i] if isinstance(v, (list, tuple)) else v
                self.store(st, self.padd(p, off), vi, ft, mod)
            return
        size = mod.size_align(rt)[0]
        p = self.resolve_sym(st, p)
        if isinstance(v, (bool, z3.BoolRef)) and rt[0] == 'int' and rt[1] <= 8:
            v = norm(zi(v)) if isinstance(v, bool) else zi(v)
        if isinstance(p, Ptr):
            if not self.check_access(st, p, size, True, atomic) and p.obj in self.protected and is_num(p.off):
                st.ghost['unprotected'] = st.ghost.get('unprotected', frozenset()) | {(p.obj, p.off)}
            self.store_cell(st, p, v, size)
            return
        if isinstance(p, Elem):
            import stl
            return stl.store_elem(self, st, p, v, size, rt)
        if isinstance(p, Sym):
            a = self.sym_field(st, p.tag, p.off, size)
            t = self.pterm(st, v) if isinstance(v, (Ptr, Sym, Fn)) else (fresh_int('undef') if isinstance(v, (Undef, Opaque)) else zi(v))
            st.heap[(p.tag, p.off, size)] = z3.Store(a, p.term, t)
            return
        raise Unsupported('store to %r' % (p,))

    def store_cell(self, st, p, v, size):
        off = p.off
        if p.obj not in st.mem:
            raise Unsupported('store to freed or unknown object')
        if not is_num(off):
            return self.store_symoff(st, p, v, size, None)
        cells = st.cells(p.obj, True)
        c = cells.get(off)
        if c is None or c[0] != size:
            if c is not None and c[0] is None:
                raise Unsupported('raw store over container')
            for o2 in [o for o, (s, _) in cells.items() if s is not None and o < off + size and off < o + s]:
                s2, v2 = cells.pop(o2)
                # keep the bytes that are not overwritten
                if o2 < off or o2 + s2 > off + size:
                    if is_num(v2) or isinstance(v2, z3.ArithRef):
                        if o2 < off:
                            n = off - o2
                            cells[o2] = (n, simp(zi(v2) % (2 ** (8 * n))))
                        if o2 + s2 > off + size:
                            n = o2 + s2 - off - size
                            cells[off + size] = (n, simp(zi(v2) / (2 ** (8 * (off + size - o2)))))
        cells[off] = (size, v)

    def check_access(self, st, p, size, write, atomic):
        """whether the memory belongs to a monitor, whose rules are checked"""
        prot = self.protected.get(p.obj)
        if not prot:
            return False
        found = False
        for (off, sz, mon, nm, opts) in prot:
            if is_num(p.off) and off < p.off + size and p.off < off + sz:
                mon.access(self, st, nm, write, atomic)
                found = True
        return found

    def others_write(self, st, p):
        """memory no lock protects that others may change at any time: variables of the program, and fields of a shared
        object that the operation itself writes"""
        if (p.obj, p.off) in st.ghost.get('unprotected', ()):
            return st.objs[p.obj].kind == 'param' and (p.obj, p.off) not in self.mine
        o = st.objs.get(p.obj)
        return o is not None and o.kind == 'global' and o.meta.get('const') is False and not o.meta['gname'].startswith('_ZGV') and not o.meta.get('mine')

    def memcpy(self, st, dst, src, n):
        dst, src = self.resolve_sym(st, dst), self.resolve_sym(st, src)
        n = simp(n)
        if not is_num(n):
            raise Unsupported('memcpy of symbolic size')
        if n == 0:
            return
        if isinstance(src, Ptr) and isinstance(dst, Ptr) and is_num(src.off) and is_num(dst.off):
            self.check_access(st, src, n, False, None)
            self.check_access(st, dst, n, True, None)
            sc = dict(st.mem[src.obj])
            dc = st.cells(dst.obj, True)
            for o in [o for o in dc if dst.off <= o < dst.off + n]:
                del dc[o]
            for o, (s, v) in sc.items():
                if src.off <= o < src.off + n:
                    dc[dst.off + o - src.off] = (s, v)
            return
        if isinstance(dst, Ptr) and isinstance(src, (Elem, Sym)):
            # element-wise: use the layout known for the element
            import stl
            for (o, s, rt) in stl.elem_layout(self, st, src, n):
                v = self.load(st, self.padd(src, o), rt, self.mods[0])
                self.store_cell(st, Ptr(dst.obj, dst.off + o), v, s)
            return
        if isinstance(dst, (Elem, Sym)) and isinstance(src, Ptr):
            for o, (s, v) in sorted(st.mem[src.obj].items()):
                if src.off <= o < src.off + n:
                    rt = ('ptr',) if isinstance(v, (Ptr, Sym, Fn)) else ('int', 8 * s)
                    self.store(st, self.padd(dst, o - src.off), v, rt, self.mods[0])
            return
        raise Unsupported('memcpy %r %r' % (dst, src))

    def memset(self, st, dst, v, n):
        dst = self.resolve_sym(st, dst)
        n = simp(n)
        v = simp(v)
        if not is_num(n) or not is_num(v):
            raise Unsupported('memset')
        if not isinstance(dst, Ptr) or not is_num(dst.off):
            raise Unsupported('memset target')
        self.check_access(st, dst, n, True, None)
        cells = st.cells(dst.obj, True)
        for o in [o for o in cells if dst.off <= o < dst.off + n]:
            del cells[o]
        o = dst.off
        end = dst.off + n
        while o < end:
            s = 8 if o % 8 == 0 and o + 8 <= end else (4 if o % 4 == 0 and o + 4 <= end else 1)
            cells[o] = (s, int.from_bytes(bytes([v & 255]) * s, 'little'))
            o += s

    # ---------------------------------------------------------------- globals
    def global_ptr(self, st, mod, name):
        if name in self.aliases and name not in self.funcs:
            name = self.aliases[name]
        if name in self.funcs or any(name in m.decls for m in self.mods):
            return Fn(name)
        internal = False
        g = mod.globals.get(name)
        if g is not None and re.match(r'(private|internal)', g):
            internal = True
        if not internal and (g is None or g.startswith('external') or 'available_externally' in g):
            for m in self.mods:
                g2 = m.globals.get(name)
                if g2 is not None and not g2.startswith('external') and not re.match(r'(private|internal)', g2):
                    mod, g = m, g2
                    break
        key = (mod.path, name) if internal else name
        if key not in self.global_objs:
            self.ctr += 1
            o = Obj(self.ctr, '@' + name, 64, 'global')
            o.meta['gname'] = name
            cells = {}
            if g is not None:
                body = g
                m = re.match(r'^(?:(?:private|internal|external|linkonce_odr|weak_odr|weak|common|dso_local|unnamed_addr|local_unnamed_addr|constant|global|hidden|protected|thread_local(?:\(\w+\))?|available_externally|default|externally_initialized|linkonce|appending)\s+)*(.*)$', body)
                isext = body.startswith('external')
                isconst = ' constant ' in ' ' + body[:body.find(m.group(1))] + ' '
                o.meta['const'] = isconst
                tk = llparse.Toks(llparse.tokenize(re.sub(r', (comdat|align|section|!dbg).*$', '', m.group(1))))
                ty = llparse.parse_type(tk)
                try:
                    o.size = mod.size_align(ty)[0]
                except llparse.ParseError:
                    o.size = 64
                if not isext and tk.peek() is not None:
                    o.meta['init'] = (ty, llparse.parse_value(tk, ty), mod)
            self.global_objs[key] = (o, cells)
        o, cells = self.global_objs[key]
        if o.id not in st.objs:
            st.objs[o.id] = o
            st.mem[o.id] = dict(cells)
            st.own.add(o.id)
            if 'init' in o.meta:
                ty, v, m2 = o.meta['init']
                self.init_cells(st, m2, o.id, 0, ty, v)
        return Ptr(o.id, 0)

    def init_cells(self, st, mod, oid, off, ty, v):
        rt = mod.resolve(ty)
        if v[0] in ('undef',):
            return
        if v[0] == 'zero':
            if mod.size_align(rt)[0] > 4096:
                return
            for o, lt in mod.leaves(rt):
                st.mem[oid][off + o] = (mod.size_align(lt)[0], NULL if lt[0] == 'ptr' else 0)
            return
        if v[0] == 'str':
            raw = v[1]
            b = []
            i = 0
            while i < len(raw):
                if raw[i] == '\\':
                    b.append(int(raw[i + 1:i + 3], 16)); i += 3
                else:
                    b.append(ord(raw[i])); i += 1
            st.objs[oid].meta['str'] = bytes(x & 255 for x in b)
            for k, x in enumerate(b):
                st.mem[oid][off + k] = (1, x)
            return
        if v[0] == 'agg':
            for i, (et, ev) in enumerate(v[1]):
                o, _ = mod.field_offset(rt, i)
                self.init_cells(st, mod, oid, off + o, et, ev)
            return
        st.mem[oid][off] = (mod.size_align(rt)[0], self.const(st, mod, v, rt))

    # ---------------------------------------------------------------- operands
    def const(self, st, mod, v, ty):
        k = v[0]
        if k == 'int':
            if ty[0] == 'int':
                if ty[1] == 1:
                    return bool(v[1])
                return v[1] % (2 ** ty[1])
            return v[1]
        if k == 'null':
            return NULL
        if k == 'undef':
            rt = mod.resolve(ty)
            if rt[0] == 'struct':
                return [self.const(st, mod, v, f) for f in rt[1]]
            return UNDEF
        if k == 'zero':
            rt = mod.resolve(ty)
            if rt[0] == 'struct':
                return [self.const(st, mod, v, f) for f in rt[1]]
            if rt[0] == 'array':
                return [self.const(st, mod, v, rt[2]) for _ in range(rt[1])]
            if rt[0] == 'ptr':
                return NULL
            return 0
        if k == 'global':
            return self.global_ptr(st, mod, v[1])
        if k == 'fp':
            return Opaque(('fp', v[1]))
        if k == 'cexpr':
            op = v[1]
            if op == 'getelementptr':
                base = self.const(st, mod, v[3][0][1], v[3][0][0])
                return self.gep(st, mod, v[2], base, [(t, self.const(st, mod, x, t)) for t, x in v[3][1:]])
            if op == 'ptrtoint':
                return simp(self.pterm(st, self.const(st, mod, v[3][0][1], v[3][0][0])))
            if op == 'inttoptr':
                return self.to_ptr(st, self.const(st, mod, v[3][0][1], v[3][0][0]))
            if op in ('bitcast', 'addrspacecast'):
                return self.const(st, mod, v[3][0][1], v[3][0][0])
            raise Unsupported('constant expression ' + op)
        if k == 'agg':
            return [self.const(st, mod, x, t) for t, x in v[1]]
        if k == 'asm':
            return v
        if k == 'meta':
            return UNDEF
        raise Unsupported('operand %r' % (v,))

    def val(self, st, fr, v, ty):
        if v[0] == 'reg':
            return fr.regs[v[1]]
        return self.const(st, fr.fn.mod, v, ty)

    def gep(self, st, mod, bt, base, idx):
        p = base
        first = True
        ty = bt
        for (it, iv) in idx:
            if first:
                s = mod.size_align(ty)[0]
                bits = it[1]
                sv = self.signed(iv, bits)
                off = simp(zi(sv) * s) if not is_num(sv) else sv * s
                if not (is_num(off) and off == 0):
                    p = self.elem_step(st, p, sv, s) or self.padd(p, off)
                first = False
                continue
            rt = mod.resolve(ty)
            if rt[0] == 'struct':
                o, ty = mod.field_offset(rt, iv)
                p = self.padd(p, o)
            else:
                s = mod.size_align(rt[2])[0]
                sv = self.signed(iv, it[1])
                off = sv * s if is_num(sv) else simp(zi(sv) * s)
                p = self.padd(p, off)
                ty = rt[2]
        return p

    def elem_step(self, st, p, n, size):
        """pointer arithmetic over contiguous elements (vector storage)"""
        if isinstance(p, (Elem,)) and is_num(p.off) and p.off == 0:
            import stl
            if stl.elem_size(self, st, p.c) == size:
                return Elem(p.c, simp(zi(p.idx) + zi(n)), 0, p.ver)
        return None

    # ---------------------------------------------------------------- integers
    def signed(self, v, bits):
        if isinstance(v, bool):
            return int(v)
        if is_num(v):
            return v - 2 ** bits if v >= 2 ** (bits - 1) else v
        if isinstance(v, z3.BoolRef):
            return zi(v)
        if isinstance(v, (Undef, Opaque)):
            return fresh_int('undef')
        return z3.If(v >= 2 ** (bits - 1), v - 2 ** bits, v)

    def unsig(self, v, bits):
        """wrap a mathematical integer known to be within one modulus"""
        if is_num(v):
            return v % (2 ** bits)
        v = simp(v)
        if is_num(v):
            return v % (2 ** bits)
        return v % (2 ** bits)

    def binop(self, st, op, ty, x, y, flags):
        if ty[0] != 'int':
            return Opaque('fp')
        n = ty[1]
        M = 2 ** n
        if isinstance(x, (Undef, Opaque)):
            x = self.fresh_of(st, ty, 'undef')
        if isinstance(y, (Undef, Opaque)):
            y = self.fresh_of(st, ty, 'undef')
        if n == 1:
            a, b = zb(x), zb(y)
            r = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor, 'add': z3.Xor}[op](a, b)
            return simp(r)
        if isinstance(x, (bool, z3.BoolRef)):
            x = norm(zi(x))
        if isinstance(y, (bool, z3.BoolRef)):
            y = norm(zi(y))
        if is_num(x) and is_num(y):
            sx, sy = self.signed(x, n), self.signed(y, n)
            if op == 'add': return (x + y) % M
            if op == 'sub': return (x - y) % M
            if op == 'mul': return (x * y) % M
            if op == 'and': return x & y
            if op == 'or': return x | y
            if op == 'xor': return x ^ y
            if op == 'shl': return (x << y) % M
            if op == 'lshr': return x >> y
            if op == 'ashr': return (sx >> y) % M
            if op in ('udiv', 'urem', 'sdiv', 'srem') and y == 0:
                raise Unsupported('division by zero')
            if op == 'udiv': return x // y
            if op == 'urem': return x % y
            if op == 'sdiv': return (abs(sx) // abs(sy) * (1 if (sx < 0) == (sy < 0) else -1)) % M
            if op == 'srem': return ((abs(sx) % abs(sy)) * (1 if sx >= 0 else -1)) % M
        X, Y = zi(x), zi(y)
        if op == 'add':
            if is_num(y) and y >= M // 2:      # adding a negative constant
                c = M - y
                return simp(z3.If(X >= c, X - c, X - c + M))
            if is_num(x) and x >= M // 2:
                c = M - x
                return simp(z3.If(Y >= c, Y - c, Y - c + M))
            r = X + Y
            return simp(z3.If(r >= M, r - M, r))
        if op == 'sub':
            if is_num(y) and y >= M // 2:
                c = M - y
                r = X + c
                return simp(z3.If(r >= M, r - M, r))
            return simp(z3.If(X >= Y, X - Y, X - Y + M))
        if op == 'mul':
            if is_num(x) and x == 1: return y
            if is_num(y) and y == 1: return x
            if 'nsw' in flags:
                # signed overflow is undefined behaviour: assume it does not happen
                self.assumptions.add('no signed overflow in multiplications')
                p = zi(self.signed(x, n)) * zi(self.signed(y, n))
                st.assume(z3.And(p >= -(M // 2), p < M // 2))
                return simp(z3.If(p < 0, p + M, p))
            return simp((X * Y) % M)
        if op == 'udiv' and is_num(y) and y > 0:
            return simp(X / Y)
        if op == 'urem' and is_num(y) and y > 0:
            return simp(X % Y)
        if op in ('sdiv', 'srem') and is_num(y):
            sy = self.signed(y, n)
            if sy > 0:
                sx = zi(self.signed(x, n))
                q = z3.If(sx >= 0, sx / sy, -((-sx) / sy))
                if op == 'sdiv':
                    return simp(z3.If(q < 0, q + M, q))
                r = sx - q * sy
                return simp(z3.If(r < 0, r + M, r))
        if op == 'sdiv' or op == 'udiv':
            if op == 'udiv':
                return simp(X / Y)
        if op in ('and', 'or', 'xor') and (is_num(x) or is_num(y)):
            c = x if is_num(x) else y
            t = Y if is_num(x) else X
            return self.bitconst(op, t, c, n)
        if op == 'shl' and is_num(y):
            return simp((X * (2 ** y)) % M)
        if op == 'lshr' and is_num(y):
            return simp(X / (2 ** y))
        if op == 'ashr' and is_num(y):
            s = zi(self.signed(x, n)) / (2 ** y)
            return simp(z3.If(s < 0, s + M, s))
        if op in ('and', 'or', 'xor', 'shl', 'lshr'):
            bx, by = z3.Int2BV(X, n), z3.Int2BV(Y, n)
            r = {'and': bx & by, 'or': bx | by, 'xor': bx ^ by, 'shl': bx << by, 'lshr': z3.LShR(bx, by)}[op]
            return z3.BV2Int(r)
        raise Unsupported('arithmetic %s' % op)

    def bitconst(self, op, t, c, n):
        M = 2 ** n
        if op == 'and':
            if c == 0:
                return 0
            if c & (c + 1) == 0:                      # low mask
                return simp(t % (c + 1))
            inv = (M - 1) ^ c
            if inv & (inv + 1) == 0:                  # high mask
                return simp(t - t % (inv + 1))
            r = 0                                     # sum of bits
            for k in range(n):
                if c >> k & 1:
                    r = r + ((t / (2 ** k)) % 2) * (2 ** k)
            return simp(r)
        if op == 'or':
            return simp(t + c - zi(self.bitconst('and', t, c, n)))
        if op == 'xor':
            if c == M - 1:
                return simp((M - 1) - t)
            return simp(t + c - 2 * zi(self.bitconst('and', t, c, n)))

    def icmp(self, st, pred, ty, x, y):
        if ty[0] == 'ptr':
            if pred == 'eq':
                return self.ptr_eq(st, x, y)
            if pred == 'ne':
                r = self.ptr_eq(st, x, y)
                return (not r) if isinstance(r, bool) else simp(z3.Not(r))
            a, b = self.pterm(st, x), self.pterm(st, y)
            if isinstance(x, (It, Elem)) and isinstance(y, (It, Elem)) and x.c == y.c:
                a, b = zi(x.idx), zi(y.idx)
            elif isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj == y.obj:
                a, b = zi(x.off), zi(y.off)
            return simp({'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}[pred])
        n = ty[1]
        if isinstance(x, (Undef, Opaque)):
            x = self.fresh_of(st, ty, 'undef')
        if isinstance(y, (Undef, Opaque)):
            y = self.fresh_of(st, ty, 'undef')
        if n == 1:
            a, b = zb(x), zb(y)
            r = {'eq': a == b, 'ne': a != b}.get(pred)
            if r is None:
                ia, ib = zi(x), zi(y)
                r = {'ult': ia < ib, 'ugt': ia > ib, 'ule': ia <= ib, 'uge': ia >= ib}[pred]
            return simp(r)
        if isinstance(x, (Ptr, Sym, Fn)):
            x = simp(self.pterm(st, x))
        if isinstance(y, (Ptr, Sym, Fn)):
            y = simp(self.pterm(st, y))
        if pred[0] == 's':
            x, y = self.signed(x, n), self.signed(y, n)
        if self.branch_log is not None:
            self.branch_log.append((zi(x), zi(y)))
        if is_num(x) and is_num(y):
            return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred if pred in ('eq', 'ne') else pred[1:]]
        a, b = zi(x), zi(y)
        k = pred if pred in ('eq', 'ne') else pred[1:]
        return simp({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[k])

    def cast(self, st, op, frm, to, x):
        if op in ('bitcast', 'addrspacecast', 'freeze'):
            return x
        if isinstance(x, Opaque) or frm[0] == 'fp' or to[0] == 'fp':
            if to[0] == 'int':
                return self.fresh_of(st, to, 'fp')
            return Opaque('fp')
        if op == 'ptrtoint':
            return simp(self.pterm(st, x))
        if op == 'inttoptr':
            if isinstance(x, (Ptr, Sym, Fn, It, Elem)):
                return x
            return self.to_ptr(st, x)
        if isinstance(x, Undef):
            return self.fresh_of(st, to, 'undef')
        n, m = frm[1], to[1]
        if op == 'zext':
            if n == 1:
                return norm(zi(x)) if isinstance(x, bool) else zi(x)
            return x
        if op == 'sext':
            if n == 1:
                return (2 ** m - 1 if x else 0) if isinstance(x, bool) else z3.If(zb(x), z3.IntVal(2 ** m - 1), z3.IntVal(0))
            s = self.signed(x, n)
            if is_num(s):
                return s % (2 ** m)
            return simp(z3.If(zi(x) >= 2 ** (n - 1), zi(x) + (2 ** m - 2 ** n), zi(x)))
        if op == 'trunc':
            if m == 1:
                if is_num(x):
                    return bool(x & 1)
                if isinstance(x, (bool, z3.BoolRef)):
                    return x
                b = zb(x)
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
                    return norm(b)
                return simp(zi(x) % 2 == 1)
            if is_num(x):
                return x % (2 ** m)
            if isinstance(x, (Ptr, Sym)):
                x = self.pterm(st, x)
            return self.trunc_int(st, zi(x), m)
        raise Unsupported('cast ' + op)

    def trunc_int(self, st, x, m):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(x.arg(1)) and z3.is_int_value(x.arg(2)):
            a, b = x.arg(1).as_long() % 2 ** m, x.arg(2).as_long() % 2 ** m
            return z3.If(x.arg(0), z3.IntVal(a), z3.IntVal(b))
        return simp(x % (2 ** m))

    # ---------------------------------------------------------------- running
    def find(self, qname, args=None, targs=None, pick=None):
        """Mangled names of functions whose simplified name is qname."""
        c = self.byname.get(qname, [])
        out = []
        for n in c:
            q, a, t, tail = simplify(demangle(n))
            if args is not None and not re.search(args, a):
                continue
            if targs is not None and not any(re.search(targs, x) for x in t):
                continue
            if re.search(r'C1E|D1E|D0E', n) and any(n.replace('C1E', 'C2E').replace('D1E', 'D2E') == k for k in c) and n not in ():
                if n.replace('C1E', 'C2E').replace('D1E', 'D2E') != n:
                    continue
            out.append(n)
        return out

    def get(self, qname, args=None, targs=None):
        c = self.find(qname, args, targs)
        if not c:
            raise Missing(qname)
        return c[0]

    def start(self, st, fname, args):
        fn = self.funcs[fname].parse()
        fr = Frame(fn)
        for (ty, nm, at), v in zip(fn.params, args):
            fr.regs[nm] = v
        st.frames.append(fr)
        return fr

    def run_function(self, st, fname, args):
        """Explores all paths of the function; returns [(state, 'ret'|'throw', value)]."""
        depth = len(st.frames)
        st = st.fork()
        fr = self.start(st, fname, args)
        fr.on_ret = 'root'
        sink = Sink()
        sink.root_depth = depth
        p0 = st.ghost.get('preempt')
        self.explore(st, sink)
        if depth == 0 and p0 is not None and self.opts.get('focus') == 'preempt':
            for s, k, v in sink.rets:
                self.oblige(s, 'preemption is left as found', zi(s.ghost['preempt']) == zi(p0), where='exit')
        return sink.rets

    def explore(self, st, sink):
        work = [st]
        while work:
            s = work.pop()
            self.npaths += 1
            if self.npaths > self.max_paths:
                raise Timeout('too many paths')
            self.run_path(s, sink, work)

    def run_path(self, st, sink, work):
        """Run one path until it ends or forks."""
        while True:
            fr = st.frames[-1]
            blk = fr.fn.blocks[fr.block]
            ins = blk.ins[fr.idx]
            r = self.step(st, fr, ins, sink, work)
            if r == 'end':
                return
            # r is None: continue

    def step(self, st, fr, ins, sink, work):
        op = ins.op
        A = ins.a
        mod = fr.fn.mod
        if op == 'load':
            p = self.val(st, fr, A['p'], ('ptr',))
            try:
                v = self.load_any(st, fr, ins, p)
            except NullDeref:
                self.oblige(st, 'no null pointer is dereferenced', False)
                return 'end'
            fr.regs[ins.res] = v
        elif op == 'store':
            p = self.val(st, fr, A['p'], ('ptr',))
            v = self.val(st, fr, A['v'], A['vt'])
            try:
                if A['atomic']:
                    self.atomic_store(st, p, v, A['vt'], mod, A['ord'], ins)
                else:
                    self.store(st, p, v, A['vt'], mod)
            except NullDeref:
                self.oblige(st, 'no null pointer is dereferenced', False)
                return 'end'
        elif op == 'alloca':
            n = 1
            if A['n']:
                n = self.val(st, fr, A['n'][1], A['n'][0])
                if not is_num(n):
                    raise Unsupported('variable alloca')
            o = self.new_obj(st, ins.res, mod.size_align(A['t'])[0] * n, 'stack')
            fr.regs[ins.res] = Ptr(o.id, 0)
        elif op == 'getelementptr':
            base = self.val(st, fr, A['args'][0][1], A['args'][0][0])
            idx = [(t, self.val(st, fr, v, t)) for t, v in A['args'][1:]]
            fr.regs[ins.res] = self.gep(st, mod, A['bt'], base, idx)
        elif op in ('call', 'invoke'):
            return self.do_call(st, fr, ins, sink, work)
        elif op == 'br':
            if A['c'] is None:
                return self.goto(st, A['t'], sink, work)
            c = self.val(st, fr, A['c'], ('int', 1))
            return self.branch(st, c, A['t'], A['f'], sink, work)
        elif op == 'switch':
            v = self.val(st, fr, A['v'], A['vt'])
            if isinstance(v, (Undef,)):
                v = self.fresh_of(st, A['vt'], 'undef')
            outs = []
            rest = []
            for cv, lab in A['cases']:
                cval = self.const(st, mod, cv, A['vt'])
                c = simp(zi(v) == zi(cval))
                outs.append((c, lab))
                rest.append(c)
            nz = [x for x in rest if x is not False]
            dflt = False if any(x is True for x in rest) else (simp(z3.Not(z3.Or([zb(x) for x in nz]))) if nz else True)
            outs.append((dflt, A['default']))
            live = [(c, l) for c, l in outs if c is not False and (c is True or self.feasible(st, c))]
            for c, l in live[1:]:
                s2 = st.fork()
                s2.assume(zb(c))
                if self.goto(s2, l, sink, work) != 'end':
                    work.append(s2)
            if not live:
                return 'end'
            st.assume(zb(live[0][0]))
            return self.goto(st, live[0][1], sink, work)
        elif op == 'ret':
            v = self.val(st, fr, A['v'], A['vt']) if A['v'] is not None else None
            return self.do_ret(st, fr, v, sink, work)
        elif op == 'icmp':
            x = self.val(st, fr, A['x'], A['t'])
            y = self.val(st, fr, A['y'], A['t'])
            fr.regs[ins.res] = self.icmp(st, A['pred'], A['t'], x, y)
        elif op == 'fcmp':
            fr.regs[ins.res] = fresh_bool('fcmp')
        elif op in llparse.BINOPS:
            x = self.val(st, fr, A['x'], ins.ty)
            y = self.val(st, fr, A['y'], ins.ty)
            fr.regs[ins.res] = self.binop(st, op, ins.ty, x, y, A['flags'])
        elif op in llparse.CASTS:
            fr.regs[ins.res] = self.cast(st, op, A['from'], ins.ty, self.val(st, fr, A['x'], A['from']))
        elif op == 'freeze':
            fr.regs[ins.res] = self.val(st, fr, A['x'], ins.ty)
        elif op == 'fneg':
            fr.regs[ins.res] = Opaque('fp')
        elif op == 'select':
            c = self.val(st, fr, A['c'], ('int', 1))
            x = self.val(st, fr, A['x'], ins.ty)
            y = self.val(st, fr, A['y'], ins.ty)
            c = simp(zb(c))
            if c is True:
                fr.regs[ins.res] = x
            elif c is False:
                fr.regs[ins.res] = y
            elif ins.ty[0] == 'int':
                fr.regs[ins.res] = simp(z3.If(c, zb(x), zb(y))) if ins.ty[1] == 1 else simp(z3.If(c, zi(x), zi(y)))
            else:
                s2 = None
                if self.feasible(st, z3.Not(c)):
                    s2 = st.fork()
                    s2.assume(z3.Not(c))
                    s2.frames[-1].regs[ins.res] = y
                    s2.frames[-1].idx += 1
                if self.feasible(st, c):
                    st.assume(c)
                    fr.regs[ins.res] = x
                    if s2:
                        work.append(s2)
                else:
                    if s2:
                        work.append(s2)
                    return 'end'
        elif op == 'phi':
            raise Unsupported('phi reached directly')
        elif op == 'extractvalue':
            x = self.val(st, fr, A['x'], A['t'])
            for i in A['ix']:
                x = x[i]
            fr.regs[ins.res] = x
        elif op == 'insertvalue':
            x = self.val(st, fr, A['x'], ins.ty)
            v = self.val(st, fr, A['v'], A['vt'])
            if not isinstance(x, list):
                x = [UNDEF] * len(mod.resolve(ins.ty)[1])
            x = list(x)
            if len(A['ix']) == 1:
                x[A['ix'][0]] = v
            else:
                y = list(x[A['ix'][0]])
                y[A['ix'][1]] = v
                x[A['ix'][0]] = y
            fr.regs[ins.res] = x
        elif op == 'landingpad':
            exc = st.landing
            st.landing = None
            sel = 0
            for c in A['clauses']:
                if c[0] == 'catch':
                    if c[1][0] == 'null':
                        sel = 1
                        break
                    if c[1][0] == 'global' and self.exc_match(exc.ty, c[1][1]):
                        sel = self.typeid(c[1][1])
                        break
            if exc.ptr is None:
                o = self.new_obj(st, 'exc', 64, 'heap')
                exc.ptr = Ptr(o.id, 0)
            st.ghost['exc:%d' % exc.ptr.obj] = exc
            fr.regs[ins.res] = [exc.ptr, sel]
        elif op == 'resume':
            v = self.val(st, fr, A['v'], A['vt'])
            exc = st.ghost['exc:%d' % v[0].obj]
            return self.unwind(st, exc, sink, work)
        elif op == 'unreachable':
            return 'end'
        elif op == 'atomicrmw':
            p = self.val(st, fr, A['p'], ('ptr',))
            v = self.val(st, fr, A['v'], ins.ty)
            fr.regs[ins.res] = self.atomic_rmw(st, p, A['rmw'], v, ins.ty, mod, A['ord'], ins)
        elif op == 'cmpxchg':
            p = self.val(st, fr, A['p'], ('ptr',))
            c = self.val(st, fr, A['c'], A['vt'])
            n = self.val(st, fr, A['n'], A['vt'])
            fr.regs[ins.res] = self.cmpxchg(st, p, c, n, A['vt'], mod, A['ord'], A['weak'])
        elif op == 'fence':
            pass
        elif op == 'va_arg':
            raise Unsupported('va_arg')
        else:
            raise Unsupported('instruction ' + op)
        fr.idx += 1
        return None

    def load_any(self, st, fr, ins, p):
        A = ins.a
        if A['atomic']:
            return self.atomic_load(st, p, ins.ty, fr.fn.mod, A['ord'], ins)
        return self.load(st, p, ins.ty, fr.fn.mod)

    # hooks for atomics: overridden per proof through self.atomic_hook
    atomic_hook = None

    def atomic_load(self, st, p, ty, mod, ords, ins):
        if self.atomic_hook:
            self.atomic_hook(self, st, 'load', p, ords)
        return self.load(st, p, ty, mod, atomic='load')

    def atomic_store(self, st, p, v, ty, mod, ords, ins):
        if self.atomic_hook:
            self.atomic_hook(self, st, 'store', p, ords)
        self.store(st, p, v, ty, mod, atomic='store')
        if self.atomic_hook:
            self.atomic_hook(self, st, 'store-done', p, ords)

    def atomic_rmw(self, st, p, rmw, v, ty, mod, ords, ins):
        if self.atomic_hook:
            self.atomic_hook(self, st, 'rmw', p, ords)
        old = self.load(st, p, ty, mod, atomic='rmw')
        if rmw == 'xchg':
            new = v
        elif rmw in ('add', 'sub', 'and', 'or', 'xor'):
            new = self.binop(st, rmw, ty, old, v, [])
        else:
            raise Unsupported('atomicrmw ' + rmw)
        self.store(st, p, new, ty, mod, atomic='rmw')
        if self.atomic_hook:
            self.atomic_hook(self, st, 'rmw-done', p, ords)
        return old

    def cmpxchg(self, st, p, c, n, ty, mod, ords, weak):
        if self.atomic_hook:
            self.atomic_hook(self, st, 'rmw', p, ords)
        old = self.load(st, p, ty, mod, atomic='rmw')
        if ty[0] == 'ptr':
            eq = self.ptr_eq(st, old, c)
            if isinstance(eq, bool):
                if eq:
                    self.store(st, p, n, ty, mod, atomic='rmw')
            else:
                raise Unsupported('cmpxchg on symbolic pointer')
        else:
            eq = simp(zi(old) == zi(c))
            if weak:
                eq = simp(z3.And(zb(eq), fresh_bool('weak')))
            if eq is True:
                self.store(st, p, n, ty, mod, atomic='rmw')
            elif eq is not False:
                self.store(st, p, simp(z3.If(eq, zi(n), zi(old))), ty, mod, atomic='rmw')
        if self.atomic_hook:
            self.atomic_hook(self, st, 'rmw-done', p, ords)
        return [old, eq]

    # ---------------------------------------------------------------- exceptions
    def typeid(self, ti):
        k = 'typeid:' + ti
        if k not in self.fnum:
            self.fnum[k] = 100 + len(self.fnum)
        return self.fnum[k]

    def exc_match(self, ty, target):
        if ty == target:
            return True
        seen = set()
        w = [ty]
        while w:
            t = w.pop()
            if t == target:
                return True
            if t in seen:
                continue
            seen.add(t)
            w += STD_BASES.get(t, [])
            for m in self.mods:
                g = m.globals.get(t)
                if g and not g.startswith('external'):
                    w += [x for x in re.findall(r'@(_ZTI\w+)', g)]
        return False

    def unwind(self, st, exc, sink, work):
        """Propagate an exception out of the current frame(s)."""
        while st.frames:
            fr = st.frames[-1]
            b = fr.fn.blocks[fr.block]
            ins = b.ins[fr.idx]
            if ins.op == 'invoke':
                lab = ins.a['unwind']
                lp = next((x for x in fr.fn.blocks[lab].ins if x.op == 'landingpad'), None)
                ok = False
                for c in lp.a['clauses']:
                    if c[0] == 'cleanup':
                        ok = True
                    elif c[0] == 'catch' and (c[1][0] == 'null' or self.exc_match(exc.ty, c[1][1])):
                        ok = True
                    elif c[0] == 'filter':
                        ok = True
                if ok:
                    st.landing = exc
                    return self.goto(st, lab, sink, work)
            st.frames.pop()
            r = self.popped(st, fr, sink)
            if r:
                return 'end'
            if fr.on_ret == 'root':
                sink.rets.append((st, 'throw', exc))
                return 'end'
            if callable(fr.on_ret):
                return fr.on_ret(self, st, 'throw', exc, sink, work)
        sink.rets.append((st, 'throw', exc))
        return 'end'

    def popped(self, st, fr, sink):
        """A frame was left; ends loop probes that started in it."""
        if sink.depth is not None and len(st.frames) <= sink.depth:
            sink.exits.append(st)
            return True
        return False

    def do_ret(self, st, fr, v, sink, work):
        st.frames.pop()
        if self.popped(st, fr, sink):
            return 'end'
        if fr.on_ret == 'root':
            sink.rets.append((st, 'ret', v))
            return 'end'
        if callable(fr.on_ret):
            return fr.on_ret(self, st, 'ret', v, sink, work)
        return self.finish_call(st, v, sink, work)

    def finish_call(self, st, v, sink, work):
        """Store a call result in the (now top) frame and move on."""
        fr = st.frames[-1]
        ins = fr.fn.blocks[fr.block].ins[fr.idx]
        if ins.res is not None:
            if v is None:
                v = UNDEF
            fr.regs[ins.res] = v
        if ins.op == 'invoke':
            return self.goto(st, ins.a['normal'], sink, work)
        fr.idx += 1
        return None

    # ---------------------------------------------------------------- control flow
    def branch(self, st, c, t, f, sink, work):
        if isinstance(c, Undef):
            c = fresh_bool('undef')
        c = simp(zb(c)) if not isinstance(c, bool) else c
        if c is True:
            return self.goto(st, t, sink, work)
        if c is False:
            return self.goto(st, f, sink, work)
        ft, ff = self.feasible(st, c), self.feasible(st, z3.Not(c))
        if ft and ff:
            s2 = st.fork()
            s2.assume(z3.Not(c))
            s2.trace = s2.trace + (('F', self.where(s2)),)
            if self.goto(s2, f, sink, work) != 'end':
                work.append(s2)
            st.assume(c)
            st.trace = st.trace + (('T', self.where(st)),)
            return self.goto(st, t, sink, work)
        if ft:
            st.assume(c)
            return self.goto(st, t, sink, work)
        if ff:
            st.assume(z3.Not(c))
            return self.goto(st, f, sink, work)
        return 'end'

    def goto(self, st, lab, sink, work):
        fr = st.frames[-1]
        fn = fr.fn
        frm = fr.block
        # evaluate phis
        b = fn.blocks[lab]
        vals = []
        k = 0
        for ins in b.ins:
            if ins.op != 'phi':
                break
            for v, src in ins.a['inc']:
                if src == frm:
                    vals.append((ins.res, self.val(st, fr, v, ins.ty)))
                    break
            else:
                raise Unsupported('phi source')
            k += 1
        for n, v in vals:
            fr.regs[n] = v
        fr.prev = frm
        fr.block = lab
        fr.idx = k
        # probe boundaries
        if sink.depth is not None and len(st.frames) - 1 == sink.depth:
            if lab == sink.header:
                sink.backs.append(st)
                return 'end'
            if lab not in sink.body:
                sink.exits.append(st)
                return 'end'
        if not fn.loops:
            return None
        for h in list(fr.active):
            if lab not in fn.loops[h]:
                del fr.active[h]
        if lab in fn.loops:
            if ('concrete', lab) in fr.visits:
                if frm in fn.loops[lab]:
                    return None   # every round is decided: executed as it is
                fr.visits = {k: v for k, v in fr.visits.items() if k != ('concrete', lab)}
            if self.mode == 'unroll':
                import loops
                if frm not in fn.loops[lab] and loops.decided(self, st, lab, len(st.frames) - 1, fn.loops[lab]):
                    fr.visits = dict(fr.visits)
                    fr.visits[('concrete', lab)] = 1
                    return None
                fr.visits = dict(fr.visits)
                fr.visits[lab] = fr.visits.get(lab, 0) + 1
                if frm not in fn.loops[lab]:
                    fr.visits[lab] = 1
                if fr.visits[lab] > self.unroll + 1:
                    self.bounded_hit = True
                    return 'end'
                return None
            if lab in fr.active:
                return 'end'      # invariant was established for every back edge in enter_loop
            return self.enter_loop(st, lab, sink, work)
        return None

    # ---------------------------------------------------------------- calls
    def handler_for(self, name):
        if name in self._hcache:
            return self._hcache[name]
        q, a, t, tail = simplify(demangle(name))
        h = self.handlers.get(q)
        if h is None:
            for rx, f in self.patterns:
                if rx.match(q):
                    h = f
                    break
        self._hcache[name] = h
        return h

    def do_call(self, st, fr, ins, sink, work):
        A = ins.a
        callee = self.val(st, fr, A['callee'], ('ptr',)) if A['callee'][0] != 'asm' else A['callee']
        if isinstance(callee, tuple):
            return self.do_asm(st, fr, ins, callee, sink, work)
        args = []
        for t, v, at in A['args']:
            if t[0] == 'metadata':
                args.append(UNDEF)
                continue
            x = self.val(st, fr, v, t)
            if 'byval' in at:
                ty = at['byval']
                sz = fr.fn.mod.size_align(ty)[0]
                o = self.new_obj(st, 'byval', sz, 'stack')
                self.memcpy(st, Ptr(o.id, 0), x, sz)
                x = Ptr(o.id, 0)
            args.append(x)
        return self.call_value(st, callee, args, ins, sink, work)

    def call_value(self, st, callee, args, ins, sink, work):
        if isinstance(callee, Sym):
            callee = self.resolve_sym_fn(st, callee)
        if not isinstance(callee, Fn):
            raise Unsupported('call through %r' % (callee,))
        name = callee.name
        if name in self.aliases and name not in self.funcs:
            name = self.aliases[name]
        if name.startswith('llvm.'):
            return self.intrinsic(st, name, args, ins, sink, work)
        h = self.handler_for(name)
        if h is not None:
            try:
                r = h(self, st, Call(self, name, args, ins))
            except NullDeref:
                self.oblige(st, 'no null pointer is dereferenced', False)
                return 'end'
            if r is not INLINE:
                self.used_models.add(simplify(demangle(name))[0])
                return self.apply_results(st, r, sink, work)
        fn = self.funcs.get(name)
        if fn is None:
            raise Unsupported('call to external %s' % demangle(name))
        if len(st.frames) > 150:
            raise Unsupported('call depth at ' + demangle(name))
        self.used_funcs.add(name)
        self.start(st, name, args)
        st.frames[-1].on_ret = None
        if fn.entry in fn.loops:
            raise Unsupported('entry loop')
        return None

    def resolve_sym_fn(self, st, s):
        t = simp(s.term)
        if is_num(t):
            if t == 0:
                self.oblige(st, 'no null function pointer is called', False)
            for n, k in self.fnum.items():
                if k == t:
                    return Fn(n)
        raise Unsupported('call through unknown function pointer')

    def apply_results(self, st, r, sink, work):
        """r: value | Throw | list of (state, value|Throw) | 'end'"""
        if isinstance(r, Results):
            outs = r.outs
            if not outs:
                return 'end'
            first = None
            for (s, v) in outs:
                if s is st and first is None:
                    first = v
                    continue
                if isinstance(v, Throw):
                    e = self.unwind(s, v.exc, sink, work)
                else:
                    e = self.finish_call(s, v, sink, work)
                if e != 'end':
                    work.append(s)
            if first is None:
                return 'end'
            if isinstance(first, Throw):
                return self.unwind(st, first.exc, sink, work)
            if first is NOVAL:
                first = None
            return self.finish_call(st, first, sink, work)
        if r is END:
            return 'end'
        if r is PUSHED:
            return None
        if isinstance(r, Throw):
            return self.unwind(st, r.exc, sink, work)
        return self.finish_call(st, r, sink, work)

    def call_closure(self, st, fname, args, cont):
        """Push a frame for fname; cont(ex, st, kind, val, sink, work) runs when it returns."""
        h = self.handler_for(fname)
        if h is not None:
            raise Unsupported('closure with a model: ' + fname)
        self.used_funcs.add(fname)
        self.start(st, fname, args)
        st.frames[-1].on_ret = cont
        return PUSHED

    def do_asm(self, st, fr, ins, asm, sink, work):
        if asm[1].strip('"') == '':
            return self.finish_call(st, None, sink, work)
        raise Unsupported('inline assembly ' + asm[1][:60])

    def intrinsic(self, st, name, args, ins, sink, work):
        r = None
        if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime') or name.startswith('llvm.assume') \
                or name in ('llvm.stackrestore.p0', 'llvm.stackrestore', 'llvm.donothing') or name.startswith('llvm.va_end') or name.startswith('llvm.experimental.noalias') or name.startswith('llvm.prefetch'):
            pass
        elif name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            h = self.handlers.get('llvm.memcpy')
            if h:
                r2 = h(self, st, Call(self, name, args, ins))
                if r2 is not INLINE:
                    return self.apply_results(st, r2, sink, work)
            self.memcpy(st, args[0], args[1], args[2])
        elif name.startswith('llvm.memset'):
            self.memset(st, args[0], args[1], args[2])
        elif name == 'llvm.trap':
            return 'end'
        elif name.startswith('llvm.threadlocal.address'):
            r = args[0]
        elif name.startswith('llvm.eh.typeid.for'):
            r = self.typeid(self.global_of(st, args[0]))
        elif name.startswith('llvm.expect'):
            r = args[0]
        elif name.startswith('llvm.stacksave'):
            r = NULL
        elif name.startswith('llvm.umin') or name.startswith('llvm.umax'):
            a, b = zi(args[0]), zi(args[1])
            r = simp(z3.If(a < b, a, b) if 'umin' in name else z3.If(a > b, a, b))
        elif name.startswith('llvm.va_start'):
            h = self.handlers.get('llvm.va_start')
            if not h:
                raise Unsupported('varargs')
            h(self, st, Call(self, name, args, ins))
        elif name.startswith('llvm.is.constant'):
            r = False
        elif name.startswith('llvm.uadd.with.overflow'):
            n = ins.ty[1][0][1]
            s = zi(args[0]) + zi(args[1])
            r = [simp(z3.If(s >= 2 ** n, s - 2 ** n, s)), simp(s >= 2 ** n)]
        elif name.startswith('llvm.umul.with.overflow'):
            n = ins.ty[1][0][1]
            s = zi(args[0]) * zi(args[1])
            r = [simp(s % 2 ** n), simp(s >= 2 ** n)]
        else:
            raise Unsupported('intrinsic ' + name)
        return self.finish_call(st, r, sink, work)

    def global_of(self, st, p):
        if isinstance(p, Ptr):
            return st.objs[p.obj].meta.get('gname')
        return None

    # ---------------------------------------------------------------- loops
    def enter_loop(self, st, header, sink, work):
        import loops
        return loops.enter_loop(self, st, header, sink, work)


class Missing(Exception):
    """A function the contract talks about no longer exists."""


class NullDeref(Exception):
    pass


class _Tok:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


INLINE = _Tok('INLINE')
END = _Tok('END')
PUSHED = _Tok('PUSHED')
NOVAL = _Tok('NOVAL')


class Results:
    def __init__(self, outs):
        self.outs = outs


class Call:
    __slots__ = ('ex', 'name', 'args', 'ins', '_s')

    def __init__(self, ex, name, args, ins):
        self.ex, self.name, self.args, self.ins = ex, name, args, ins
        self._s = simplify(demangle(name))

    @property
    def q(self):
        return self._s[0]

    @property
    def argtypes(self):
        return self._s[1]

    @property
    def targs(self):
        return self._s[2]

    @property
    def retty(self):
        return self.ins.ty
