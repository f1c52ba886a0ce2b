"""Loop rule: cut the loop at its header with an automatically found inductive invariant."""
import z3
from values import *
import execu
from execu import Sink


class Loc:
    """A state component that can change"""
    __slots__ = ('kind', 'a', 'b')

    def __init__(self, kind, a, b=None):
        self.kind, self.a, self.b = kind, a, b

    def k(self):
        return (self.kind, self.a, self.b)

    def __repr__(self):
        return '%s:%s:%s' % (self.kind, self.a, self.b)


def get(st, loc, depth):
    if loc[0] == 'cell':
        c = st.mem.get(loc[1], {}).get(loc[2])
        return c
    if loc[0] == 'reg':
        return st.frames[depth].regs.get(loc[1])
    if loc[0] == 'ghost':
        return st.ghost.get(loc[1])
    if loc[0] == 'heap':
        return st.heap.get(loc[1])


def diff(st0, st1, depth, header_phis):
    """locations whose value differs between the loop head state and a back edge state"""
    out = []
    for oid in st0.mem:
        m1 = st1.mem.get(oid)
        m0 = st0.mem[oid]
        if m1 is m0:
            continue
        if m1 is None:
            out.append(('cell', oid, '*'))
            continue
        for off in set(m0) | set(m1):
            a, b = m0.get(off), m1.get(off)
            if a is None or b is None:
                out.append(('cell', oid, off))
            elif a[0] != b[0] or not veq(a[1], b[1]):
                out.append(('cell', oid, off))
    for r in header_phis:
        if not veq(st0.frames[depth].regs.get(r), st1.frames[depth].regs.get(r)):
            out.append(('reg', r, None))
    for g in set(st0.ghost) | set(st1.ghost):
        if isinstance(g, str) and g.startswith('exc:'):
            continue
        if g not in st0.ghost or g not in st1.ghost or not gveq(st0.ghost[g], st1.ghost[g]):
            out.append(('ghost', g, None))
    for h in set(st0.heap) | set(st1.heap):
        if h not in st0.heap:
            # created on demand with a fixed name: equal unless written
            continue_name = st1.heap[h]
            if z3.is_const(continue_name) and continue_name.decl().name() == 'H_%s_%d_%d' % h:
                continue
            out.append(('heap', h, None))
        elif h in st1.heap and not st0.heap[h].eq(st1.heap[h]):
            out.append(('heap', h, None))
    return out


def gveq(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(gveq(a[k], b[k]) for k in a)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(gveq(x, y) for x, y in zip(a, b))
    return veq(a, b)


def havoc_val(ex, st, v, nm, size=None):
    if hasattr(v, 'havoc'):
        return v.havoc(ex, st)
    if isinstance(v, bool) or isinstance(v, z3.BoolRef):
        return fresh_bool(nm)
    if is_num(v) or isinstance(v, z3.ArithRef):
        t = fresh_int(nm)
        if size:
            st.assume(z3.And(t >= 0, t < 2 ** (8 * size)))
        return t
    if isinstance(v, z3.ArrayRef):
        return z3.Const(fresh_name(nm), v.sort())
    if isinstance(v, z3.ExprRef):
        return z3.Const(fresh_name(nm), v.sort())
    if isinstance(v, Sym):
        t = fresh_int(nm)
        st.assume(t >= 0)
        return Sym(t, 0, v.tag)
    if isinstance(v, It):
        return It(v.c, fresh_int(nm), v.ver, v.rev)
    if isinstance(v, Elem):
        return Elem(v.c, fresh_int(nm), v.off, v.ver)
    if isinstance(v, Ptr):
        return Ptr(v.obj, fresh_int(nm))
    if isinstance(v, (Undef, Opaque)):
        return v
    if isinstance(v, dict):
        return {k: havoc_val(ex, st, x, nm) for k, x in v.items()}
    if v is None:
        return None
    raise Unsupported('loop changes %r' % (v,))


def havoc_loc(ex, st, loc, depth, back):
    """replace the component by an arbitrary value of its kind"""
    kind = loc[0]
    if kind == 'cell':
        _, oid, off = loc
        if off == '*':
            st.mem.pop(oid, None)
            return
        m = st.cells(oid, True)
        c = m.get(off)
        b = back.mem.get(oid, {}).get(off) if back is not None else None
        if c is None or b is None:
            m.pop(off, None)
            return
        if c[0] is None and b[0] is None:
            m[off] = (None, c[1].havoc(ex, st))
            return
        if c[0] != b[0]:
            raise Unsupported('loop changes the layout of %s' % st.objs[oid].name)
        for (fo, sz, mon, nm, opts) in ex.protected.get(oid, ()):
            if fo == off and sz == c[0]:
                f = [f for f in mon.fields if f.name == nm][0]
                m[off] = (c[0], f.fresh(ex, st))
                return
        v = c[1]
        w = b[1]
        if isinstance(w, (Undef, Opaque)) or isinstance(v, (Undef, Opaque)):
            # scratch slot: no information
            m.pop(off, None)
            return
        if isinstance(v, (It, Elem)) and isinstance(w, (It, Elem)) and v.c != w.c:
            m.pop(off, None)
            return
        if isinstance(v, Ptr) and isinstance(w, Ptr) and v.obj != w.obj:
            m.pop(off, None)      # different objects: loads become arbitrary pointers
            return
        if type(v) is not type(w) and not (isinstance(v, (int, z3.ExprRef)) and isinstance(w, (int, z3.ExprRef))):
            if isinstance(v, (Sym, Ptr, Fn, It, Elem)) and isinstance(w, (Sym, Ptr, Fn, It, Elem)):
                t = fresh_int('ptr')
                st.assume(t >= 0)
                tag = v.tag if isinstance(v, Sym) else (w.tag if isinstance(w, Sym) else None)
                if isinstance(v, (It, Elem)) or isinstance(w, (It, Elem)):
                    m.pop(off, None)
                    return
                m[off] = (c[0], Sym(t, 0, tag))
                return
            m.pop(off, None)
            return
        m[off] = (c[0], havoc_val(ex, st, v, '%s+%s' % (st.objs[oid].name, off), c[0]))
    elif kind == 'reg':
        regs = st.frames[depth].regs
        v, w = regs[loc[1]], back.frames[depth].regs[loc[1]]
        if isinstance(v, Ptr) and isinstance(w, Ptr) and v.obj != w.obj:
            raise Unsupported('loop register over several objects')
        if isinstance(v, (It, Elem)) and isinstance(w, (It, Elem)) and v.c != w.c:
            raise Unsupported('loop register over several containers')
        if type(v) is not type(w) and isinstance(v, (Sym, Ptr)) and isinstance(w, (Sym, Ptr)):
            t = fresh_int('ptr')
            st.assume(t >= 0)
            regs[loc[1]] = Sym(t, 0, v.tag if isinstance(v, Sym) else w.tag)
            return
        size = None
        ty = next((i.ty for i in st.frames[depth].fn.blocks[st.frames[depth].block].ins if i.res == loc[1]), None)
        if ty and ty[0] == 'int' and ty[1] > 1:
            size = ty[1] // 8
        regs[loc[1]] = havoc_val(ex, st, v, loc[1], size)
    elif kind == 'ghost':
        g = loc[1]
        if g not in st.ghost:
            return
        if g in ('held',):
            raise Unsupported('a loop iteration changes the set of held locks')
        st.ghost[g] = havoc_val(ex, st, st.ghost[g], str(g))
        hook = ex.ghost_havoc.get(g[0] if isinstance(g, tuple) else g)
        if hook:
            hook(ex, st, g)
    elif kind == 'heap':
        h = loc[1]
        st.heap[h] = z3.Array(fresh_name('H_%s_%d_%d' % h), z3.IntSort(), z3.IntSort())


def fix_iterators(st, depth, entry_pairs):
    """iterators whose container was replaced keep pointing into it when every back edge agreed"""
    for (loc, c) in entry_pairs:
        cell = st.mem.get(c[0], {}).get(c[1])
        if cell is None or cell[0] is not None:
            continue
        ver = cell[1].ver
        v = get(st, loc, depth)
        if v is None:
            continue
        if loc[0] == 'cell':
            v = v[1]
        if isinstance(v, (It, Elem)):
            nv = It(v.c, v.idx, ver, v.rev) if isinstance(v, It) else Elem(v.c, v.idx, v.off, ver)
            if loc[0] == 'cell':
                m = st.cells(loc[1], True)
                m[loc[2]] = (m[loc[2]][0], nv)
            else:
                st.frames[depth].regs[loc[1]] = nv


def all_iters(st, depth):
    for oid, m in st.mem.items():
        for off, (s, v) in m.items():
            if isinstance(v, (It, Elem)):
                yield ('cell', oid, off), v
    for r, v in st.frames[depth].regs.items():
        if isinstance(v, (It, Elem)):
            yield ('reg', r, None), v


def cver(st, c):
    cell = st.mem.get(c[0], {}).get(c[1])
    if cell is None or cell[0] is not None:
        return None
    return cell[1].ver


def probe(ex, st, header, depth, body):
    sink = Sink(depth, header, body)
    s = st.fork()
    fr = s.frames[-1]
    fr.active[header] = True
    rec, log = ex.recording, ex.branch_log
    ex.recording = False
    ex.branch_log = []
    try:
        ex.explore(s, sink)
        return sink, ex.branch_log
    finally:
        ex.recording = rec
        ex.branch_log = log


def decided(ex, s, header, depth, body):
    """does the loop end after a small fixed number of rounds, without any case distinction"""
    for k in range(150):
        sk, log = probe(ex, s, header, depth, body)
        if len(sk.exits) == 1 and not sk.backs:
            return True
        if sk.exits or len(sk.backs) != 1:
            return False
        if k == 4 and not diff(s, sk.backs[0], depth, []):
            return False
        s = sk.backs[0]
    return False


def int_of(v):
    if isinstance(v, bool) or isinstance(v, z3.BoolRef):
        return None
    if is_num(v) or isinstance(v, z3.ArithRef):
        return zi(v)
    if isinstance(v, Sym):
        return v.term
    if isinstance(v, (It, Elem)):
        return zi(v.idx)
    if isinstance(v, Ptr) and not is_num(v.off):
        return v.off
    return None


def enter_loop(ex, st, header, sink, work):
    depth = len(st.frames) - 1
    fr = st.frames[-1]
    body = fr.fn.loops[header]
    phis = [i.res for i in fr.fn.blocks[header].ins if i.op == 'phi']
    where = ex.where(st)
    s0 = st.fork()            # entry state
    mod = {}
    cur = s0.fork()
    pairs = None
    backs = []
    for rnd in range(8):
        lz = ex.lazy_log
        ex.lazy_log = {}
        try:
            sk, log = probe(ex, cur, header, depth, body)
            lazy = ex.lazy_log
        finally:
            ex.lazy_log = lz
        if rnd == 0 and not sk.exits and len(sk.backs) == 1 and decided(ex, sk.backs[0], header, depth, body):
            fr.visits = dict(fr.visits)
            fr.visits[('concrete', header)] = 1
            return None
        new = False
        # cells read for the first time inside the loop and never changed belong to the entry state
        for (oid, off), (size, v) in lazy.items():
            if oid in s0.mem and off not in s0.mem[oid] and ('cell', oid, off) not in mod:
                if sk.backs and all(b.mem.get(oid, {}).get(off) is not None and veq(b.mem[oid][off][1], v) for b in sk.backs):
                    for s in (s0, st):
                        s.cells(oid, True)[off] = (size, v)
                    for f in ex.lazy_facts.get((oid, off), []):
                        s0.assume(f); st.assume(f)
                    new = True
        for b in sk.backs:
            for l in diff(cur, b, depth, phis):
                if l not in mod:
                    # a location absent at entry carries no information
                    mod[l] = b
                    new = True
        ip = None
        for b in sk.backs:
            p = {(l, v.c) for l, v in all_iters(b, depth) if v.ver == cver(b, v.c)}
            ip = p if ip is None else ip & p
        e = {(l, v.c) for l, v in all_iters(s0, depth) if v.ver == cver(s0, v.c)}
        pairs = (ip or set()) & e
        if not sk.backs:
            break
        if not new:
            break
        cur = s0.fork()
        for l, b in mod.items():
            havoc_loc(ex, cur, l, depth, b)
        fix_iterators(cur, depth, pairs)
        backs = sk.backs
    else:
        raise Unsupported('loop at %s: modified locations do not stabilise' % where)
    if not sk.backs:
        # the loop never comes round: plain execution
        fr.active[header] = True
        return None
    # ---- candidate invariants: (name, function(state) -> formula)
    cands = candidates(ex, s0, cur, mod, depth, log)
    # initially true?
    live = []
    for nm, f in cands:
        try:
            g = f(s0)
            g1 = f(cur)
        except Unsupported:
            continue
        if g is None or g1 is None:
            continue
        g = simp(g)
        if g is True or (g is not False and ex.implied(s0.pc, g)):
            live.append((nm, f))
    # Houdini
    for rnd in range(12):
        h = cur.fork()
        for nm, f in live:
            h.assume(f(h))
        sk, _ = probe(ex, h, header, depth, body)
        keep = []
        for nm, f in live:
            ok = True
            for b in sk.backs:
                try:
                    g = f(b)
                except Unsupported:
                    g = None
                if g is None:
                    ok = False
                    break
                g = simp(g)
                if g is True:
                    continue
                if g is False or not ex.implied(b.pc, g):
                    ok = False
                    break
            if ok:
                keep.append((nm, f))
        if len(keep) == len(live):
            break
        live = keep
    for nm, f in live:
        cur.assume(f(cur))
    ex.loop_reports.append((where, [nm for nm, f in live], [repr(l) for l in mod]))
    if ex.trace_on:
        print('   loop at %s mod=%s inv=%s' % (where, [(l[0], s0.objs[l[1]].name if l[0] == 'cell' else l[1], l[2]) for l in mod], [nm for nm, f in live]))
    # continue from the cut state
    cur.frames[-1].active[header] = True
    cur.trace = st.trace + (('loop', where),)
    st.__dict__.update(cur.__dict__)
    return None


def candidates(ex, s0, cur, mod, depth, log):
    out = []
    ints = []
    for l in mod:
        v0, v1 = get(s0, l, depth), get(cur, l, depth)
        if l[0] == 'cell':
            if l[2] == '*' or v0 is None or v1 is None:
                continue
            v0, v1 = v0[1], v1[1]
        if isinstance(v1, It) or isinstance(v1, Elem):
            c = v1.c
            def rng(s, l=l, c=c):
                v = get(s, l, depth)
                v = v[1] if l[0] == 'cell' else v
                import stl
                sq = stl.get_cont(s, c)
                if not isinstance(sq, stl.Seq):
                    return None
                return z3.And(zi(sq.lo) <= zi(v.idx), zi(v.idx) <= zi(sq.hi))
            out.append(('iterator in range', rng))
        i0, i1 = int_of(v0), int_of(v1)
        if i0 is not None and i1 is not None and not isinstance(v1, Sym):
            def val(s, l=l):
                v = get(s, l, depth)
                v = v[1] if l[0] == 'cell' else v
                return int_of(v)
            ints.append((l, val, i0))
            out.append(('not below entry value', lambda s, val=val, i0=i0: val(s) >= i0))
            out.append(('not above entry value', lambda s, val=val, i0=i0: val(s) <= i0))
            if l[0] == 'cell' and get(cur, l, depth)[0] in (4, 8):
                b = 2 ** (8 * get(cur, l, depth)[0] - 1)
                out.append(('signed, not below entry value', lambda s, val=val, i0=i0, b=b: z3.Implies(i0 < b, z3.And(val(s) < b, val(s) >= i0))))
                out.append(('signed, not above entry value', lambda s, val=val, i0=i0, b=b: z3.If(i0 < b, z3.Or(val(s) <= i0, val(s) >= b), z3.And(val(s) >= b, val(s) <= i0))))
        if isinstance(v1, Sym):
            def val(s, l=l):
                v = get(s, l, depth)
                v = v[1] if l[0] == 'cell' else v
                return ex.pterm(s, v)
            out.append(('non-null', lambda s, val=val: val(s) != 0))
        if isinstance(v1, (bool, z3.BoolRef)) :
            def bval(s, l=l):
                v = get(s, l, depth)
                v = v[1] if l[0] == 'cell' else v
                return zb(v)
            out.append(('flag set', lambda s, b=bval: b(s)))
            out.append(('flag clear', lambda s, b=bval: z3.Not(b(s))))
        if hasattr(v1, 'loop_candidates'):
            out += v1.loop_candidates(ex, s0, l, depth, v0)
    for i in range(len(ints)):
        for j in range(i + 1, len(ints)):
            (l1, f1, a1), (l2, f2, a2) = ints[i], ints[j]
            out.append(('moves together', lambda s, f1=f1, f2=f2, a1=a1, a2=a2: f1(s) - a1 == f2(s) - a2))
            out.append(('moves oppositely', lambda s, f1=f1, f2=f2, a1=a1, a2=a2: f1(s) - a1 == a2 - f2(s)))
    # comparisons evaluated in the loop, over values known at the head
    seen = set()
    head = {}
    for l, f, a in ints:
        t = f(cur)
        if z3.is_const(t):
            head[t.get_id()] = (t, f, a)
    for (a, b) in log:
        a, b = z3.simplify(a), z3.simplify(b)
        k = (a.get_id(), b.get_id())
        if k in seen or len(seen) > 40:
            continue
        seen.add(k)
        vs = consts(a) | consts(b)
        ids = {v.get_id() for v in vs}
        if not (ids & set(head)):
            continue
        known = known_consts(s0)
        if any(v.get_id() not in head and v.get_id() not in known for v in vs):
            continue
        def mk(a=a, b=b):
            def inst(s, rel):
                sub = [(head[i][0], head[i][1](s)) for i in ids if i in head]
                return rel(z3.substitute(a, *sub), z3.substitute(b, *sub))
            return inst
        inst = mk()
        out.append(('%s <= %s' % (a, b), lambda s, inst=inst: inst(s, lambda x, y: x <= y)))
        out.append(('%s >= %s' % (a, b), lambda s, inst=inst: inst(s, lambda x, y: x >= y)))
        out.append(('%s != %s' % (a, b), lambda s, inst=inst: inst(s, lambda x, y: x != y)))
        still = lambda s, ids=ids: z3.And(*[head[i][1](s) == head[i][2] for i in ids if i in head])
        out.append(('%s <= %s or first round' % (a, b), lambda s, inst=inst, still=still: z3.Or(still(s), inst(s, lambda x, y: x <= y))))
        out.append(('%s >= %s or first round' % (a, b), lambda s, inst=inst, still=still: z3.Or(still(s), inst(s, lambda x, y: x >= y))))
    for hook in ex.loop_hook:
        out += hook(ex, s0, cur, mod, depth)
    return out


def consts(t, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    w = [t]
    while w:
        x = w.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc.add(x)
        w += x.children()
    return acc


def known_consts(st):
    s = set()
    for p in st.pc:
        for c in consts(p):
            s.add(c.get_id())
    for m in st.mem.values():
        for (_, v) in m.values():
            if isinstance(v, z3.ExprRef):
                for c in consts(v):
                    s.add(c.get_id())
    return s
