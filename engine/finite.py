"""Counterexamples of obligations with quantifiers: looks for a model in which every index lies in a small range.

Quantifiers are replaced by their instances over the range; whatever is compared with a bound variable, and every
index that occurs, is confined to the range, so that no instance outside it matters."""
import itertools
import z3

D = list(range(-1, 6))


class Give(Exception):
    pass


class Expander:
    def __init__(self):
        self.side = []
        self.count = 0
        self.memo = {}

    def bounds(self, body, n):
        """terms compared with one of the n innermost variables"""
        out, seen, work = [], set(), [body]
        while work:
            t = work.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_quantifier(t):
                continue
            if z3.is_le(t) or z3.is_lt(t) or z3.is_ge(t) or z3.is_gt(t):
                a, b = t.children()
                for x, y in ((a, b), (b, a)):
                    if z3.is_var(x) and z3.get_var_index(x) < n and not z3.is_int_value(y) and not z3.is_var(y):
                        out.append(y)
            work += t.children()
        return out

    def go(self, t):
        k = t.get_id()
        r = self.memo.get(k)
        if r is None:
            r = self._go(t)
            self.memo[k] = (t, r)
            return r
        return r[1]

    def _go(self, t):
        if z3.is_quantifier(t):
            if t.is_lambda():
                raise Give()
            n = t.num_vars()
            if any(t.var_sort(i) != z3.IntSort() for i in range(n)):
                raise Give()
            body = t.body()
            bs = self.bounds(body, n)
            parts = []
            for c in itertools.product(D, repeat=n):
                self.count += 1
                if self.count > 40000:
                    raise Give()
                vals = [z3.IntVal(v) for v in c]
                b = z3.simplify(z3.substitute_vars(body, *reversed(vals)))
                parts.append(self.go(b))
                for y in bs:
                    w = z3.simplify(z3.substitute_vars(y, *reversed(vals)))
                    if not z3.is_int_value(w) and w.sort() == z3.IntSort():
                        self.side.append(w)
            return z3.And(parts) if t.is_forall() else z3.Or(parts)
        if not z3.is_app(t) or t.num_args() == 0:
            return t
        ch = [self.go(c) for c in t.children()]
        if all(a.eq(b) for a, b in zip(ch, t.children())):
            return t
        if z3.is_and(t):
            return z3.And(ch)
        if z3.is_or(t):
            return z3.Or(ch)
        return t.decl()(*ch)


def indices(fs):
    out, seen, work = {}, set(), list(fs)
    while work:
        t = work.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_STORE):
                i = t.arg(1)
                if i.sort() == z3.IntSort() and not z3.is_int_value(i):
                    out[i.get_id()] = i
            work += t.children()
    return list(out.values())


def has_quantifier(fs):
    seen, work = set(), list(fs)
    while work:
        t = work.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            return True
        work += t.children()
    return False


def find(fs, ms=8000):
    """solver with a model of all formulas, or None"""
    fs = [z3.simplify(f) for f in fs]
    if not has_quantifier(fs):
        return None
    e = Expander()
    try:
        qs = [e.go(f) for f in fs]
    except (Give, z3.Z3Exception):
        return None
    s = z3.Solver()
    s.set('timeout', ms)
    for q in qs:
        s.add(q)
    seen = set()
    for w in e.side + indices(qs + e.side):
        if w.get_id() not in seen:
            seen.add(w.get_id())
            s.add(w >= D[0], w <= D[-1])
    return s if s.check() == z3.sat else None
