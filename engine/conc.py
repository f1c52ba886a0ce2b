"""Monitors: lock-protected state with invariants, guarantees and relies; coroutine runtime contracts."""
import z3
from values import *
from execu import INLINE, END, Results, Throw, Exc, NOVAL
import stl
from stl import Seq

B = z3.BoolSort
I = z3.IntSort


def bool_array(nm):
    return z3.Const(fresh_name(nm), z3.ArraySort(z3.IntSort(), z3.BoolSort()))


def same(a, b):
    """formula: two component values are equal"""
    if isinstance(a, Seq):
        return a.equal(b)
    if hasattr(a, 'equal'):
        return a.equal(b)
    if isinstance(a, (bool, z3.BoolRef)):
        return zb(a) == zb(b)
    if isinstance(a, z3.ArrayRef):
        if a.eq(b):
            return z3.BoolVal(True)
        return a == b
    return zi(a) == zi(b)


class Field:
    def __init__(self, name, off, size, kind, tag=None, cd=None, pos=False, mk=None, obj=None, atomic=False):
        self.name, self.off, self.size, self.kind, self.tag, self.cd, self.pos, self.mk = name, off, size, kind, tag, cd, pos, mk
        self.obj, self.atomic = obj, atomic

    def fresh(self, ex, st):
        k = self.kind
        if self.mk:
            return self.mk(ex, st)
        if k == 'ptr':
            t = fresh_int(self.name)
            st.assume(t >= 0)
            return Sym(t, 0, self.tag)
        if k == 'int':
            t = fresh_int(self.name)
            st.assume(z3.And(t >= 0, t < 2 ** (8 * self.size)))
            return t
        if k == 'bool':
            return zi(fresh_bool(self.name))
        return stl.fresh_seq(ex, st, self.cd, k, self.pos)

    def is_container(self):
        return self.kind in ('deque', 'list', 'vector') or self.mk is not None

    def logic(self, ex, st, v):
        if self.kind == 'ptr':
            return ex.pterm(st, v)
        if self.kind == 'bool':
            return zb(v) if not isinstance(v, z3.ArithRef) else zb(v)
        if isinstance(v, (Undef, Opaque)):
            return fresh_int('undef')
        return v


class Monitor:
    """State protected by one lock."""

    def __init__(self, name, obj, lock_off, fields, ghosts=(), inv=None, guar=None, rely=None, cands=None, kind='spin'):
        self.name, self.obj, self.lock_off, self.fields, self.ghosts = name, obj, lock_off, fields, ghosts
        self.inv_f, self.guar_f, self.rely_f, self.cands_f = inv, guar, rely, cands
        self.kind = kind
        self.key = (obj.id, lock_off)
        self.entry_facts = None
        self.cvs = []
        self.on_release = None
        for f in fields:
            f.obj = f.obj or obj

    def install(self, ex, st):
        ex.monitors[self.key] = self
        for f in self.fields:
            ex.protected.setdefault(f.obj.id, []).append((f.off, f.size, self, f.name, {}))
        # arbitrary state before the first acquisition
        self.havoc(ex, st)
        v = self.view(ex, st)
        for nm, g in self.inv_f(v):
            st.assume(g)
        if self.entry_facts:
            for g in self.entry_facts(v, ex.me):
                st.assume(g)
        st.ghost[('last', self.name)] = v
        st.ghost[('acq', self.name)] = 0

    def held(self, st):
        return self.key in st.ghost.get('held', ())

    def access(self, ex, st, nm, write, atomic):
        if not self.held(st):
            f = [f for f in self.fields if f.name == nm][0]
            if f.atomic and atomic == 'load':
                # read without the lock: some state the others can have produced by now
                self.havoc(ex, st)
                self.arrive(ex, st)
                st.ghost[('last', self.name)] = self.view(ex, st)
                return
            ex.oblige(st, 'shared field "%s" is %s only while its lock is held' % (nm, 'written' if write else 'read'), False)

    def havoc(self, ex, st):
        for f in self.fields:
            cells = st.cells(f.obj.id, True)
            for o in [o for o in cells if f.off <= o < f.off + f.size]:
                del cells[o]
            v = f.fresh(ex, st)
            cells[f.off] = (None if f.is_container() else f.size, v)
        for g, mk in self.ghosts:
            st.ghost[(g, self.name)] = mk(g)

    def view(self, ex, st):
        d = {}
        for f in self.fields:
            c = st.mem[f.obj.id].get(f.off)
            if c is None:
                raise Unsupported('field %s lost' % f.name)
            if not f.is_container() and c[0] != f.size:
                raise Unsupported('field %s was partly overwritten' % f.name)
            d[f.name] = f.logic(ex, st, c[1])
        for g, mk in self.ghosts:
            d[g] = st.ghost[(g, self.name)]
        return d

    def acquire(self, ex, st):
        if self.held(st):
            ex.oblige(st, 'lock "%s" is not acquired again by its holder' % self.name, False)
            return END
        st.ghost['held'] = st.ghost.get('held', ()) + (self.key,)
        self.havoc(ex, st)
        v = self.arrive(ex, st)
        st.ghost[('snap', self.name)] = v
        st.ghost[('acq', self.name)] = simp(zi(st.ghost.get(('acq', self.name), 0)) + 1)
        return None

    def arrive(self, ex, st, v=None):
        """what is known about a state found after others may have run"""
        v = v or self.view(ex, st)
        for nm, g in self.inv_f(v):
            st.assume(g)
        last = st.ghost.get(('last', self.name))
        if last is not None and self.rely_f:
            for nm, g in self.rely_f(last, v, ex.me):
                st.assume(g)
        if 'W' in v and st.ghost.get('unmarked', False):
            st.assume(z3.Not(z3.Select(v['W'], ex.me)))
        return v

    def release(self, ex, st, what='release'):
        if not self.held(st):
            ex.oblige(st, 'lock "%s" is released only by its holder' % self.name, False)
            return END
        v = self.view(ex, st)
        for nm, g in self.inv_f(v):
            ex.oblige(st, 'invariant of %s at %s: %s' % (self.name, what, nm), g)
        if self.guar_f:
            for nm, g in self.guar_f(st.ghost[('snap', self.name)], v, ex.me):
                ex.oblige(st, 'guarantee of %s at %s: %s' % (self.name, what, nm), g)
        if self.on_release:
            self.on_release(ex, st, st.ghost[('snap', self.name)], v)
        for cv in self.cvs:
            cv.settle(ex, st, st.ghost[('snap', self.name)], v)
        st.ghost[('last', self.name)] = v
        st.ghost['held'] = tuple(k for k in st.ghost['held'] if k != self.key)
        return None

    def observe(self, ex, st):
        """a state of the protected data at this moment, seen without the lock"""
        v = self.arrive(ex, st, self.fresh_view(ex, st))
        st.ghost[('last', self.name)] = v
        return v

    def fresh_view(self, ex, st):
        d = {}
        for f in self.fields:
            d[f.name] = f.logic(ex, st, f.fresh(ex, st))
        for g, mk in self.ghosts:
            d[g] = mk(g)
        return d

    def check_rely(self, ex):
        """other coroutines' guarantees imply what each coroutine relies on; the rely is closed"""
        if not self.rely_f:
            return
        ex.cur_fn = self.name + ' (protocol)'
        st = State()
        a = fresh_int('other')
        st.assume(z3.And(a > 0, a != ex.me, ex.me > 0))
        v1, v2, v3 = (self.fresh_view(ex, st) for _ in range(3))
        s1 = st.fork()
        for v in (v1, v2):
            for nm, g in self.inv_f(v):
                s1.assume(g)
        s2 = s1.fork()
        for nm, g in self.guar_f(v1, v2, a):
            s1.assume(g)
        for nm, g in self.rely_f(v1, v2, ex.me):
            ex.oblige(s1.fork(), 'steps of other coroutines satisfy the rely of %s: %s' % (self.name, nm), g, where='protocol')
        for nm, g in self.inv_f(v3):
            s2.assume(g)
        for nm, g in self.rely_f(v1, v2, ex.me):
            s2.assume(g)
        for nm, g in self.rely_f(v2, v3, ex.me):
            s2.assume(g)
        for nm, g in self.rely_f(v1, v3, ex.me):
            ex.oblige(s2.fork(), 'rely of %s is transitive: %s' % (self.name, nm), g, where='protocol')
        s3 = st.fork()
        for nm, g in self.inv_f(v1):
            s3.assume(g)
        for nm, g in self.rely_f(v1, v1, ex.me):
            ex.oblige(s3.fork(), 'rely of %s is reflexive: %s' % (self.name, nm), g, where='protocol')
        r, _ = ex.check_sat(s1.pc, [], 10000)
        if r == 'unsat':
            raise Unsupported('contradictory protocol of ' + self.name)


class Cv:
    """A condition variable of a monitor: who may be blocked on it, and what has to wake them.

    units(v): how many of those blocked could proceed in state v; open(v): all of them could;
    gains(v): grows by one for each of them that can proceed (default: units);
    phase(v): all of them could once this value has changed; may_wait(v, ex, st): waiting is right in state v"""

    def __init__(self, name, mon, obj, off, units=None, open=None, phase=None, may_wait=None, gains=None):
        self.name, self.mon, self.key = name, mon, (obj.id, off)
        self.units, self.open, self.phase, self.may_wait, self.gains = units, open, phase, may_wait, gains or units
        mon.cvs.append(self)

    def install(self, ex, st):
        ex.cvs[self.key] = self
        for g, v in (('cred', 0), ('owed', 0), ('credall', False), ('owedall', False)):
            st.ghost[(g, self.name)] = v

    def settle(self, ex, st, a, b):
        g = lambda k: st.ghost[(k, self.name)]
        op = zb(self.open(b)) if self.open else z3.BoolVal(False)
        d = z3.IntVal(0)
        if self.gains:
            d = zi(self.gains(b)) - zi(self.gains(a))
            d = z3.If(z3.And(d > 0, z3.Not(op)), d, 0)
        al = z3.BoolVal(False)
        if self.open:
            al = z3.And(op, z3.Not(zb(self.open(a))))
        if self.phase:
            al = z3.Or(al, zi(self.phase(a)) != zi(self.phase(b)))
        ca = zb(g('credall'))
        n = zi(g('owed')) + d - zi(g('cred'))
        st.ghost[('owed', self.name)] = simp(z3.If(z3.Or(ca, n < 0), 0, n))
        st.ghost[('owedall', self.name)] = simp(z3.And(z3.Or(zb(g('owedall')), al), z3.Not(ca)))
        st.ghost[('cred', self.name)] = 0
        st.ghost[('credall', self.name)] = False

    def notify(self, ex, st, everybody):
        g = lambda k: st.ghost[(k, self.name)]
        if self.mon.held(st):
            if everybody:
                st.ghost[('credall', self.name)] = True
            else:
                st.ghost[('cred', self.name)] = simp(zi(g('cred')) + 1)
        elif everybody:
            st.ghost[('owed', self.name)] = 0
            st.ghost[('owedall', self.name)] = False
        else:
            n = zi(g('owed'))
            st.ghost[('owed', self.name)] = simp(z3.If(n > 0, n - 1, 0))

    def paid(self, ex, st, when):
        ex.oblige(st, 'everybody blocked on %s who can now proceed was woken %s' % (self.name, when),
                  z3.And(zi(st.ghost[('owed', self.name)]) == 0, z3.Not(zb(st.ghost[('owedall', self.name)]))), where=when)


def all_paid(ex, st, when='exit'):
    for cv in ex.cvs.values():
        cv.paid(ex, st, when)


def find_cv(ex, st, p):
    p = ex.resolve_sym(st, p)
    if isinstance(p, Ptr) and is_num(p.off):
        cv = ex.cvs.get((p.obj, p.off))
        if cv:
            return cv
    raise Unsupported('unknown condition variable')


def h_cv_notify(everybody):
    def f(ex, st, c):
        find_cv(ex, st, c.args[0]).notify(ex, st, everybody)
    return f


def h_cv_wait(ex, st, c):
    """wait(lock): contract of the condition variable (C07)"""
    if len(stl.split_targs(c.targs[-1])) != 1:
        return INLINE
    cv = find_cv(ex, st, c.args[0])
    l = ex.resolve_sym(st, c.args[1])
    mu = ex.load(st, l, ('ptr',), ex.mods[0])
    owns = ex.load(st, ex.padd(l, 8), ('int', 8), ex.mods[0])
    m = ex.monitors.get(lock_key(ex, st, mu))
    if m is not cv.mon:
        ex.oblige(st, 'a wait passes the mutex that protects the condition', False)
        return END
    ex.oblige(st, 'a wait passes a mutex the caller holds', z3.And(zb(owns), m.held(st)))
    v = m.view(ex, st)
    if cv.units:
        ex.oblige(st, 'a coroutine waits on %s only while it cannot proceed' % cv.name, zi(cv.units(v)) <= 0)
    if cv.open:
        ex.oblige(st, 'a coroutine waits on %s only while it cannot proceed' % cv.name, z3.Not(zb(cv.open(v))))
    if cv.may_wait:
        ex.oblige(st, 'a coroutine waits on %s only while it cannot proceed' % cv.name, cv.may_wait(v, ex, st))
    blocking_point(ex, st, 'wait')
    if m.release(ex, st, 'wait') is END:
        return END
    all_paid(ex, st, 'before waiting')
    st.ghost['yields'] = simp(zi(st.ghost.get('yields', 0)) + 1)
    return m.acquire(ex, st)


def mutex_contracts(ex):
    """co_mutex and co_condition_variable by their contracts (C01, C07)"""
    H = ex.handlers
    H['cocpp::co_mutex::lock'] = h_lock('mutex')
    H['cocpp::co_mutex::unlock'] = h_unlock
    H['cocpp::co_mutex::try_lock'] = h_trylock('mutex')
    H['cocpp::co_mutex::co_mutex'] = lambda ex, st, c: None
    H['cocpp::co_mutex::~co_mutex'] = lambda ex, st, c: None
    C = 'cocpp::co_condition_variable_impl::'
    H[C + 'wait'] = h_cv_wait
    H[C + 'notify_one'] = h_cv_notify(False)
    H[C + 'notify_all'] = h_cv_notify(True)
    H[C + 'co_condition_variable_impl'] = lambda ex, st, c: None
    H[C + '~co_condition_variable_impl'] = lambda ex, st, c: None


def loop_cands(ex, s0, cur, mod, depth):
    out = []
    for g in mod:
        if g[0] == 'ghost' and isinstance(g[1], tuple) and g[1][0] in ('owed', 'owedall', 'cred', 'credall', 'mine'):
            out.append(('%s %s as at entry' % g[1], lambda s, k=g[1]: same(s.ghost[k], s0.ghost[k])))
    for key, m in ex.monitors.items():
        if key not in cur.ghost.get('held', ()):
            # facts about the last released state
            if ('ghost', ('last', m.name), None) in mod and m.cands_f:
                for nm, f in m.cands_f():
                    out.append(('%s(last): %s' % (m.name, nm), lambda s, m=m, f=f: f(s.ghost[('last', m.name)], ex.me)))
            continue
        for cv in m.cvs:
            def nothing_owed(s, m=m, cv=cv):
                t = s.fork()
                cv.settle(ex, t, t.ghost[('snap', m.name)], m.view(ex, t))
                return z3.And(zi(t.ghost[('owed', cv.name)]) == 0, z3.Not(zb(t.ghost[('owedall', cv.name)])))
            out.append(('nobody on %s is left to wake' % cv.name, nothing_owed))
        names = [nm for nm, g in m.inv_f(m.view(ex, cur))]
        for i, nm in enumerate(names):
            out.append(('%s: %s' % (m.name, nm), lambda s, m=m, i=i: m.inv_f(m.view(ex, s))[i][1]))
        if m.guar_f:
            sn = cur.ghost[('snap', m.name)]
            for i, (nm, g) in enumerate(m.guar_f(sn, m.view(ex, cur), ex.me)):
                out.append(('%s guarantee: %s' % (m.name, nm), lambda s, m=m, i=i: m.guar_f(s.ghost[('snap', m.name)], m.view(ex, s), ex.me)[i][1]))
        for f in m.fields:
            def eqs(s, m=m, f=f):
                v, sn = m.view(ex, s), s.ghost[('snap', m.name)]
                return same(v[f.name], sn[f.name])
            out.append(('%s.%s unchanged since acquired' % (m.name, f.name), eqs))
        for g, mk in m.ghosts:
            out.append(('%s.%s unchanged since acquired' % (m.name, g),
                        lambda s, m=m, g=g: same(m.view(ex, s)[g], s.ghost[('snap', m.name)][g])))
        if m.cands_f:
            for nm, f in m.cands_f():
                out.append(('%s: %s' % (m.name, nm), lambda s, m=m, f=f: f(m.view(ex, s), ex.me)))
                out.append(('%s(snap): %s' % (m.name, nm), lambda s, m=m, f=f: f(s.ghost[('snap', m.name)], ex.me)))
    for g in ('unmarked', 'preempt', 'preempt_on_entry'):
        if ('ghost', g, None) in mod:
            out.append(('ghost %s unchanged' % g, lambda s, g=g: same(s.ghost[g], s0.ghost[g])))
    return out


# ------------------------------------------------------------------ coroutine runtime
def lock_key(ex, st, p):
    p = ex.resolve_sym(st, p)
    if isinstance(p, Ptr) and is_num(p.off):
        return (p.obj, p.off)
    if isinstance(p, Sym):
        return ('sym', str(simp(p.term)), p.off)
    raise Unsupported('lock at %r' % (p,))


def h_lock(kind):
    def f(ex, st, c):
        k = lock_key(ex, st, c.args[0])
        if kind == 'spin':
            ex.oblige(st, 'forced preemption is off while a spin lock is held', zi(st.ghost['preempt']) > 0)
        else:
            blocking_point(ex, st, kind)
        m = ex.monitors.get(k)
        if m:
            r = m.acquire(ex, st)
            if r is END:
                return END
        else:
            if k in st.ghost.get('held', ()):
                ex.oblige(st, 'a lock is not acquired again by its holder', False)
                return END
            st.ghost['held'] = st.ghost.get('held', ()) + (k,)
        return None
    return f


def blocking_point(ex, st, what):
    """the coroutine may be descheduled here: no spin lock may be held"""
    for k in st.ghost.get('held', ()):
        m = ex.monitors.get(k)
        if (m and m.kind == 'spin') or (m is None and k in ex.spin_keys):
            ex.oblige(st, 'no spin lock is held when the coroutine may be descheduled', False)


def h_unlock(ex, st, c):
    k = lock_key(ex, st, c.args[0])
    m = ex.monitors.get(k)
    if m:
        r = m.release(ex, st)
        if r is END:
            return END
    else:
        if k not in st.ghost.get('held', ()):
            ex.oblige(st, 'a lock is released only by its holder', False)
            return END
        st.ghost['held'] = tuple(x for x in st.ghost['held'] if x != k)
    return None


def h_trylock(kind):
    def f(ex, st, c):
        k = lock_key(ex, st, c.args[0])
        s2 = st.fork()
        m = ex.monitors.get(k)
        if m:
            r = m.acquire(ex, st)
            if r is END:
                return END
        else:
            st.ghost['held'] = st.ghost.get('held', ()) + (k,)
        return Results([(st, True), (s2, False)])
    return f


def h_yield(ex, st, c):
    blocking_point(ex, st, 'yield')
    st.ghost['unmarked'] = True
    st.ghost['yields'] = simp(zi(st.ghost.get('yields', 0)) + 1)
    return None


def h_enter_wait(ex, st, c):
    """the current coroutine marks itself as waiting for a resource"""
    rc = c.args[1]
    t = ex.pterm(st, c.args[0])
    m = mark_monitor(ex, st, rc)
    if m is None:
        raise Unsupported('wait mark on an unknown resource')
    ex.oblige(st, 'a coroutine is marked as waiting only while the lock of that resource is held', m.held(st))
    ex.oblige(st, 'only the running coroutine marks itself as waiting', t == ex.me)
    st.ghost[('W', m.name)] = z3.Store(st.ghost[('W', m.name)], t, z3.BoolVal(True))
    st.ghost['unmarked'] = False
    return None


def h_leave_wait(ex, st, c):
    rc = c.args[1]
    m = mark_monitor(ex, st, rc)
    t = ex.pterm(st, c.args[0])
    if m is None:
        raise Unsupported('wait mark on an unknown resource')
    ex.oblige(st, 'a waiting mark is removed only while the lock of that resource is held', m.held(st))
    ex.oblige(st, 'the coroutine to wake exists', t != 0)
    st.ghost[('W', m.name)] = z3.Store(st.ghost[('W', m.name)], t, z3.BoolVal(False))
    return None


def mark_monitor(ex, st, rc):
    rc = ex.resolve_sym(st, rc)
    if isinstance(rc, Ptr) and is_num(rc.off):
        return ex.marks.get((rc.obj, rc.off))
    return None


def h_inc(ex, st, c):
    st.ghost['preempt'] = simp(zi(st.ghost['preempt']) + 1)
    return None


def h_dec(ex, st, c):
    ex.oblige(st, 'preemption is re-enabled only after it was disabled', zi(st.ghost['preempt']) > 0)
    st.ghost['preempt'] = simp(zi(st.ghost['preempt']) - 1)
    if any((m.kind if m else k in ex.spin_keys and 'spin') == 'spin' for k in st.ghost.get('held', ()) for m in [ex.monitors.get(k)]):
        ex.oblige(st, 'forced preemption stays off while a spin lock is held', zi(st.ghost['preempt']) > 0)
    return None


def install(ex):
    """contracts of the coroutine runtime used by the synchronisation objects"""
    H = ex.handlers
    ex.monitors = {}
    ex.marks = {}
    ex.cvs = {}
    ex.spin_keys = set()
    ex.me = z3.Int('me')
    ex.env = z3.Int('env')
    H['cocpp::co_singleton::instance'] = lambda ex, st, c: Sym(z3.Int('the_manager'), 0, 'manager')
    H['cocpp::co_singleton_static::instance'] = lambda ex, st, c: Sym(z3.Int('the_' + ''.join(ch for ch in c.targs[0] if ch.isalnum())), 0, 'singleton')
    H['cocpp::co_manager::current_env'] = lambda ex, st, c: Sym(ex.env, 0, 'env')
    H['cocpp::co_env::current_ctx'] = lambda ex, st, c: Sym(ex.me, 0, 'ctx')
    H['cocpp::co_env::schedule_lock'] = lambda ex, st, c: Sym(ex.env, 1 << 20, 'schedlock')
    H['cocpp::co_env::schedule_switch'] = h_yield
    H['cocpp::co_recursive_mutex_with_count::increate_count'] = h_inc
    H['cocpp::co_recursive_mutex_with_count::decreate_count'] = h_dec
    H['cocpp::co_ctx::enter_wait_resource_state'] = h_enter_wait
    H['cocpp::co_ctx::leave_wait_resource_state'] = h_leave_wait
    H['cocpp::co_spinlock::lock'] = h_lock('spin')
    H['cocpp::co_spinlock::unlock'] = h_unlock
    H['cocpp::co_spinlock::try_lock'] = h_trylock('spin')
    ex.loop_hook.append(loop_cands)


def initial(ex):
    st = State()
    st.assume(z3.And(ex.me > 0, ex.env > 0))
    st.assume(ex.me < 0x10000000)
    p = z3.Int('preempt0')
    st.assume(p >= 0)
    st.ghost['preempt'] = p
    st.ghost['preempt_on_entry'] = p
    st.ghost['held'] = ()
    st.ghost['unmarked'] = True
    st.ghost['yields'] = 0
    st.ghost['clock'] = z3.Int('clock0')
    st.assume(st.ghost['clock'] >= 0)
    return st
