"""Contract of the spin lock, on the level of its atomic accesses.

Protocol: the flag is set exactly while somebody holds the lock; only the holder clears it; taking it is one atomic
read-modify-write that found it clear.  Ghost 'mine': this thread holds the lock."""
import z3
from values import *
import conc
from execu import Results, NOVAL

SRCS = ['sync/co_spinlock.cpp']
TUS = ['spin.cpp']
ACQ = ('acquire', 'acq_rel', 'seq_cst')
REL = ('release', 'acq_rel', 'seq_cst')


def setup(ex, P, mine):
    st = conc.initial(ex)
    o = ex.new_obj(st, 'spin lock', P.size('spin'), 'param')
    off = P.off('spin_flag')
    st.ghost.update({'mine': mine, 'took': 0, 'freed': 0})

    def others(st):
        """what the others can have done by now"""
        f = fresh_int('flag')
        st.assume(z3.And(f >= 0, f <= 1, z3.Implies(zb(st.ghost['mine']), f == 1)))
        st.cells(o.id, True)[off] = (1, f)
        return f

    def val(st):
        c = st.mem[o.id].get(off)
        if c is None or c[0] != 1:
            raise Unsupported('representation of the spin lock')
        return zi(c[1])

    def hook(ex, st, what, p, ords):
        p = ex.resolve_sym(st, p)
        if not (isinstance(p, Ptr) and p.obj == o.id):
            return
        if what in ('load', 'rmw', 'store'):
            st.ghost['before'] = others(st)
        if what == 'load':
            return
        mine = zb(st.ghost['mine'])
        if what == 'rmw-done':
            old, new = st.ghost['before'], val(st)
            takes = z3.And(old == 0, new != 0)
            frees = z3.And(old != 0, new == 0)
            ex.oblige(st, 'what the next holder writes is not seen before the lock was taken (acquire)', z3.Implies(takes, z3.BoolVal(ords[0] in ACQ)))
            ex.oblige(st, 'only the holder frees the lock', z3.Implies(frees, mine))
            ex.oblige(st, 'what was written under the lock is visible to the next holder (release)', z3.Implies(frees, z3.BoolVal(ords[0] in REL)))
            st.ghost['took'] = simp(zi(st.ghost['took']) + z3.If(takes, 1, 0))
            st.ghost['freed'] = simp(zi(st.ghost['freed']) + z3.If(frees, 1, 0))
            st.ghost['mine'] = simp(z3.Or(z3.And(mine, z3.Not(frees)), takes))
        if what == 'store-done':
            new = val(st)
            ex.oblige(st, 'the lock is taken only by one atomic step that found it free', z3.Implies(z3.Not(mine), z3.BoolVal(False)))
            ex.oblige(st, 'what was written under the lock is visible to the next holder (release)', z3.Implies(new == 0, z3.BoolVal(ords[0] in REL)))
            st.ghost['freed'] = simp(zi(st.ghost['freed']) + z3.If(new == 0, 1, 0))
            st.ghost['mine'] = simp(z3.And(mine, new != 0))
    ex.atomic_hook = hook
    others(st)
    ex.protected.setdefault(o.id, []).append((0, P.size('spin'), Plain(o, off), 'flag', {}))
    for n in ('lock', 'unlock', 'try_lock'):
        ex.handlers.pop('cocpp::co_spinlock::' + n, None)      # the real code, also when one calls another
    ex.handlers['cocpp::co_env::schedule_switch'] = lambda ex, st, c: bump(st)
    ex.loop_hook.append(lambda ex, s0, cur, mod, depth: [
        ('not held yet', lambda s: z3.And(z3.Not(zb(s.ghost['mine'])), zi(s.ghost['took']) == 0, zi(s.ghost['freed']) == 0))])
    return st, o, off


def bump(st):
    st.ghost['yields'] = simp(zi(st.ghost['yields']) + 1)


class Plain:
    """the lock word is only accessed atomically"""

    def __init__(self, o, off):
        self.fields = [conc.Field('flag', off, 1, 'bool', obj=o)]

    def access(self, ex, st, nm, write, atomic):
        if not atomic:
            ex.oblige(st, 'the lock is only accessed by atomic steps', False)


def op(P, name, mine, check, cover):
    def body(ex):
        st, o, off = setup(ex, P, mine)
        cov = {c: False for c in cover}
        for s, k, v in ex.run_function(st, ex.get('cocpp::co_spinlock::' + name), [Ptr(o.id, 0)]):
            ex.oblige(s, '%s does not throw' % name, k == 'ret', where='exit')
            if k == 'ret':
                g = s.ghost
                check(ex, s, v, zb(g['mine']), zi(g['took']), zi(g['freed']))
                for c, f in cover.items():
                    cov[c] = cov[c] or ex.reachable(s, f(s, v))
        return cov
    return P.fn('co_spinlock::' + name, body)


def make(P):
    def body(ex):
        st = conc.initial(ex)
        o = ex.new_obj(st, 'spin lock', P.size('spin'), 'param')
        for s, k, v in ex.run_function(st, ex.get('spin_make'), [Ptr(o.id, 0)]):
            c = s.mem[o.id].get(P.off('spin_flag'))
            ex.oblige(s, 'a new spin lock is free', c is not None and c[0] == 1 and zi(c[1]) == 0, where='exit')
    return P.fn('co_spinlock (construction)', body)


def run(P):
    make(P)

    def lock(ex, s, v, mine, took, freed):
        ex.oblige(s, 'lock returns only once the caller has taken the lock', z3.And(mine, took == 1, freed == 0), where='exit')

    def try_lock(ex, s, v, mine, took, freed):
        ex.oblige(s, 'try_lock succeeds exactly if the caller has taken the lock', z3.And(zb(v) == mine, took == z3.If(mine, 1, 0), freed == 0), where='exit')
        ex.oblige(s, 'try_lock fails only if it found the lock taken', z3.Or(mine, zi(s.ghost.get('before', 0)) != 0), where='exit')

    def unlock(ex, s, v, mine, took, freed):
        ex.oblige(s, 'unlock frees the lock, once', z3.And(z3.Not(mine), freed == 1, took == 0), where='exit')
    op(P, 'lock', False, lock, {'at once': lambda s, v: zi(s.ghost['yields']) == 0, 'after waiting': lambda s, v: zi(s.ghost['yields']) > 0})
    op(P, 'try_lock', False, try_lock, {'taken': lambda s, v: zb(v), 'refused': lambda s, v: z3.Not(zb(v))})
    op(P, 'unlock', True, unlock, {'done': lambda s, v: z3.BoolVal(True)})
