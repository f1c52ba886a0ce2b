"""Objects built from a mutex and condition variables: what their contracts share."""
import z3
from values import *
import conc, stl
from conc import Monitor, Field, Cv, same


def signed(t):
    t = zi(t)
    return z3.If(t >= 2 ** 63, t - 2 ** 64, t)


def setup(ex, P, name, size, lock_off, fields, inv, guar=None, rely=None, pre=None, ghosts=(), cvs=(), cands=None, on_release=None):
    st = conc.initial(ex)
    conc.mutex_contracts(ex)
    o = ex.new_obj(st, name, P.size(size), 'param')
    m = Monitor(name, o, P.off(lock_off), fields, ghosts=ghosts, inv=inv, guar=guar, rely=rely, kind='mutex', cands=cands)
    m.on_release = on_release
    m.entry_facts = pre
    for nm, off, kw in cvs:
        Cv(nm, m, o, P.off(off), **kw).install(ex, st)
    m.install(ex, st)
    return st, o, m


def done(ex, s, what):
    """at every exit: nothing held, everybody who can proceed woken"""
    ex.oblige(s, '%s releases what it locked' % what, len(s.ghost.get('held', ())) == 0, where='exit')
    ex.oblige(s, '%s leaves preemption as it found it' % what, zi(s.ghost['preempt']) == zi(s.ghost['preempt_on_entry']), where='exit')
    conc.all_paid(ex, s)


def fresh_arg(st, nm, lo=None, hi=None):
    n = fresh_int(nm)
    st.assume(z3.And(n >= 0, n < 2 ** 64))
    if lo is not None:
        st.assume(n >= lo)
    if hi is not None:
        st.assume(n <= hi)
    return n


def protocol(P, name, mk):
    """what each coroutine relies on follows from what all the others guarantee"""
    def body(ex):
        mk(ex).check_rely(ex)
    return P.fn(name + ' (protocol)', body)
