"""Contracts of the context switch: what is saved, what is restored, what a new coroutine starts with."""
import z3
from values import *
import conc, oslock, x86, preempt
from x86 import c
from execu import Results

SRCS = preempt.SRCS
TUS = preempt.TUS
REGS = [r for r in preempt.REGS if r not in ('rsp', 'rip', 'flags')]
RED = 128       # bytes below the stack pointer that belong to the interrupted function (System V ABI)


def switch(P):
    def body(ex):
        st = State()
        fn = ex.funcs[ex.get('cocpp::switch_to')]
        ex.used_funcs.add(ex.get('cocpp::switch_to'))
        m = x86.Machine()
        cur, nxt = m.r['rdi'], m.r['rsi']
        r0, f0, mem0, sp0 = dict(m.r), m.flags, m.mem, m.r['rsp']
        off = {r: P.off('sc_' + r) for r in preempt.REGS}
        base = P.off('sw_regs')
        size = P.size('swctx')
        at = lambda mem, o, r: z3.Select(mem, o + c(base + off[r]))
        nsp = at(mem0, nxt, 'rsp')
        lo, hi, nlo, nhi = z3.Ints('stack top next_stack next_top')

        def below(a, b):
            return a <= b

        def word(a):
            st.assume(a == 8 * fresh_int('w'))
        for a in (sp0, nsp):
            word(a)
        # the two coroutines and their stacks are different pieces of memory
        pieces = [(cur, cur + c(size)), (nxt, nxt + c(size)), (lo, hi), (nlo, nhi)]
        for a, b in pieces:
            st.assume(z3.And(4096 <= a, a <= b, b <= 2 ** 47))
            word(a)
            word(b)
        for i in range(4):
            for j in range(i):
                st.assume(z3.Or(below(pieces[i][1], pieces[j][0]), below(pieces[j][1], pieces[i][0])))
        st.assume(z3.And(below(lo + c(1024), sp0), below(sp0 + c(8), hi), True))
        st.assume(z3.And(below(nlo + c(1024), nsp), below(nsp, nhi), True))
        x86.run(fn, m)
        for r in REGS:
            ex.oblige(st, 'the register is saved (%s)' % r, at(m.mem, cur, r) == r0[r], where='exit')
            ex.oblige(st, 'the register is restored (%s)' % r, m.r[r] == at(mem0, nxt, r), where='exit')
        ex.oblige(st, 'the flags are saved', at(m.mem, cur, 'flags') == f0, where='exit')
        ex.oblige(st, 'the flags are restored', m.flags == at(mem0, nxt, 'flags'), where='exit')
        ex.oblige(st, 'the place to continue at is saved', at(m.mem, cur, 'rip') == z3.Select(mem0, sp0), where='exit')
        ex.oblige(st, 'execution continues where the next coroutine was left', m.rip == at(mem0, nxt, 'rip'), where='exit')
        ex.oblige(st, 'the stack pointer is saved as it is after the return', at(m.mem, cur, 'rsp') == sp0 + 8, where='exit')
        ex.oblige(st, 'the stack pointer is restored', m.r['rsp'] == nsp, where='exit')
        a = z3.Int('address')
        word(a)
        old, new = z3.Select(mem0, a), z3.Select(m.mem, a)
        inside = lambda x, y: z3.And(below(x, a), a < y)
        ex.oblige(st, 'the stack of the next coroutine is as it was left', z3.Implies(inside(nsp - c(RED), nhi), new == old), where='exit')
        ex.oblige(st, 'the stack of the suspended coroutine is kept', z3.Implies(inside(sp0 + c(8), hi), new == old), where='exit')
        sregs = P.size('sigc')
        ex.oblige(st, 'the saved registers of the next coroutine are kept', z3.Implies(inside(nxt + c(base), nxt + c(base + sregs)), new == old), where='exit')
        ex.oblige(st, 'nothing else is changed', z3.Or(new == old, inside(cur + c(base), cur + c(base + sregs)), a == nxt + c(P.off('sw_prectx')),
                                                     inside(lo, sp0 + c(8)), inside(nlo, nsp - c(RED))), where='exit')
        for i, (x, w) in enumerate(m.accesses):
            ex.oblige(st, 'memory is accessed only in the two coroutines and on their stacks', z3.And(x % 8 == 0, z3.Or([z3.And(below(p, x), below(x + c(8), q)) for p, q in pieces])), where='exit')
        return {'satisfiable': ex.check_sat(st.pc, [], 20000)[0] == 'sat'}
    return P.fn('switch_to', body)


def fresh_ctx(P):
    def body(ex):
        st = conc.initial(ex)
        o = ex.new_obj(st, 'ctx', P.size('swctx'), 'param')
        base = P.off('sw_regs')
        for i in range(32):
            st.cells(o.id, True)[base + 8 * i] = (8, 0)
        stk = ex.new_obj(st, 'stack', P.size('swstack'), 'param')
        area, size = z3.Ints('area size')
        ex.assumptions.add('memory for stacks starts at a multiple of 16 (mmap) and has at least 64 bytes')
        st.assume(z3.And(area > 4096, area % 16 == 0, size >= 64, area + size < 2 ** 47))
        st.cells(stk.id, True)[P.off('sw_stack_ptr')] = (8, Sym(area, 0, 'stackmem'))
        st.cells(stk.id, True)[P.off('sw_stack_size')] = (8, size)

        def write(st, p, n):
            a = ex.pterm(st, p)
            ex.oblige(st, 'a new coroutine writes only to its own stack', z3.And(a >= area, a + n <= area + size))
        st0 = ex.store

        def store(s, p, v, ty, mod, atomic=None):
            p = ex.resolve_sym(s, p)
            if isinstance(p, Sym):
                write(s, p, mod.size_align(ty)[0])
                return
            return st0(s, p, v, ty, mod, atomic)
        ex.store = store
        cov = {'returns': False}
        for s, k, v in ex.run_function(st, ex.get('cocpp::init_ctx'), [Ptr(stk.id, 0), Ptr(o.id, 0)]):
            ex.oblige(s, 'preparing a coroutine does not throw', k == 'ret', where='exit')
            if k != 'ret':
                continue
            cov['returns'] = True
            g = lambda r: s.mem[o.id][base + P.off('sc_' + r)][1]
            t = lambda r: ex.pterm(s, g(r)) if isinstance(g(r), (Ptr, Sym, Fn)) else zi(g(r))
            sp = t('rsp')
            ex.oblige(s, 'a new coroutine starts inside its own stack', z3.And(sp >= area + 16, sp + 8 <= area + size), where='exit')
            ex.oblige(s, 'a new coroutine starts on an aligned stack', sp % 16 == 8, where='exit')
            ex.oblige(s, 'a new coroutine starts in its entry routine', t('rip') == ex.pterm(s, Fn(ex.get('cocpp::co_ctx::real_entry'))), where='exit')
            ex.oblige(s, 'a new coroutine gets itself as argument', t('rdi') == ex.pterm(s, Ptr(o.id, 0)), where='exit')
            ex.oblige(s, 'a new coroutine starts with clean flags', z3.And(t('flags') / 1024 % 2 == 0, t('flags') / 256 % 2 == 0), where='exit')
        return cov
    return P.fn('init_ctx', body)


def switching(P):
    """the caller of the switch: between which coroutines, and what happens if a preemption signal arrives meanwhile"""
    def body(ex):
        st = conc.initial(ex)
        env = ex.new_obj(st, 'env', P.size('swenv'), 'param')
        own = fresh_int('own')
        st.assume(z3.And(own >= 1, own < 2 ** 40))
        preempt.counting(ex, P, st, env, P.off('sw_schedlock'), own)
        key = (env.id, P.off('sw_schedlock'))
        st.ghost[('depth', key)] = 1
        st.ghost['held'] = (key,)
        st.ghost['switched'] = 0
        ctx = [ex.new_obj(st, 'coroutine %d' % i, P.size('swctx'), 'param') for i in (0, 1)]
        rb = P.off('sw_regs')

        def prepare(ex, st, c):
            ex.oblige(st, 'the next coroutine is chosen with the scheduling lock taken', z3.BoolVal(oslock.depth(st, key) >= 1))
            s2 = st.fork()
            s2.ghost['prepared'] = True
            ex.store(s2, c.args[1], Ptr(ctx[0].id, 0), ('ptr',), ex.mods[0])
            ex.store(s2, c.args[2], Ptr(ctx[1].id, 0), ('ptr',), ex.mods[0])
            return Results([(st, False), (s2, True)])
        ex.handlers['cocpp::co_env::prepare_to_switch'] = prepare

        def h_switch(ex, st, c):
            for i, what in ((0, 'away from the current'), (1, 'to the next')):
                ex.oblige(st, 'the switch goes %s coroutine' % what, ex.pterm(st, c.args[i]) == ex.pterm(st, Ptr(ctx[i].id, rb)))
            ex.oblige(st, 'the scheduling lock is not held by a suspended coroutine', z3.BoolVal(oslock.depth(st, key) == 0))
            ex.oblige(st, 'the switch cannot be interrupted by a forced switch', zi(st.ghost['own']) > 0)
            st.ghost['switched'] += 1
        ex.handlers['cocpp::switch_to'] = h_switch
        cov = {'switch': False, 'no switch': False}
        for s, k, v in ex.run_function(st, ex.get('cocpp::co_env::switch_normal_ctx__'), [Ptr(env.id, 0)]):
            ex.oblige(s, 'switching does not throw', k == 'ret', where='exit')
            n = 1 if s.ghost.get('prepared') else 0
            ex.oblige(s, 'there is one switch exactly if there is a coroutine to switch to', z3.BoolVal(s.ghost['switched'] == n), where='exit')
            ex.oblige(s, 'the scheduling lock is taken again', z3.BoolVal(oslock.depth(s, key) == 1), where='exit')
            cov['switch' if n else 'no switch'] = True
        return cov
    return P.fn('co_env::switch_normal_ctx__', body)


def run(P):
    switching(P)
    switch(P)
    fresh_ctx(P)
    preempt.forced(P)
