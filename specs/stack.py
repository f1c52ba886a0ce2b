"""Contracts for stacks: what a coroutine has on a shared stack is saved and put back, and only memory that is not in use
is given back to the system.

M: the bytes of memory by address; MAPS: the mappings that exist, with their size.  The memory of a stack is touched only
through copies and through what the system does with mappings."""
import z3
from values import *
import conc, oslock, stl
from execu import Results, NOVAL, END, INLINE, Throw, Exc

SRCS = ['core/co_env.cpp', 'core/co_ctx.cpp', 'core/co_stack_factory.cpp', 'core/co_stack.cpp', 'core/co_vos_gcc_x86_64.cpp']
TUS = ['core.cpp', 'stack.cpp']
PAGE = 4096
TOP = 2 ** 47


class Stacks:
    pass


def pages(n):
    return n + (-n) % PAGE


def world(ex, P, bottom, size):
    oslock.install(ex)
    st = conc.initial(ex)
    H = ex.handlers
    x = Stacks()
    x.P = P
    x.bottom, x.size, x.top = bottom, size, bottom + size
    x.sp = z3.Int('sp')
    st.assume(z3.And(bottom >= PAGE, bottom % PAGE == 0, size > 0, x.top < TOP))
    st.ghost['M'] = z3.Const('M0', z3.ArraySort(z3.IntSort(), z3.IntSort()))
    st.ghost['maps'] = [(bottom, size)]
    st.ghost['live'] = []
    st.ghost['unmapped'] = 0
    st.ghost['freed'] = 0
    x.e = ex.new_obj(st, 'env', P.size('env'), 'param')
    x.c = ex.new_obj(st, 'ctx', P.size('ctx'), 'param')
    x.s = ex.new_obj(st, 'stack', P.size('stack'), 'param')
    ex.store_cell(st, Ptr(x.s.id, P.off('stack_mem')), Sym(bottom, 0, 'mem'), 8)
    ex.store_cell(st, Ptr(x.s.id, P.off('stack_size')), size, 8)
    ex.store_cell(st, Ptr(x.e.id, P.off('env_shared_stack')), Ptr(x.s.id, 0), 8)
    ex.store_cell(st, Ptr(x.c.id, P.off('ctx_stack')), Ptr(x.s.id, 0), 8)
    ex.store_cell(st, Ptr(x.c.id, P.off('saved_sp')), x.sp, 8)
    H.pop('cocpp::co_env::current_ctx', None)
    H['cocpp::co_recursive_mutex_with_count::lock'] = oslock.h_lock
    H['cocpp::co_recursive_mutex_with_count::unlock'] = oslock.h_unlock
    ex.bump_count = lambda st, p, d: None
    inside = lambda st, p, n: z3.Or([n == 0] + [z3.And(p >= a, p + n <= a + z) for a, z in st.ghost['maps']])

    def addr(ex, st, p):
        return simp(ex.pterm(st, p))

    def copy(ex, st, c):
        if all(isinstance(a, Ptr) for a in c.args[:2]):
            return INLINE
        d, s, n = addr(ex, st, c.args[0]), addr(ex, st, c.args[1]), zi(c.args[2])
        ex.oblige(st, 'only bytes of an existing stack are read', inside(st, s, n))
        ex.oblige(st, 'only bytes of an existing stack are written', inside(st, d, n))
        m0, m1 = st.ghost['M'], z3.Const(fresh_name('M'), st.ghost['M'].sort())
        i = z3.Int('i!copy')
        st.assume(z3.ForAll([i], m1[i] == z3.If(z3.And(i >= d, i < d + n), m0[i - d + s], m0[i]), patterns=[m1[i]]))
        st.ghost['M'] = m1
        if not c.name.startswith('llvm.'):
            return c.args[0]
    for n in ('llvm.memcpy', 'memcpy', 'memmove'):
        H[n] = copy

    def mmap(ex, st, c):
        n = zi(c.args[1])
        ex.oblige(st, 'no empty mapping is asked for', n > 0)
        a = fresh_int('map')
        s2 = st.fork()
        st.assume(z3.And(a >= PAGE, a % PAGE == 0, a + pages(n) < TOP))
        for b, z in st.ghost['maps']:
            st.assume(z3.Or(a + pages(n) <= b, b + pages(z) <= a))
        st.ghost['maps'] = st.ghost['maps'] + [(a, n)]
        return Results([(st, Sym(a, 0, 'mem')), (s2, Sym(z3.IntVal(2 ** 64 - 1), 0, 'mem'))])
    H['mmap'] = mmap
    H['mmap64'] = mmap

    def munmap(ex, st, c):
        a, n = addr(ex, st, c.args[0]), zi(c.args[1])
        hit = [k for k, (b, z) in enumerate(st.ghost['maps']) if ex.implied(st.pc, z3.And(a == b, n == z))]
        ex.oblige(st, 'what is unmapped is one whole mapping', z3.BoolVal(len(hit) == 1))
        for k in hit[:1]:
            st.ghost['maps'] = st.ghost['maps'][:k] + st.ghost['maps'][k + 1:]
        for b, e in st.ghost['live']:
            ex.oblige(st, 'no memory in use is unmapped', z3.Or(n == 0, a + pages(n) <= b, e <= a))
        st.ghost['unmapped'] += 1
        return 0
    H['munmap'] = munmap

    def madvise(ex, st, c):
        a, n = addr(ex, st, c.args[0]), zi(c.args[1])
        ex.oblige(st, 'memory is given back in whole pages', a % PAGE == 0)
        for b, e in st.ghost['live']:
            ex.oblige(st, 'no byte in use is given back to the system', z3.Or(n == 0, z3.And(n > 0, a + pages(n) <= b), e <= a))
        ex.oblige(st, 'only memory of an existing stack is given back', inside(st, a, n))
        m0, m1 = st.ghost['M'], z3.Const(fresh_name('M'), st.ghost['M'].sort())
        i = z3.Int('i!adv')
        st.assume(z3.ForAll([i], z3.Implies(z3.Or(i < a, i >= a + pages(n)), m1[i] == m0[i]), patterns=[m1[i]]))
        st.ghost['M'] = m1
        st.ghost['advised'] = True
        s2 = st.fork()
        return Results([(st, 0), (s2, 2 ** 32 - 1)])
    H['madvise'] = madvise
    st.ghost['records'] = ()
    base = H['operator new']

    def new(ex, st, c):
        p = base(ex, st, c)
        if simp(c.args[0]) == P.size('stack'):
            st.ghost['records'] += (p.obj,)
        return p
    H['operator new'] = new

    def delete(ex, st, c):
        p = c.args[0]
        if isinstance(p, Ptr) and st.objs[p.obj].size == P.size('stack'):
            ex.oblige(st, 'the record of a stack is released once, and only if it was made for the purpose', z3.BoolVal(p.obj in st.ghost['records']))
            st.ghost['records'] = tuple(r for r in st.ghost['records'] if r != p.obj)
    H['operator delete'] = delete
    ex.assumptions.add('mmap gives page-aligned memory that is not in use; madvise changes nothing outside the pages it is given')
    return st, x


def same(st, m0, lo, hi):
    i = z3.Int('i!same')
    return z3.ForAll([i], z3.Implies(z3.And(i >= lo, i < hi), st.ghost['M'][i] == m0[i]))


def stack_of(ex, st, x):
    return ex.load(st, Ptr(x.c.id, x.P.off('ctx_stack')), ('ptr',), ex.mods[0])


def shared(ex, st, x):
    p = stack_of(ex, st, x)
    return isinstance(p, Ptr) and p.obj == x.s.id and p.off == 0


def round_trip(P):
    """save, then anything else happens to the shared stack, then put back"""
    def body(ex):
        st, x = world(ex, P, z3.Int('bottom'), z3.Int('size'))
        st.assume(z3.And(x.sp >= x.bottom, x.sp <= x.top))
        m0 = st.ghost['M']
        st.ghost['live'] = [(x.sp, x.top)]
        cov = {'saved': False, 'put back': False, 'empty': False, 'no memory': False}
        for s, k, v in ex.run_function(st, ex.get('cocpp::co_env::save_shared_stack__'), [Ptr(x.e.id, 0), Ptr(x.c.id, 0)]):
            ex.oblige(s, 'saving changes nothing of the stack', same(s, m0, x.sp, x.top), where='exit')
            if k != 'ret':
                ex.oblige(s, 'a stack that could not be saved stays where it is', z3.BoolVal(shared(ex, s, x)), where='exit')
                cov['no memory'] = True
                continue
            cov['saved'] = True
            ex.oblige(s, 'saving keeps the place where the coroutine continues', zi(ex.load(s, Ptr(x.c.id, P.off('saved_sp')), ('int', 64), ex.mods[0])) == x.sp, where='exit')
            # everybody else runs: nothing but the mappings that belong to nobody else stays
            m, n = s.ghost['M'], z3.Const(fresh_name('M'), m0.sort())
            i = z3.Int('i!run')
            keep = [z3.And(i >= a, i < a + z) for a, z in s.ghost['maps'][1:]]
            s.assume(z3.ForAll([i], z3.Implies(z3.Or(keep + [z3.BoolVal(False)]), n[i] == m[i]), patterns=[n[i]]))
            s.ghost['M'] = n
            s.ghost['live'] = []
            for s2, k2, v2 in ex.run_function(s, ex.get('cocpp::co_env::restore_shared_stack__'), [Ptr(x.e.id, 0), Ptr(x.c.id, 0)]):
                ex.oblige(s2, 'putting a stack back does not throw', k2 == 'ret', where='exit')
                if k2 != 'ret':
                    continue
                ex.oblige(s2, 'every byte in use is back at its place', same(s2, m0, x.sp, x.top), where='exit')
                ex.oblige(s2, 'the coroutine is on the shared stack again', z3.BoolVal(shared(ex, s2, x)), where='exit')
                ex.oblige(s2, 'the saved copy is released', z3.BoolVal(len(s2.ghost['maps']) == 1), where='exit')
                ex.oblige(s2, 'the record of the saved copy is released',
                          z3.BoolVal(not s2.ghost['records']), where='exit')
                cov['put back'] = cov['put back'] or ex.reachable(s2, x.sp < x.top)
                cov['empty'] = cov['empty'] or ex.reachable(s2, x.sp == x.top)
        return cov
    return P.fn('co_env::save_shared_stack__ and co_env::restore_shared_stack__', body)


def first(P):
    """a coroutine that has never run starts on the shared stack"""
    def body(ex):
        st, x = world(ex, P, z3.Int('bottom'), z3.Int('size'))
        ex.store_cell(st, Ptr(x.c.id, P.off('ctx_stack')), NULL, 8)
        m0 = st.ghost['M']
        cov = {'started': False}
        for s, k, v in ex.run_function(st, ex.get('cocpp::co_env::restore_shared_stack__'), [Ptr(x.e.id, 0), Ptr(x.c.id, 0)]):
            ex.oblige(s, 'starting on the shared stack does not throw', k == 'ret', where='exit')
            if k != 'ret':
                continue
            ex.oblige(s, 'nothing is put on the stack of a coroutine that has not run', same(s, m0, x.bottom, x.top), where='exit')
            ex.oblige(s, 'the coroutine is on the shared stack', z3.BoolVal(shared(ex, s, x)), where='exit')
            cov['started'] = True
        return cov
    return P.fn('co_env::restore_shared_stack__ (first)', body)


def shrink(P, empty):
    """trimming a suspended coroutine's stack"""
    def body(ex):
        st, x = world(ex, P, z3.Int('bottom'), z3.Int('size'))
        if empty:
            st.ghost['maps'] = []
            ex.store_cell(st, Ptr(x.s.id, P.off('stack_mem')), NULL, 8)
            ex.store_cell(st, Ptr(x.s.id, P.off('stack_size')), 0, 8)
        else:
            st.assume(z3.And(x.sp >= x.bottom, x.sp <= x.top))
            st.ghost['live'] = [(x.sp, x.top)]
        m0 = st.ghost['M']
        cov = {'trimmed': False, 'left alone': False} if not empty else {'left alone': False}
        for s, k, v in ex.run_function(st, ex.get('cocpp::co_ctx::shrink_stack'), [Ptr(x.c.id, 0)]):
            ex.oblige(s, 'trimming does not throw', k == 'ret', where='exit')
            if k != 'ret':
                continue
            ex.oblige(s, 'trimming changes no byte in use', same(s, m0, x.sp, x.top), where='exit')
            ex.oblige(s, 'trimming keeps the stack', z3.BoolVal(shared(ex, s, x) and not s.ghost['unmapped']), where='exit')
            if s.ghost.get('advised'):
                cov['trimmed'] = True
            else:
                cov['left alone'] = True
        return cov
    return P.fn('co_ctx::shrink_stack' + (' (no stack)' if empty else ''), body)


def make_and_destroy(P):
    """a stack has exactly the memory asked for, and all of it is released with the stack"""
    def body(ex):
        st, x = world(ex, P, z3.Int('bottom'), z3.Int('size'))
        n = z3.Int('asked')
        st.assume(z3.And(n >= 0, n < TOP))
        st.ghost['live'] = [(x.bottom, x.top)]
        cov = {'made': False, 'empty': False, 'no memory': False, 'released': False}
        for s, k, v in ex.run_function(st, ex.get('cocpp::co_stack_factory::create_stack'), [n]):
            if k != 'ret':
                ex.oblige(s, 'no memory is kept when a stack cannot be made', z3.BoolVal(len(s.ghost['maps']) == 1), where='exit')
                cov['no memory'] = True
                continue
            f = lambda q, r: next((v for s2, k2, v in ex.run_function(s.fork(), ex.get('cocpp::co_stack::' + q), [r])), None)
            bot, siz, top = f('stack', v), f('stack_size', v), f('stack_top', v)
            ex.oblige(s, 'a stack has the size asked for', zi(siz) == n, where='exit')
            ex.oblige(s, 'the top of a stack is its size above its bottom', zi(ex.pterm(s, top)) == zi(ex.pterm(s, bot)) + n, where='exit')
            new = s.ghost['maps'][1:]
            ex.oblige(s, 'a stack is one mapping of the size asked for, or none', z3.And(z3.BoolVal(len(new) <= 1), z3.BoolVal(len(new) == 1) == (n > 0), *[z3.And(a == zi(ex.pterm(s, bot)), z == n) for a, z in new]), where='exit')
            cov['made'] = cov['made'] or ex.reachable(s, n > 0)
            cov['empty'] = cov['empty'] or ex.reachable(s, n == 0)
            for s2, k2, v2 in ex.run_function(s, ex.get('cocpp::co_stack_factory::destroy_stack'), [v]):
                ex.oblige(s2, 'releasing a stack does not throw', k2 == 'ret', where='exit')
                ex.oblige(s2, 'all memory of a stack is released with it', z3.BoolVal(len(s2.ghost['maps']) == 1 and not s2.ghost['records']), where='exit')
                cov['released'] = True
        return cov
    return P.fn('co_stack_factory::create_stack and destroy_stack', body)


def run(P):
    round_trip(P)
    first(P)
    shrink(P, False)
    shrink(P, True)
    make_and_destroy(P)
