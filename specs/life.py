"""Contracts for the life of a coroutine: its handle, when it is reclaimed, and that nobody touches it afterwards.

given: coroutines whose handle has given them up; they may be gone at any time afterwards, so nobody but their
environment touches them."""
import re
import z3
from values import *
import conc, oslock, stl
from execu import Results, NOVAL, END, INLINE, Throw, Exc

SRCS = ['co/co.cpp', 'core/co_env.cpp', 'core/co_ctx.cpp', 'core/co_ctx_factory.cpp', 'core/co_manager.cpp', 'core/co_stack_factory.cpp', 'core/co_stack.cpp']
TUS = ['core.cpp', 'life.cpp']


class Life:
    pass


def none():
    return z3.K(z3.IntSort(), z3.BoolVal(False))


def touch(ex, st, p, what='used'):
    t = ex.pterm(st, p)
    ex.oblige(st, 'a coroutine is not touched once it may be reclaimed', z3.And(t != 0, z3.Not(z3.Select(st.ghost['gone'], t))))
    return t


def use(i):
    def h(ex, st, c):
        touch(ex, st, c.args[i])
    return h


def handles(ex, P):
    st = conc.initial(ex)
    x = Life()
    x.st = st
    H = ex.handlers
    st.ghost.update({'gone': none(), 'waited': none(), 'gaveup': 0, 'threw': False})

    def env(ex, st, c):
        t = fresh_int('env')
        st.assume(t > 0)
        return Sym(t, 0, 'env')
    H['cocpp::co_manager::current_env'] = env
    H['cocpp::co_singleton_static::instance'] = env

    def wait(ex, st, c):
        sret, a = stl.this_ret(c)
        if len(a) != 2:
            raise Unsupported('wait with a limit')
        t = touch(ex, st, a[1])
        s2 = st.fork()
        for s in (st, s2):
            s.ghost['waited'] = z3.Store(s.ghost['waited'], t, z3.BoolVal(True))
        s2.ghost['threw'] = True
        return Results([(st, NOVAL), (s2, Throw(Exc('_ZTISt13runtime_error')))])
    H['cocpp::co_env::wait_ctx'] = wait
    for n in ('cocpp::co_return_value::~co_return_value', 'cocpp::co_any::~co_any'):
        H[n] = lambda ex, st, c: None

    def release(ex, st, c):
        t = touch(ex, st, c.args[0])
        st.ghost['gone'] = z3.Store(st.ghost['gone'], t, z3.BoolVal(True))
        st.ghost['gaveup'] += 1
    H['cocpp::co_ctx::unlock_destroy'] = release

    def lock(ex, st, c):
        ex.oblige(st, 'a handle takes no coroutine over that it did not create', False)
        return END
    H['cocpp::co_ctx::lock_destroy'] = lock
    # an error nobody asked for ends the program (destructors do not throw)
    H['__clang_call_terminate'] = lambda ex, st, c: END
    x.h, x.c = [], []
    for i in range(2):
        o = ex.new_obj(st, 'handle %d' % i, P.size('handle'), 'param')
        t = z3.Int('coroutine%d' % i)
        st.assume(t >= 0)
        ex.store_cell(st, Ptr(o.id, P.off('handle_ctx')), Sym(t, 0, 'ctx'), 8)
        x.h.append(o)
        x.c.append(t)
    # two handles never refer to the same coroutine
    st.assume(z3.Or(x.c[0] == 0, x.c[0] != x.c[1]))
    x.ref = lambda s, i: ex.pterm(s, ex.load(s, Ptr(x.h[i].id, P.off('handle_ctx')), ('ptr',), ex.mods[0]))
    ex.assumptions.add('one handle is not used by two threads at the same time')
    return st, x


def gave(ex, s, c, waited):
    """the coroutine c (0: none) was given up exactly once, after waiting for it if that is required"""
    ex.oblige(s, 'the coroutine of the handle is given up exactly once',
              z3.And(z3.BoolVal(s.ghost['gaveup'] <= 1), z3.BoolVal(s.ghost['gaveup'] == 1) == (c != 0), z3.Implies(c != 0, z3.Select(s.ghost['gone'], c))), where='exit')
    if waited:
        ex.oblige(s, 'a coroutine is given up only after waiting for it', z3.Implies(c != 0, z3.Select(s.ghost['waited'], c)), where='exit')


def handle_op(P, name, waits, throws):
    def body(ex):
        st, x = handles(ex, P)
        cov = {'coroutine': False, 'nothing': False}
        for s, k, v in ex.run_function(st, ex.get('vf_handle_' + name), [Ptr(x.h[0].id, 0)]):
            if k != 'ret':
                ex.oblige(s, '%s throws only what the coroutine ended with' % name, z3.BoolVal(throws and s.ghost['threw']), where='exit')
            gave(ex, s, x.c[0], waits)
            if name != 'destroy':
                ex.oblige(s, 'the handle refers to nothing afterwards', x.ref(s, 0) == 0, where='exit')
            for nm, g in (('coroutine', x.c[0] != 0), ('nothing', x.c[0] == 0)):
                cov[nm] = cov[nm] or ex.reachable(s, g)
        return cov
    return P.fn('co::' + {'destroy': '~co'}.get(name, name), body)


def move(P):
    def body(ex):
        st, x = handles(ex, P)
        cov = {'coroutine': False, 'nothing': False}
        for s, k, v in ex.run_function(st, ex.get('vf_handle_move'), [Ptr(x.h[1].id, 0), Ptr(x.h[0].id, 0)]):
            ex.oblige(s, 'moving does not throw', k == 'ret', where='exit')
            ex.oblige(s, 'moving gives nothing up', z3.BoolVal(s.ghost['gaveup'] == 0), where='exit')
            ex.oblige(s, 'the new handle refers to the coroutine', x.ref(s, 1) == x.c[0], where='exit')
            ex.oblige(s, 'the moved-from handle refers to nothing', x.ref(s, 0) == 0, where='exit')
            for nm, g in (('coroutine', x.c[0] != 0), ('nothing', x.c[0] == 0)):
                cov[nm] = cov[nm] or ex.reachable(s, g)
        return cov
    return P.fn('co::co (move)', body)


def assign(P, to_itself):
    def body(ex):
        st, x = handles(ex, P)
        cov = {'returns': False}
        a = 0 if to_itself else 1
        for s, k, v in ex.run_function(st, ex.get('vf_handle_assign'), [Ptr(x.h[a].id, 0), Ptr(x.h[0].id, 0)]):
            if k != 'ret':
                ex.oblige(s, 'assigning throws only what the coroutine ended with', z3.BoolVal(bool(s.ghost['threw'])), where='exit')
                continue
            cov['returns'] = True
            if to_itself:
                ex.oblige(s, 'a handle assigned to itself keeps its coroutine', z3.And(z3.BoolVal(s.ghost['gaveup'] == 0), x.ref(s, 0) == x.c[0]), where='exit')
                continue
            gave(ex, s, x.c[1], True)
            ex.oblige(s, 'the assigned handle refers to the coroutine', x.ref(s, 1) == x.c[0], where='exit')
            ex.oblige(s, 'the moved-from handle refers to nothing', x.ref(s, 0) == 0, where='exit')
        return cov
    return P.fn('co::operator=' + (' (to itself)' if to_itself else ''), body)


def make(P):
    def body(ex):
        st, x = handles(ex, P)
        st.ghost['made'] = 0

        def create(ex, st, c):
            sret, a = stl.this_ret(c)
            ex.oblige(st, 'a coroutine with a handle is created held', zb(a[-1]))
            t = fresh_int('created')
            st.assume(t > 0)
            st.ghost['made'] = st.ghost['made'] + 1
            st.ghost['made_ctx'] = t
            return Sym(t, 0, 'ctx')
        ex.handlers['cocpp::co_manager::create_and_schedule_ctx'] = create
        import prio, maps
        prio.strings(ex)
        for n in ('std::function::function', 'std::function::~function', 'std::function::operator='):
            ex.handlers[n] = lambda ex, st, c: c.args[0] if c.q.endswith('=') else None
        cov = {'returns': False}
        for s, k, v in ex.run_function(st, ex.get('vf_handle_make'), [Ptr(x.h[0].id, 0), Fn('f')]):
            ex.oblige(s, 'creating does not throw', k == 'ret', where='exit')
            ex.oblige(s, 'one coroutine is created', z3.BoolVal(s.ghost['made'] == 1), where='exit')
            if s.ghost['made'] == 1:
                ex.oblige(s, 'the handle refers to the coroutine it created', x.ref(s, 0) == s.ghost['made_ctx'], where='exit')
            ex.oblige(s, 'creating gives nothing up', z3.BoolVal(s.ghost['gaveup'] == 0), where='exit')
            cov['returns'] = True
        return cov
    return P.fn('co::co', body)


def arr(nm, sort=z3.BoolSort):
    return z3.Const(nm, z3.ArraySort(z3.IntSort(), sort()))


def world(ex, P):
    """an environment and coroutines in arbitrary states; every use of a coroutine is seen"""
    oslock.install(ex)
    st = conc.initial(ex)
    C = P.consts
    x = Life()
    x.C = C
    x.env = e = ex.new_obj(st, 'env', P.size('env'), 'param')
    x.ep = Ptr(e.id, 0)
    x.FIN, x.LCK, x.SH = arr('FIN'), arr('LCK'), arr('SH')
    st.ghost['gone'] = arr('gone')
    x.idle = z3.Int('idle')
    st.assume(x.idle > 0)
    ex.store_cell(st, Ptr(e.id, P.off('env_idle')), Sym(x.idle, 0, 'ctx'), 8)
    x.cur0 = z3.Int('current')
    st.assume(x.cur0 >= 0)
    ex.store_cell(st, Ptr(e.id, P.off('env_curr')), Sym(x.cur0, 0, 'ctx'), 8)
    ptr = lambda s, n: ex.pterm(s, ex.load(s, Ptr(e.id, P.off(n)), ('ptr',), ex.mods[0]))

    def current(s):
        c = ptr(s, 'env_curr')
        return z3.If(c == 0, x.idle, c)
    x.ptr, x.current = ptr, current
    x.sk = (e.id, P.off('env_sched'))
    H = ex.handlers
    H.pop('cocpp::co_env::current_ctx', None)
    H['cocpp::co_recursive_mutex_with_count::lock'] = oslock.h_lock
    H['cocpp::co_recursive_mutex_with_count::unlock'] = oslock.h_unlock
    ex.bump_count = lambda st, p, d: None
    x.gone = lambda s, t: z3.Select(s.ghost['gone'], t)

    def state(ex, st, c):
        t = touch(ex, st, c.args[0])
        o = fresh_int('state')
        st.assume(z3.And(o >= 0, o < 256, (o == C['val_finished']) == x.FIN[t]))
        return o
    H['cocpp::co_ctx::state'] = state

    def set_state(ex, st, c):
        touch(ex, st, c.args[0])
    H['cocpp::co_ctx::set_state'] = set_state

    def test_flag(ex, st, c):
        t = touch(ex, st, c.args[0])
        f = c.args[1]
        if not is_num(f) and not isinstance(f, z3.ArithRef):
            f = ex.load(st, f, ('int', 32), ex.mods[0])
        f = simp(f)
        known = {C['val_shared']: x.SH, C['val_locked']: x.LCK}
        if is_num(f) and f in known:
            return known[f][t]
        return fresh_bool('flag')
    H['cocpp::co_ctx::test_flag'] = test_flag

    def can_destroy(ex, st, c):
        return z3.Not(x.LCK[touch(ex, st, c.args[0])])
    H['cocpp::co_ctx::can_destroy'] = can_destroy
    H['cocpp::co_env::state'] = lambda ex, st, c: bounded_int(st, 'envstate', 256)
    H['cocpp::co_env::set_state'] = lambda ex, st, c: None
    H['cocpp::co_env::set_flag'] = lambda ex, st, c: None
    H['cocpp::co_env::unset_flag'] = lambda ex, st, c: None
    H['cocpp::co_env::test_flag'] = lambda ex, st, c: fresh_bool('flag')
    return st, x


def bounded_int(st, nm, n):
    t = fresh_int(nm)
    st.assume(z3.And(t >= 0, t < n))
    return t


def sweep(P):
    """which coroutines are reclaimed"""
    def body(ex):
        st, x = world(ex, P)
        H = ex.handlers
        cd = stl.ptr_codec('ctx')
        st.ghost['removed'] = 0
        st.ghost['others'] = False

        def all_ctx(ex, st, c):
            sret, a = stl.this_ret(c)
            q = stl.fresh_seq(ex, st, cd, 'list', True)
            st.assume(q.wf())
            k = z3.Int('k!l')
            st.assume(z3.ForAll([k], z3.Implies(z3.And(zi(q.lo) <= k, k < zi(q.hi)), z3.And(q.arr[k] > 0, q.arr[k] != x.idle, z3.Not(x.gone(st, q.arr[k])))), patterns=[q.arr[k]]))
            stl.put(ex, st, ex.resolve_sym(st, sret), q)
        for n in ('', '[abi:cxx11]'):
            H['cocpp::co_env::all_ctx__' + n] = all_ctx
        ex.assumptions.add('the list of all coroutines of an environment contains each queued one once and none that was reclaimed (bounded check; queues: C19)')

        def remove(ex, st, c):
            t = touch(ex, st, c.args[1])
            ex.oblige(st, 'a coroutine is reclaimed only after it has finished', x.FIN[t])
            ex.oblige(st, 'a coroutine is reclaimed only after its handle gave it up', z3.Not(x.LCK[t]))
            ex.oblige(st, 'the coroutine that executes is not reclaimed', t != x.current(st))
            st.ghost['gone'] = z3.Store(st.ghost['gone'], t, z3.BoolVal(True))
            st.ghost['removed'] = simp(zi(st.ghost['removed']) + 1)
        H['cocpp::co_env::remove_ctx'] = remove

        def cands(ex, s0, cur, mod, depth):
            import loops
            out = []
            for l in mod:
                v = loops.get(cur, l, depth)
                v = v[1] if v is not None and l[0] == 'cell' else v
                if not isinstance(v, (It, Elem)):
                    continue

                def f(s, l=l):
                    w = loops.get(s, l, depth)
                    w = w[1] if w is not None and l[0] == 'cell' else w
                    if not isinstance(w, (It, Elem)):
                        return None
                    q = stl.get_cont(s, w.c)
                    if not isinstance(q, stl.Seq):
                        return None
                    k = z3.Int('k!s')
                    return z3.ForAll([k], z3.Implies(z3.And(zi(w.idx) <= k, k < zi(q.hi)), z3.Not(x.gone(s, q.arr[k]))), patterns=[q.arr[k]])
                out.append(('nobody from here on was reclaimed', f))

                def g(s, l=l):
                    w = loops.get(s, l, depth)
                    w = w[1] if w is not None and l[0] == 'cell' else w
                    if not isinstance(w, (It, Elem)):
                        return None
                    q = stl.get_cont(s, w.c)
                    if not isinstance(q, stl.Seq):
                        return None
                    e = q.arr[zi(w.idx)]
                    return z3.Or(zi(w.idx) == zi(q.hi), z3.And(x.FIN[e], z3.Not(x.LCK[e]), e != x.current(s)))
                out.append(('whoever comes next is to be reclaimed', g))
            return out
        ex.loop_hook.append(cands)
        cov = {'somebody': False, 'nobody': False}
        for s, k, v in ex.run_function(st, ex.get('cocpp::co_env::remove_detached_ctx__'), [x.ep]):
            ex.oblige(s, 'reclaiming does not throw', k == 'ret', where='exit')
            ex.oblige(s, 'reclaiming does not change the current coroutine', x.ptr(s, 'env_curr') == x.cur0, where='exit')
            cov['somebody'] = cov['somebody'] or ex.reachable(s, zi(s.ghost['removed']) > 0)
            cov['nobody'] = cov['nobody'] or ex.reachable(s, zi(s.ghost['removed']) == 0)
        return cov
    return P.fn('co_env::remove_detached_ctx__', body)


def destroy(P):
    """the end of a coroutine: its memory and its own stack go, in an order that touches nothing afterwards"""
    def body(ex):
        st, x = world(ex, P)
        H = ex.handlers
        t = z3.Int('coroutine')
        stack = z3.Int('stack')
        st.assume(z3.And(t > 0, stack >= 0, z3.Not(x.gone(st, t)), z3.Implies(z3.Not(x.SH[t]), stack > 0)))
        st.ghost.update({'deleted': 0, 'stacks': ()})

        def get_stack(ex, st, c):
            u = touch(ex, st, c.args[0])
            return Sym(stack, 0, 'stack')
        H['cocpp::co_ctx::stack'] = get_stack

        def dtor(ex, st, c):
            u = touch(ex, st, c.args[0])
            ex.oblige(st, 'the coroutine given is the one destroyed', u == t)
            st.ghost['gone'] = z3.Store(st.ghost['gone'], u, z3.BoolVal(True))
            st.ghost['deleted'] += 1
        H['cocpp::co_ctx::~co_ctx'] = dtor

        def free_stack(ex, st, c):
            st.ghost['stacks'] = st.ghost['stacks'] + (ex.pterm(st, c.args[0]),)
        H['cocpp::co_stack_factory::destroy_stack'] = free_stack
        cov = {'own stack': False, 'shared stack': False}
        for s, k, v in ex.run_function(st, ex.get('cocpp::co_ctx_factory::destroy_ctx'), [Sym(t, 0, 'ctx')]):
            ex.oblige(s, 'destroying does not throw', k == 'ret', where='exit')
            ex.oblige(s, 'the coroutine is destroyed once', z3.BoolVal(s.ghost['deleted'] == 1), where='exit')
            fs = s.ghost['stacks']
            ex.oblige(s, 'its own stack is given back once, a shared one is not', z3.And(z3.BoolVal(len(fs) <= 1), z3.BoolVal(len(fs) == 1) == z3.Not(x.SH[t]),
                                                                                        fs[0] == stack if fs else True), where='exit')
            cov['own stack'] = cov['own stack'] or ex.reachable(s, z3.Not(x.SH[t]))
            cov['shared stack'] = cov['shared stack'] or ex.reachable(s, x.SH[t])
        return cov
    return P.fn('co_ctx_factory::destroy_ctx', body)


def keep(P, name):
    """the mark that keeps a coroutine"""
    import wait

    def body(ex):
        st, x = wait.setup(ex, P)
        L = x.C['val_locked']
        cov = {'returns': False}
        for s, k, v in ex.run_function(st, ex.get('cocpp::co_ctx::' + name), [x.cp]):
            ex.oblige(s, '%s does not throw' % name, k == 'ret', where='exit')
            if k != 'ret':
                continue
            oslock.balanced(ex, s)
            ex.oblige(s, 'the mark is looked at in one step', z3.BoolVal(s.ghost[('acq', 'flags')] == 1), where='exit')
            a, b = s.ghost[('snap', 'flags')]['flags'], s.ghost[('last', 'flags')]['flags']
            if name == 'can_destroy':
                ex.oblige(s, 'a coroutine can be destroyed exactly if it is not kept', zb(v) == z3.Not(a.bit(L)), where='exit')
                ex.oblige(s, 'asking changes no mark', a.equal(b), where='exit')
            else:
                ex.oblige(s, '%s changes exactly the mark that keeps the coroutine' % name,
                          z3.And([b.bit(j) == (z3.BoolVal(name == 'lock_destroy') if j == L else a.bit(j)) for j in range(x.C['val_ctx_flags'])]), where='exit')
            cov['returns'] = True
        return cov
    return P.fn('co_ctx::' + name, body)


def create(P):
    """a coroutine is kept before anybody can run it, and not touched afterwards unless it is kept"""
    def body(ex):
        st, x = world(ex, P)
        H = ex.handlers
        t = z3.Int('created')
        bound = z3.Int('bound')
        asked = z3.Bool('asked')
        st.assume(z3.And(t > 0, bound >= 0, z3.Not(x.gone(st, t))))
        st.ghost.update({'kept': False, 'added': 0, 'made': 0})
        cfg = ex.new_obj(st, 'config', P.size('config'), 'param')
        ex.store_cell(st, Ptr(cfg.id, P.off('config_bind_env')), Sym(bound, 0, 'env'), 8)

        def mk(ex, st, c):
            st.ghost['made'] += 1
            return Sym(t, 0, 'ctx')
        H['cocpp::co_ctx_factory::create_ctx'] = mk

        def conf(ex, st, c):
            touch(ex, st, c.args[0])
            return Ptr(cfg.id, 0)
        H['cocpp::co_ctx::config'] = conf
        H['cocpp::co_manager::subscribe_ctx_event__'] = use(1)
        for n in ('std::function::function', 'std::function::~function'):
            H[n] = lambda ex, st, c: None

        def lock(ex, st, c):
            touch(ex, st, c.args[0])
            st.ghost['kept'] = True
        H['cocpp::co_ctx::lock_destroy'] = lock

        def unlock(ex, st, c):
            touch(ex, st, c.args[0])
            st.ghost['kept'] = False
        H['cocpp::co_ctx::unlock_destroy'] = unlock

        def best(ex, st, c):
            e = fresh_int('best')
            st.assume(e > 0)
            st.ghost['best'] = e
            return Sym(e, 0, 'env')
        H['cocpp::co_manager::get_best_env__'] = best

        def add(ex, st, c):
            u = touch(ex, st, c.args[1])
            ex.oblige(st, 'a coroutine that is to be kept is kept before it can run', zb(st.ghost['kept']) == asked)
            e = ex.pterm(st, c.args[0])
            ex.oblige(st, 'a bound coroutine goes to its environment, another one to the one chosen for it', e == z3.If(bound != 0, bound, st.ghost.get('best', z3.IntVal(-1))))
            st.ghost['added'] += 1
            if not st.ghost['kept']:
                st.ghost['gone'] = z3.Store(st.ghost['gone'], u, z3.BoolVal(True))
        H['cocpp::co_env::add_ctx'] = add
        m = ex.new_obj(st, 'manager', 4096, 'param')
        f = ex.new_obj(st, 'entry', 32, 'param')
        cov = {'kept': False, 'not kept': False, 'bound': False, 'free': False}
        for s, k, v in ex.run_function(st, ex.get('cocpp::co_manager::create_and_schedule_ctx'), [Ptr(m.id, 0), Ptr(cfg.id, 0), Ptr(f.id, 0), asked]):
            ex.oblige(s, 'creating does not throw', k == 'ret', where='exit')
            if k != 'ret':
                continue
            ex.oblige(s, 'one coroutine is created and added once', z3.BoolVal(s.ghost['made'] == 1 and s.ghost['added'] == 1), where='exit')
            ex.oblige(s, 'the coroutine created is returned', ex.pterm(s, v) == t, where='exit')
            for nm, g in (('kept', asked), ('not kept', z3.Not(asked)), ('bound', bound != 0), ('free', bound == 0)):
                cov[nm] = cov[nm] or ex.reachable(s, g)
        return cov
    return P.fn('co_manager::create_and_schedule_ctx', body)


def switching(P):
    """From a coroutine to the next one: who is touched after the sweep, and between whom the switch goes.

    PRE: who a coroutine was switched to from; it may be gone in a coroutine that has not cleared it.  On entry and
    whenever a switch comes back (up to the end of the environment): the current coroutine, the one that executes and the idle one exist; the one that
    executes is the current one, or the idle one if a switch over the shared stack is pending; then both ends of the
    pending switch exist; nobody but the one that executes and the idle one has a predecessor noted."""
    def body(ex):
        st, x = world(ex, P)
        H = ex.handlers
        e = x.env
        me = z3.Int('me')
        fr, to, need = z3.Int('from'), z3.Int('to'), z3.Bool('need')
        st.ghost['PRE'] = arr('PRE', z3.IntSort)
        st.ghost['lock'] = 0
        for n, v in (('env_sw_from', Sym(fr, 0, 'ctx')), ('env_sw_to', Sym(to, 0, 'ctx'))):
            ex.store_cell(st, Ptr(e.id, P.off(n)), v, 8)
        ex.store_cell(st, Ptr(e.id, P.off('env_sw_need')), zi(need), 1)
        pend = lambda s: zb(ex.load(s, Ptr(e.id, P.off('env_sw_need')), ('int', 8), ex.mods[0]))
        alive = lambda s, t: z3.And(t > 0, z3.Not(x.gone(s, t)))

        def inv(s, who, strict=False):
            E = z3.And(z3.BoolVal(not strict), s.ghost['ending'])
            c = z3.Int('c!pre')
            f, t = x.ptr(s, 'env_sw_from'), x.ptr(s, 'env_sw_to')
            return [('the current coroutine exists', alive(s, x.current(s))),
                    ('the coroutine that executes exists', alive(s, who)),
                    ('the idle coroutine exists', alive(s, x.idle)),
                    ('the coroutine that executes is the current one, or the idle one on behalf of a pending switch', z3.Or(who == z3.If(pend(s), x.idle, x.current(s)), z3.And(E, who == x.idle))),
                    ('both ends of a pending switch exist', z3.Implies(pend(s), z3.And(alive(s, f), alive(s, t), z3.Or(E, t == x.current(s))))),
                    ('a pending switch does not start at the idle coroutine it is done by, unless nothing is to be saved', z3.Implies(pend(s), z3.Or(f != x.idle, z3.Not(x.SH[f])))),
                    ('nobody who is suspended has a predecessor noted', z3.ForAll([c], z3.Implies(z3.And(c != who, c != x.idle), s.ghost['PRE'][c] == 0), patterns=[s.ghost['PRE'][c]]))]
        ex.assumptions.add('an environment that is to end does not switch again from its idle coroutine (its scheduling loop ends); what holds at every switch holds again when a switch comes back')
        st.assume(z3.Not(x.SH[x.idle]))
        st.ghost['ending'] = z3.Bool('ending')
        for nm, g in inv(st, me, True):
            st.assume(g)

        def later(st):
            n = fresh_bool('ending')
            st.assume(z3.Implies(st.ghost['ending'], n))
            st.ghost['ending'] = n

        def env_state(ex, st, c):
            later(st)
            v = bounded_int(st, 'envstate', 256)
            st.assume((v == x.C['val_destroying']) == st.ghost['ending'])
            return v
        H['cocpp::co_env::state'] = env_state

        def pre(ex, st, c):
            return Sym(st.ghost['PRE'][touch(ex, st, c.args[0])], 0, 'ctx')
        H['cocpp::co_ctx::pre_ctx'] = pre

        def clear(ex, st, c):
            st.ghost['PRE'] = z3.Store(st.ghost['PRE'], touch(ex, st, c.args[0]), z3.IntVal(0))
        H['cocpp::co_ctx::clear_pre_ctx'] = clear

        def regs(ex, st, c):
            return Sym(touch(ex, st, c.args[0]), 0, 'regs')
        H['cocpp::co_ctx::regs'] = regs

        def shrink(ex, st, c):
            t = touch(ex, st, c.args[0])
            ex.oblige(st, 'a stack is trimmed only while its coroutine is suspended and still on it', z3.Or(t == x.idle, z3.And(t != me, z3.Implies(x.SH[t], zb(st.ghost.get('fresh', False))))))
        H['cocpp::co_ctx::shrink_stack'] = shrink

        def sweep(ex, st, c):
            ex.oblige(st, 'coroutines are reclaimed with the scheduling lock taken', z3.BoolVal(oslock.depth(st, x.sk) > 0))
            n = arr(fresh_name('gone'))
            st.assume(n[x.current(st)] == x.gone(st, x.current(st)))
            st.assume(n[x.idle] == x.gone(st, x.idle))
            st.ghost['gone'] = n
        H['cocpp::co_env::remove_detached_ctx__'] = sweep

        def save(ex, st, c):
            t = touch(ex, st, c.args[1])
            ex.oblige(st, 'the stack that is saved is the shared one', x.SH[t])
            ex.oblige(st, 'the stack of the coroutine that was switched from is saved', t == x.ptr(st, 'env_sw_from'))
            ex.oblige(st, 'a shared stack is saved before another one is put there', z3.BoolVal(not st.ghost.get('restored')))
            ex.oblige(st, 'the shared stack of a finished coroutine is not kept', z3.Not(x.FIN[t]))
            st.ghost['saved'] = True
            st.ghost['fresh'] = False
        H['cocpp::co_env::save_shared_stack__'] = save

        def restore(ex, st, c):
            t = touch(ex, st, c.args[1])
            ex.oblige(st, 'the stack of the coroutine that is switched to is put back', z3.And(x.SH[t], t == x.ptr(st, 'env_sw_to')))
            st.ghost['restored'] = True
        H['cocpp::co_env::restore_shared_stack__'] = restore

        def choose(ex, st, c):
            n = fresh_int('next')
            st.assume(z3.And(n >= 0, n != x.idle, z3.Implies(n != 0, alive(st, n))))
            ex.store_cell(st, Ptr(e.id, P.off('env_curr')), Sym(n, 0, 'ctx'), 8)
            return Sym(n, 0, 'ctx')
        H['cocpp::co_env::choose_ctx_from_normal_list__'] = choose
        H['cocpp::co_env::sleep_if_need__'] = lambda ex, st, c: None

        def switch(ex, st, c):
            a, b = (ex.pterm(st, v) for v in c.args)
            ex.oblige(st, 'the switch goes away from the coroutine that executes', a == me)
            ex.oblige(st, 'nobody but the idle coroutine, which has no stack of its own, is switched to from itself', z3.Or(a != b, a == x.idle))
            ex.oblige(st, 'the scheduling lock is not held by a suspended coroutine', z3.BoolVal(oslock.depth(st, x.sk) == 0))
            st.ghost['PRE'] = z3.Store(st.ghost['PRE'], b, a)
            for nm, g in inv(st, b):
                ex.oblige(st, 'when control passes on: ' + nm, g)
            flag = lambda n: z3.BoolVal(bool(st.ghost.get(n)))
            ex.oblige(st, 'a coroutine on the shared stack is left and continued only through the idle one', z3.Or(a == x.idle, b == x.idle, z3.And(z3.Not(x.SH[a]), z3.Not(x.SH[b]))))
            ex.oblige(st, 'a coroutine on the shared stack continues only after its stack was put back', z3.Implies(x.SH[b], flag('restored')))
            ex.oblige(st, 'a coroutine on the shared stack is not interrupted while it is there', z3.Implies(x.SH[b], zi(st.ghost['preempt']) > 0))
            ex.oblige(st, 'the shared stack of a suspended coroutine is saved before anybody continues', z3.Implies(z3.And(need, x.SH[fr], z3.Not(x.FIN[fr])), flag('saved')))
            # a long time later
            later(st)
            st.ghost['gone'] = arr(fresh_name('gone'))
            st.ghost['PRE'] = arr(fresh_name('PRE'), z3.IntSort)
            for n in ('env_curr', 'env_sw_from', 'env_sw_to'):
                v = fresh_int(n)
                st.assume(v >= 0)
                ex.store_cell(st, Ptr(e.id, P.off(n)), Sym(v, 0, 'ctx'), 8)
            ex.store_cell(st, Ptr(e.id, P.off('env_sw_need')), zi(fresh_bool('need')), 1)
            for nm, g in inv(st, me):
                st.assume(g)
            p = st.ghost['PRE'][me]
            # whoever switched here did so as shown above
            st.assume(z3.And(alive(st, p), z3.Or(p != me, p == x.idle), z3.Or(me == x.idle, p == x.idle, z3.And(z3.Not(x.SH[me]), z3.Not(x.SH[p])))))
            st.ghost['switched'] = True
            st.ghost['fresh'] = me == x.idle
        H['cocpp::switch_to'] = switch
        cov = {'switch': False, 'no switch': False, 'pending': False, 'not pending': False, 'left pending': False}
        for s, k, v in ex.run_function(st, ex.get('cocpp::co_env::schedule_switch'), [x.ep]):
            ex.oblige(s, 'switching does not throw', k == 'ret', where='exit')
            if k != 'ret':
                continue
            oslock.balanced(ex, s)
            for nm, g in inv(s, me):
                ex.oblige(s, 'afterwards: ' + nm, g, where='exit')
            sw = bool(s.ghost.get('switched'))
            cov['switch'] = cov['switch'] or sw
            cov['no switch'] = cov['no switch'] or not sw
            cov['pending'] = cov['pending'] or ex.reachable(s, need)
            cov['not pending'] = cov['not pending'] or ex.reachable(s, z3.Not(need))
            cov['left pending'] = cov['left pending'] or (not sw and ex.reachable(s, pend(s)))
        return cov
    return P.fn('co_env::schedule_switch', body)


def run(P):
    handle_op(P, 'detach', False, False)
    handle_op(P, 'join', True, True)
    handle_op(P, 'destroy', True, True)
    move(P)
    assign(P, False)
    assign(P, True)
    make(P)
    sweep(P)
    destroy(P)
    for n in ('can_destroy', 'lock_destroy', 'unlock_destroy'):
        keep(P, n)
    create(P)
    switching(P)
