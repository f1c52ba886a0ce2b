"""Contracts of a coroutine's configured attributes: creation, options, priority."""
import z3
from values import *
import conc, oslock, stl, wait
from execu import Results, NOVAL, END, INLINE

SRCS = ['core/co_ctx.cpp', 'core/co_env.cpp', 'core/co_ctx_factory.cpp']
TUS = ['core.cpp']


def setup(ex, P):
    st, x = wait.setup(ex, P)
    C = P.consts
    x.idle0 = st.ghost[('last', 'flags')]['flags'].bit(C['val_idle'])
    base = x.F.arrive

    def arrive(ex, st, v=None):
        v = base(ex, st, v)
        st.assume(v['flags'].bit(C['val_idle']) == x.idle0)
        return v
    x.F.arrive = arrive
    ex.assumptions.add('the mark of the idle coroutine is set at its creation and never changes')
    x.penv = z3.Int('placed')
    st.assume(x.penv >= 0)
    ex.store_cell(st, Ptr(x.ctx.id, P.off('ctx_env')), Sym(x.penv, 0, 'env'), 8)
    st.ghost['pubs'] = ()

    def pub(ex, st, c):
        p = ex.resolve_sym(st, c.args[0])
        if not (isinstance(p, Ptr) and p.obj == x.ctx.id and p.off == P.off('ctx_prio_event') and len(c.args) == 3):
            raise Unsupported('unknown event')
        v = x.Pr.view(ex, st) if x.Pr.held(st) else st.ghost[('last', 'priority')]
        ex.oblige(st, 'observers of a priority change find the new priority in force', zi(v['priority']) == wrap32(c.args[2]))
        st.ghost['pubs'] = st.ghost['pubs'] + ((wrap32(c.args[1]), wrap32(c.args[2])),)
    ex.handlers['cocpp::co_event::pub'] = pub
    return st, x


def wrap32(v):
    return zi(v)


def sgn32(v):
    return z3.If(v >= 2 ** 31, v - 2 ** 32, v)


def clamp(P, p):
    m = P.consts['val_max_priority']
    return z3.If(p < 0, 0, z3.If(p >= m, m - 1, p))


def set_priority(P):
    def body(ex):
        st, x = setup(ex, P)
        p = z3.Int('wanted')
        st.assume(z3.And(p >= 0, p < 2 ** 32))
        cov = {'idle': False, 'told': False, 'same': False, 'not placed': False, 'low': False, 'high': False}
        for s, k, v in ex.run_function(st, ex.get('cocpp::co_ctx::set_priority'), [x.cp, p]):
            ex.oblige(s, 'set_priority does not throw', k == 'ret', where='exit')
            if k != 'ret':
                continue
            oslock.balanced(ex, s)
            n = s.ghost[('acq', 'priority')]
            pubs = s.ghost['pubs']
            last = zi(s.ghost[('last', 'priority')]['priority'])
            old = zi(s.ghost[('snap', 'priority')]['priority']) if n != 0 else last
            ex.oblige(s, 'the idle coroutine keeps its priority', z3.Implies(x.idle0, z3.And(last == old, z3.BoolVal(not pubs))), where='exit')
            ex.oblige(s, 'the priority becomes the requested one, clamped to the allowed range',
                      z3.Implies(z3.Not(x.idle0), z3.And(z3.BoolVal(n == 1), last == clamp(P, sgn32(p)))), where='exit')
            ch = z3.And(z3.Not(x.idle0), last != old, x.penv != 0)
            if pubs:
                ex.oblige(s, 'observers are told once, with the old and the new priority, and only if it changed',
                          z3.And(ch, z3.BoolVal(len(pubs) == 1), pubs[0][0] == old, pubs[0][1] == last), where='exit')
            else:
                ex.oblige(s, 'observers are told of every change', z3.Not(ch), where='exit')
            for nm, g in (('idle', x.idle0), ('told', z3.BoolVal(bool(pubs))), ('same', z3.And(z3.Not(x.idle0), last == old, x.penv != 0)), ('not placed', x.penv == 0),
                          ('low', sgn32(p) < 0), ('high', sgn32(p) > 200)):
                cov[nm] = cov[nm] or ex.reachable(s, g)
        return cov
    return P.fn('co_ctx::set_priority', body)


def priority(P):
    def body(ex):
        st, x = setup(ex, P)
        cov = {'returns': False}
        for s, k, v in ex.run_function(st, ex.get('cocpp::co_ctx::priority'), [x.cp]):
            ex.oblige(s, 'priority does not throw', k == 'ret', where='exit')
            if k == 'ret':
                oslock.balanced(ex, s)
                ex.oblige(s, 'priority reports the priority', z3.And(z3.BoolVal(s.ghost[('acq', 'priority')] == 1), zi(v) == zi(s.ghost[('last', 'priority')]['priority'])), where='exit')
                cov['returns'] = True
        return cov
    return P.fn('co_ctx::priority', body)


FIELDS = [('stack_size', 8, ('int', 64)), ('priority', 8, ('int', 64)), ('bind_env', 8, ('ptr',)), ('shared_stack', 1, ('int', 8))]


def config(ex, st, P, name='config'):
    """a configuration with arbitrary contents"""
    o = ex.new_obj(st, name, P.size('config'), 'param')
    vals = {}
    for f, sz, ty in FIELDS:
        t = z3.Int('%s_%s' % (name, f))
        st.assume(z3.And(t >= 0, t < (2 if f == 'shared_stack' else 2 ** 64)))
        ex.store_cell(st, Ptr(o.id, P.off('config_' + f)), Sym(t, 0, 'env') if ty == ('ptr',) else t, sz)
        vals[f] = t
    t = z3.Int('%s_name' % name)
    vals['name'] = t
    stl.put(ex, st, Ptr(o.id, P.off('config_name')), Str(t), raw=True)
    return o, vals


class Str:
    """the contents of a string"""
    kind = 'str'
    __slots__ = ('t', 'ver')

    def __init__(self, t):
        self.t, self.ver = t, stl.newver()

    def same(self, o):
        return veq(self.t, o.t)

    def equal(self, o):
        return zi(self.t) == zi(o.t)

    def havoc(self, ex, st):
        return Str(fresh_int('str'))


def str_at(ex, st, p):
    v = stl.cont(ex, st, ex.resolve_sym(st, p), False, lambda: Str(fresh_int('str')))
    if not isinstance(v, Str):
        raise Unsupported('expected a string')
    return v


def strings(ex):
    H = ex.handlers
    B = 'std::__cxx11::basic_string::'
    N = 'std::basic_string::'

    def ctor(ex, st, c):
        sret, a = stl.this_ret(c)
        if len(a) >= 2 and 'basic_string' in c.argtypes:
            v = str_at(ex, st, a[1])
        elif len(a) == 1:
            v = Str(z3.Int('empty string'))
        else:
            p = a[1]
            v = Str(z3.Int('literal %r' % (p,)))
        stl.put(ex, st, ex.resolve_sym(st, a[0]), Str(v.t))

    def assign(ex, st, c):
        stl.put(ex, st, ex.resolve_sym(st, c.args[0]), Str(str_at(ex, st, c.args[1]).t))
        return c.args[0]
    for b in (B, N):
        H[b + 'basic_string'] = ctor
        H[b + '~basic_string'] = lambda ex, st, c: None
        H[b + 'operator='] = assign


def option(P, name):
    def body(ex):
        st = conc.initial(ex)
        strings(ex)
        o, old = config(ex, st, P)
        v = z3.Int('value')
        st.assume(z3.And(v >= 0, v < (2 if name == 'shared_stack' else 2 ** 64)))
        ty = dict((f, t) for f, s, t in FIELDS).get(name)
        cov = {'returns': False}
        if name == 'name':
            so = ex.new_obj(st, 'string', 32, 'param')
            stl.put(ex, st, Ptr(so.id, 0), Str(v), raw=True)
            arg = Ptr(so.id, 0)
        else:
            arg = Sym(v, 0, 'env') if ty == ('ptr',) else (v == 1 if name == 'shared_stack' else v)
        for s, k, r in ex.run_function(st, ex.get('vf_with_' + name), [Ptr(o.id, 0), arg]):
            ex.oblige(s, 'the option does not throw', k == 'ret', where='exit')
            if k != 'ret':
                continue
            for f, sz, t in FIELDS:
                w = ex.load(s, Ptr(o.id, P.off('config_' + f)), t, ex.mods[0])
                w = ex.pterm(s, w) if t == ('ptr',) else zi(w)
                if f == name:
                    ex.oblige(s, 'the option sets %s to the given value' % f, w == v, where='exit')
                else:
                    ex.oblige(s, 'the option leaves %s alone' % f, w == old[f], where='exit')
            nm = str_at(ex, s, Ptr(o.id, P.off('config_name'))).t
            if name == 'name':
                ex.oblige(s, 'the option sets name to the given value', nm == v, where='exit')
            else:
                ex.oblige(s, 'the option leaves the name alone', nm == old['name'], where='exit')
            cov['returns'] = True
        return cov
    return P.fn('with_' + name, body)


def create(P):
    def body(ex):
        st = conc.initial(ex)
        oslock.install(ex)
        strings(ex)
        H = ex.handlers
        C = P.consts
        o, cf = config(ex, st, P)
        st.ghost['stacks'] = ()
        st.ghost['pubs'] = 0

        def mkstack(ex, st, c):
            t = fresh_int('stack')
            st.assume(t > 0)
            st.ghost['stacks'] = st.ghost['stacks'] + ((zi(c.args[0]), t),)
            return Sym(t, 0, 'stack')
        H['cocpp::co_stack_factory::create_stack'] = mkstack

        def pub(ex, st, c):
            st.ghost['pubs'] += 1
        H['cocpp::co_event::pub'] = pub
        H['cocpp::co_event::co_event'] = lambda ex, st, c: None
        H['cocpp::co_any::co_any'] = lambda ex, st, c: None
        for n in ('std::map::map', 'std::map::~map', 'std::function::function', 'std::function::~function'):
            H[n] = lambda ex, st, c: None
        f = ex.new_obj(st, 'entry', 32, 'param')
        cov = {'bound': False, 'not bound': False, 'shared stack': False, 'own stack': False}
        for s, k, r in ex.run_function(st, ex.get('cocpp::co_ctx_factory::create_ctx'), [Ptr(o.id, 0), Ptr(f.id, 0)]):
            ex.oblige(s, 'creating a coroutine does not throw', k == 'ret', where='exit')
            if k != 'ret':
                continue
            oslock.balanced(ex, s)
            r = ex.resolve_sym(s, r)
            if not isinstance(r, Ptr):
                raise Unsupported('result of create_ctx')
            M = ex.mods[0]
            at = lambda n: Ptr(r.obj, r.off + P.off(n))
            base = P.off('ctx_config')
            for fl, sz, t in FIELDS:
                w = ex.load(s, Ptr(r.obj, r.off + base + P.off('config_' + fl)), t, M)
                w = ex.pterm(s, w) if t == ('ptr',) else zi(w)
                ex.oblige(s, 'the coroutine has the configured %s' % fl, w == cf[fl], where='exit')
            ex.oblige(s, 'the coroutine has the configured name', str_at(ex, s, Ptr(r.obj, r.off + base + P.off('config_name'))).t == cf['name'], where='exit')
            b = s.mem[r.obj].get(r.off + P.off('ctx_flags'))
            if b is None or not isinstance(b[1], oslock.Bits):
                raise Unsupported('flags of a new coroutine')
            b = b[1]
            want = {C['val_bind']: cf['bind_env'] != 0, C['val_shared']: cf['shared_stack'] == 1}
            for i in range(C['val_ctx_flags']):
                ex.oblige(s, 'a new coroutine is marked bound or stack sharing exactly as configured, and nothing else', b.bit(i) == zb(want.get(i, z3.BoolVal(False))), where='exit')
            ex.oblige(s, 'a new coroutine is suspended', zi(ex.load(s, at('ctx_state'), ('int', 8), M)) == C['val_suspended'], where='exit')
            w = s.mem[r.obj].get(r.off + P.off('ctx_wait_set'))
            if w is None or not isinstance(w[1], stl.SetV):
                raise Unsupported('resources of a new coroutine')
            ex.oblige(s, 'a new coroutine waits for nothing', w[1].empty(), where='exit')
            ex.oblige(s, 'a new coroutine belongs to no environment yet', ex.pterm(s, ex.load(s, at('ctx_env'), ('ptr',), M)) == 0, where='exit')
            pr = zi(ex.load(s, at('ctx_priority'), ('int', 32), M))
            ex.oblige(s, 'the priority of a new coroutine is within the allowed range', z3.And(pr >= 0, pr < C['val_max_priority']), where='exit')
            ex.oblige(s, 'an allowed priority is the configured one', z3.Implies(cf['priority'] < C['val_max_priority'], pr == cf['priority']), where='exit')
            ex.oblige(s, 'nobody is told about the first priority', z3.BoolVal(s.ghost['pubs'] == 0), where='exit')
            sk = s.ghost['stacks']
            own = ex.pterm(s, ex.load(s, at('ctx_stack'), ('ptr',), M))
            sh = cf['shared_stack'] == 1
            if sk:
                ex.oblige(s, 'a stack of the configured size is made exactly if the coroutine does not share one',
                          z3.And(z3.Not(sh), z3.BoolVal(len(sk) == 1), sk[0][0] == cf['stack_size'], own == sk[0][1]), where='exit')
            else:
                ex.oblige(s, 'a coroutine on a shared stack gets none of its own', z3.And(sh, own == 0), where='exit')
            for nm, g in (('bound', cf['bind_env'] != 0), ('not bound', cf['bind_env'] == 0), ('shared stack', sh), ('own stack', z3.Not(sh))):
                cov[nm] = cov[nm] or ex.reachable(s, g)
        return cov
    return P.fn('co_ctx_factory::create_ctx', body)


def run(P):
    set_priority(P)
    priority(P)
    for f, sz, t in FIELDS:
        option(P, f)
    option(P, 'name')
    create(P)
