"""Contracts of the channels."""
import z3
from values import *
import conc, stl, msync
from conc import Monitor, Field, Cv, same
from msync import fresh_arg, done

SRCS = ['utils/co_utils.cpp', 'core/co_env.cpp']
TUS = ['chan.cpp']
TOP = 2 ** 62
USE = {'operator<': 'use_send_op', 'operator>': 'use_receive_op', 'operator<<': 'use_send_chain', 'operator>>': 'use_receive_chain'}
KINDS = ('unbounded', 'rendezvous', 'bounded')


def construct(ex, P):
    """run the real constructor with every capacity; [(kind, state, channel object, capacity)]"""
    st = conc.initial(ex)
    conc.mutex_contracts(ex)
    o = ex.new_obj(st, 'chan', P.size('chan'), 'param')
    n = fresh_int('capacity')
    st.assume(z3.And(n >= 0, n < 2 ** 32))
    cap = z3.If(n >= 2 ** 31, n - 2 ** 32, n)
    out = []
    for s, k, val in ex.run_function(st, ex.get('cocpp::co_chan::co_chan'), [Ptr(o.id, 0), n]):
        if k != 'ret':
            raise Unsupported('the constructor throws')
        s.frames = []
        hit = [kd for kd, c in zip(KINDS, (cap < 0, cap == 0, cap > 0)) if ex.reachable(s, c)]
        out.append((hit, s, o, cap))
    return out


class Chan:
    pass


def setup(ex, P, kind):
    for hit, st, o, cap in construct(ex, P):
        if hit != [kind]:
            if kind in hit:
                raise Unsupported('one representation serves several kinds of channel')
            continue
        break
    else:
        raise Unsupported('no %s channel is constructed' % kind)
    h = Chan()
    h.kind, h.o, h.cap = kind, o, cap
    ld = lambda p, f: ex.resolve_sym(st, ex.load(st, ex.padd(p, P.off(f)), ('ptr',), ex.mods[0]))
    impl = ld(Ptr(o.id, 0), 'chan_impl')
    data, closed, mu = ld(impl, 'chan_data'), ld(impl, 'chan_closed'), ld(impl, 'chan_mu')
    ob = lambda p: st.objs[p.obj]
    c0 = st.mem[data.obj][data.off]
    z = ex.load(st, closed, ('int', 8), ex.mods[0])
    n0 = ex.load(st, ex.padd(impl, P.off('chan_count')), ('int', 64), ex.mods[0])
    ex.oblige(st, 'a new channel is open and empty', z3.And(zi(c0[1].lo) == zi(c0[1].hi), zi(z) == 0, zi(n0) == 0), where='constructor')
    size = lambda v: zi(v['data'].hi) - zi(v['data'].lo)
    h.size = size
    room = {'unbounded': lambda v: z3.IntVal(1), 'rendezvous': lambda v: 1 - size(v), 'bounded': lambda v: cap - size(v)}[kind]

    def inv(v):
        q = v['data']
        out = [('positions are ordered', z3.And(0 <= q.lo, q.lo <= q.hi, q.hi < TOP)),
               ('every value taken was counted', v['taken'] == q.lo)]
        if kind == 'bounded':
            out.append(('a bounded channel never holds more than its capacity', size(v) <= cap))
        if kind == 'rendezvous':
            out.append(('at most one value is offered at a time', size(v) <= 1))
        return out

    def guar(a, b, me):
        q, p = a['data'], b['data']
        i = z3.Int('i')
        keep = lambda lo, hi: z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), p.arr[i] == q.arr[i]), patterns=[p.arr[i]])
        return [('the content changes only by appending one value to an open channel with room, or by removing the oldest value',
                 z3.Or(same(q, p),
                       z3.And(p.lo == q.lo, p.hi == q.hi + 1, keep(q.lo, q.hi), z3.Not(a['closed']), room(a) > 0),
                       z3.And(q.lo < q.hi, p.lo == q.lo + 1, p.hi == q.hi, keep(p.lo, p.hi)))),
                ('a closed channel stays closed', z3.Implies(a['closed'], b['closed']))]

    def rely(a, b, me):
        q, p = a['data'], b['data']
        return [('a closed channel stays closed and takes no more values', z3.Implies(a['closed'], z3.And(b['closed'], p.hi == q.hi))),
                ('values are only appended and removed', z3.And(p.lo >= q.lo, p.hi >= q.hi))]
    cd = stl.codec_of(ex, 'long')
    m = Monitor('channel', ob(mu), mu.off, [
        Field('data', data.off, 80, 'deque', cd=cd, obj=ob(data)),
        Field('closed', closed.off, 1, 'bool', obj=ob(closed)),
        Field('taken', impl.off + P.off('chan_count'), 8, 'int', obj=ob(impl))], inv=inv, guar=guar, rely=rely, kind='mutex',
        cands=lambda: [('room for one more position', lambda v, me: v['data'].hi < TOP - 1)])

    def track(ex, st, a, b):
        q, p = a['data'], b['data']
        s1, g1 = zi(p.hi) > zi(q.hi), zi(p.lo) > zi(q.lo)
        g = st.ghost
        g['sent'] = simp(zi(g['sent']) + zi(p.hi) - zi(q.hi))
        g['sentval'] = simp(z3.If(s1, p.arr[zi(q.hi)], zi(g['sentval'])))
        g['sentpos'] = simp(z3.If(s1, zi(q.hi), zi(g['sentpos'])))
        g['got'] = simp(zi(g['got']) + zi(p.lo) - zi(q.lo))
        g['gotval'] = simp(z3.If(g1, q.arr[zi(q.lo)], zi(g['gotval'])))
    m.on_release = track
    st.ghost.update({'sent': 0, 'sentval': 0, 'sentpos': -1, 'got': 0, 'gotval': 0})

    def cands(ex, s0, cur, mod, depth):
        """what this call has done so far, whether or not others can already see it"""
        if m.key not in cur.ghost.get('held', ()):
            return []

        def so_far(s):
            t = s.fork()
            track(ex, t, t.ghost[('snap', 'channel')], m.view(ex, t))
            return t.ghost
        return [('%s so far' % k, lambda s, k=k: zi(so_far(s)[k]) == zi(so_far(s0)[k])) for k in ('sent', 'sentval', 'sentpos', 'got', 'gotval')]
    ex.loop_hook.append(cands)

    def cv(nm, f, **kw):
        p = ld(impl, f)
        c = Cv(nm, m, ob(p), p.off, **kw)
        c.install(ex, st)
    op = lambda v: v['closed']
    cv('receiving', 'chan_empty', units=size, open=op)
    if kind == 'unbounded':
        cv('sending', 'chan_full', may_wait=lambda v, ex, st: z3.BoolVal(False))
    else:
        cv('sending', 'chan_full', units=room, open=op)
    if kind == 'rendezvous':
        def offered(v, ex, st):
            pos = z3.If(zi(st.ghost['sent']) == 0, zi(v['data'].hi) - 1, zi(st.ghost['sentpos']))
            return zi(v['data'].lo) <= pos
        cv('the value being taken', 'chan_taken', gains=lambda v: zi(v['taken']), open=op, may_wait=offered)
    else:
        cv('the value being taken', 'chan_taken', may_wait=lambda v, ex, st: z3.BoolVal(False))
    m.install(ex, st)
    acq = m.acquire

    def acquire(ex, st):
        r = acq(ex, st)
        if r is None:
            st.assume(zi(m.view(ex, st)['data'].hi) < TOP - 1)
        return r
    m.acquire = acquire
    ex.assumptions.add('fewer than 2^62 values go through one channel')
    h.m, h.st = m, st
    return st, h


def opt(ex, s, val, ret):
    """(engaged, value) of an optional<long> returned by value"""
    if ret is not None:
        return (zb(ex.load(s, Ptr(ret.id, 8), ('int', 8), ex.mods[0])), ex.load(s, Ptr(ret.id, 0), ('int', 64), ex.mods[0]))
    if isinstance(val, list):
        return zb(simp(zi(val[1]) % 256)), val[0]
    raise Unsupported('optional returned as %r' % (val,))


def call(ex, st, name, args, sret_size=None, **kw):
    """runs a function that may return through memory; [(state, kind, value, return object)]"""
    fn = ex.get(name, **kw)
    ps = ex.funcs[fn].parse().params
    ret = None
    if len(ps) > len(args):
        ret = ex.new_obj(st, 'ret', sret_size, 'stack')
        args = [Ptr(ret.id, 0)] + args
    return [(s, k, v, ret) for s, k, v in ex.run_function(st, fn, args)]


def nothing_sent(ex, s, f):
    ex.oblige(s, '%s sends nothing' % f, zi(s.ghost['sent']) == 0, where='exit')


def nothing_taken(ex, s, f):
    ex.oblige(s, '%s receives nothing' % f, zi(s.ghost['got']) == 0, where='exit')


def sent_post(ex, s, h, ok, x, f):
    last = s.ghost[('last', 'channel')]
    nothing_taken(ex, s, f)
    ex.oblige(s, '%s succeeds exactly when it appended its value, once' % f,
              z3.If(ok, z3.And(zi(s.ghost['sent']) == 1, zi(s.ghost['sentval']) == x), zi(s.ghost['sent']) == 0), where='exit')
    ex.oblige(s, '%s fails only on a closed channel' % f, z3.Implies(z3.Not(ok), last['closed']), where='exit')
    if h.kind == 'rendezvous':
        ex.oblige(s, '%s on a rendezvous channel returns only after its value was taken, or the channel closed' % f,
                  z3.Implies(ok, z3.Or(last['closed'], last['data'].lo > zi(s.ghost['sentpos']))), where='exit')
    if h.kind == 'unbounded':
        ex.oblige(s, '%s on an unbounded channel does not wait' % f, zi(s.ghost['yields']) == 0, where='exit')


def got_post(ex, s, h, has, x, f):
    last = s.ghost[('last', 'channel')]
    nothing_sent(ex, s, f)
    ex.oblige(s, '%s gives exactly the value it removed' % f,
              z3.If(has, z3.And(zi(s.ghost['got']) == 1, zi(x) == zi(s.ghost['gotval'])), zi(s.ghost['got']) == 0), where='exit')
    ex.oblige(s, '%s gives nothing only when the channel is closed and drained' % f, z3.Implies(z3.Not(has), z3.And(last['closed'], h.size(last) == 0)), where='exit')


def prove_push(P, kind, op=None):
    name = op or 'co_chan::push'

    def body(ex):
        st, h = setup(ex, P, kind)
        x = fresh_arg(st, 'x')
        cov = {'sends': False, 'refuses': False}
        if kind != 'unbounded':
            cov['waits'] = False
        for s, k, val in ex.run_function(st, ex.get(USE.get(name, 'cocpp::' + name)), [Ptr(h.o.id, 0), x]):
            done(ex, s, name)
            ex.oblige(s, '%s does not throw' % name, k == 'ret', where='exit')
            if k != 'ret':
                continue
            if op == 'operator<<':
                ex.oblige(s, 'operator<< gives back the channel', ex.ptr_eq(s, val, Ptr(h.o.id, 0)), where='exit')
                ok = zi(s.ghost['sent']) > 0
            else:
                ok = zb(val)
            sent_post(ex, s, h, ok, x, name)
            cov['sends'] = cov['sends'] or ex.reachable(s, ok)
            cov['refuses'] = cov['refuses'] or ex.reachable(s, z3.Not(ok))
            if kind != 'unbounded':
                cov['waits'] = cov['waits'] or ex.reachable(s, zi(s.ghost['yields']) > 0)
        return cov
    return P.fn('%s (%s)' % (name, kind), body)


def prove_pop(P, kind):
    def body(ex):
        st, h = setup(ex, P, kind)
        cov = {'gives': False, 'closed': False, 'waits': False}
        for s, k, val, ret in call(ex, st, 'cocpp::co_chan::pop', [Ptr(h.o.id, 0)], 16):
            done(ex, s, 'pop')
            ex.oblige(s, 'pop does not throw', k == 'ret', where='exit')
            if k != 'ret':
                continue
            has, x = opt(ex, s, val, ret)
            got_post(ex, s, h, has, x, 'pop')
            cov['gives'] = cov['gives'] or ex.reachable(s, has)
            cov['closed'] = cov['closed'] or ex.reachable(s, z3.Not(has))
            cov['waits'] = cov['waits'] or ex.reachable(s, zi(s.ghost['yields']) > 0)
        return cov
    return P.fn('co_chan::pop (%s)' % kind, body)


def prove_recv_op(P, op):
    def body(ex):
        st, h = setup(ex, P, 'bounded')
        v = ex.new_obj(st, 'variable', 8, 'param')
        old = fresh_arg(st, 'old')
        st.cells(v.id, True)[0] = (8, old)
        cov = {'gives': False, 'closed': False}
        for s, k, val in ex.run_function(st, ex.get(USE[op]), [Ptr(h.o.id, 0), Ptr(v.id, 0)]):
            done(ex, s, op)
            x = ex.load(s, Ptr(v.id, 0), ('int', 64), ex.mods[0])
            if op == 'operator>>':
                has = z3.BoolVal(k == 'ret')
                if k == 'ret':
                    ex.oblige(s, 'operator>> gives back the channel', ex.ptr_eq(s, val, Ptr(h.o.id, 0)), where='exit')
            else:
                ex.oblige(s, '%s does not throw' % op, k == 'ret', where='exit')
                if k != 'ret':
                    continue
                has = zb(val)
            got_post(ex, s, h, has, x, op)
            ex.oblige(s, '%s leaves the variable alone when there is no value' % op, z3.Implies(z3.Not(has), zi(x) == old), where='exit')
            cov['gives'] = cov['gives'] or ex.reachable(s, has)
            cov['closed'] = cov['closed'] or ex.reachable(s, z3.Not(has))
        return cov
    return P.fn(op, body)


def prove_close(P, kind):
    def body(ex):
        st, h = setup(ex, P, kind)
        for s, k, val in ex.run_function(st, ex.get('cocpp::co_chan::close'), [Ptr(h.o.id, 0)]):
            done(ex, s, 'close')
            ex.oblige(s, 'close does not throw', k == 'ret', where='exit')
            nothing_sent(ex, s, 'close')
            nothing_taken(ex, s, 'close')
            ex.oblige(s, 'after close the channel is closed', s.ghost[('last', 'channel')]['closed'], where='exit')
        return {}
    return P.fn('co_chan::close (%s)' % kind, body)


def prove_query(P, kind, f):
    def body(ex):
        st, h = setup(ex, P, kind)
        for s, k, val in ex.run_function(st, ex.get('cocpp::co_chan::' + f), [Ptr(h.o.id, 0)]):
            done(ex, s, f)
            ex.oblige(s, '%s does not throw' % f, k == 'ret', where='exit')
            nothing_sent(ex, s, f)
            nothing_taken(ex, s, f)
            v = s.ghost[('last', 'channel')]
            if f == 'closed':
                g = zb(val) == v['closed']
            elif f == 'empty':
                g = zb(val) == (h.size(v) == 0)
            else:
                g = z3.If(h.cap < 0, zi(val) == 2 ** 32 - 1, zi(val) == h.cap)
            ex.oblige(s, '%s tells the truth' % f, g, where='exit')
        return {}
    return P.fn('co_chan::%s (%s)' % (f, kind), body)


# ---------------------------------------------------------------- iteration
def prove_advance(P, f):
    """begin() and operator++ take the next value; end() takes none"""
    def body(ex):
        st, h = setup(ex, P, 'bounded')
        it = ex.new_obj(st, 'iterator', P.size('iter'), 'param')
        cells = st.cells(it.id, True)
        cells[P.off('iter_ch')] = (8, Ptr(h.o.id, 0))
        cells[P.off('iter_value')] = (8, fresh_arg(st, 'old'))
        cells[P.off('iter_value') + 8] = (1, zi(fresh_bool('had')))
        this = Ptr(it.id, 0) if f == 'iterator::operator++' else Ptr(h.o.id, 0)
        cov = {'value': False, 'at the end': False} if f != 'end' else {}
        for s, k, val, ret in call(ex, st, 'cocpp::co_chan::' + f, [this], P.size('iter')):
            done(ex, s, f)
            ex.oblige(s, '%s does not throw' % f, k == 'ret', where='exit')
            if k != 'ret':
                continue
            if ret is None:
                raise Unsupported('iterator returned in registers')
            objs = [ret] + ([it] if f == 'iterator::operator++' else [])
            for r in objs:
                ld = lambda off, t: ex.load(s, Ptr(r.id, P.off(off[0]) + off[1]), t, ex.mods[0])
                has, x = zb(ld(('iter_value', 8), ('int', 8))), ld(('iter_value', 0), ('int', 64))
                if f == 'end':
                    ex.oblige(s, 'end() receives nothing', z3.And(z3.Not(has), zi(s.ghost['got']) == 0, zi(s.ghost['sent']) == 0), where='exit')
                    ex.oblige(s, 'end() belongs to no channel', ex.ptr_eq(s, ld(('iter_ch', 0), ('ptr',)), NULL), where='exit')
                    continue
                got_post(ex, s, h, has, x, f)
                ex.oblige(s, 'the iterator stays with its channel', ex.ptr_eq(s, ld(('iter_ch', 0), ('ptr',)), Ptr(h.o.id, 0)), where='exit')
                cov['value'] = cov['value'] or ex.reachable(s, has)
                cov['at the end'] = cov['at the end'] or ex.reachable(s, z3.Not(has))
        return cov
    return P.fn('co_chan::' + f, body)


def prove_differs(P):
    def body(ex):
        st, h = setup(ex, P, 'bounded')
        it = ex.new_obj(st, 'iterator', P.size('iter'), 'param')
        en = ex.new_obj(st, 'end', P.size('iter'), 'param')
        has = fresh_bool('has')
        last = st.ghost[('last', 'channel')]
        # an iterator without a value has seen its channel closed and drained
        st.assume(z3.Or(has, z3.And(last['closed'], h.size(last) == 0)))
        for o, p, b in ((it, Ptr(h.o.id, 0), has), (en, NULL, z3.BoolVal(False))):
            cells = st.cells(o.id, True)
            cells[P.off('iter_ch')] = (8, p)
            cells[P.off('iter_value')] = (8, fresh_arg(st, 'val'))
            cells[P.off('iter_value') + 8] = (1, simp(zi(b)))
        cov = {'at a value': False, 'at the end': False}
        for s, k, val in ex.run_function(st, ex.get('cocpp::co_chan::iterator::operator!='), [Ptr(it.id, 0), Ptr(en.id, 0)]):
            done(ex, s, 'operator!=')
            ex.oblige(s, 'comparing iterators does not throw', k == 'ret', where='exit')
            nothing_sent(ex, s, 'operator!=')
            nothing_taken(ex, s, 'operator!=')
            ex.oblige(s, 'an iterator differs from the end exactly while it has a value', zb(val) == has, where='exit')
            cov['at a value'] = cov['at a value'] or ex.reachable(s, has)
            cov['at the end'] = cov['at the end'] or ex.reachable(s, z3.Not(has))
        return cov
    return P.fn('co_chan::iterator::operator!=', body)


def prove_deref(P):
    def body(ex):
        st, h = setup(ex, P, 'bounded')
        it = ex.new_obj(st, 'iterator', P.size('iter'), 'param')
        x = fresh_arg(st, 'x')
        cells = st.cells(it.id, True)
        cells[P.off('iter_ch')] = (8, Ptr(h.o.id, 0))
        cells[P.off('iter_value')] = (8, x)
        cells[P.off('iter_value') + 8] = (1, 1)
        for f in ('operator*', 'operator->'):
            for s, k, val in ex.run_function(st, ex.get('cocpp::co_chan::iterator::' + f), [Ptr(it.id, 0)]):
                ex.oblige(s, '%s gives the value the iterator took' % f, ex.load(s, val, ('int', 64), ex.mods[0]) == x, where='exit')
                nothing_taken(ex, s, f)
        return {}
    return P.fn('co_chan::iterator::operator*', body)


def protocol(P):
    for kind in KINDS:
        msync.protocol(P, '%s channel' % kind, lambda ex: setup(ex, P, kind)[1].m)


def run(P):
    protocol(P)
    for kind in KINDS:
        prove_push(P, kind)
        prove_pop(P, kind)
        prove_close(P, kind)
        for f in ('closed', 'empty', 'max_size'):
            prove_query(P, kind, f)


def run_sync(P):
    protocol(P)
    prove_push(P, 'rendezvous')
    prove_pop(P, 'rendezvous')
    prove_close(P, 'rendezvous')


def run_ops(P):
    prove_advance(P, 'begin')
    prove_advance(P, 'end')
    prove_advance(P, 'iterator::operator++')
    prove_differs(P)
    prove_deref(P)
    prove_push(P, 'bounded', 'operator<')
    prove_push(P, 'bounded', 'operator<<')
    prove_recv_op(P, 'operator>')
    prove_recv_op(P, 'operator>>')
    prove_pop(P, 'bounded')
    prove_close(P, 'bounded')
