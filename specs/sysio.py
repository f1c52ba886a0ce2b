"""Contracts of the I/O wrappers and of the whole-buffer transfers.

System calls are contracts: any result, any error code.  Ghosts: 'io' what the last call reported (0 nothing yet
or not ready, 1 completed, 2 interrupted), 'io_ret' its result, 'io_wait' not ready and not yet yielded."""
import re
import z3
from values import *
import conc, stl, rt
from execu import Results, NOVAL, INLINE
from msync import fresh_arg

SRCS = ['io/co_io.cpp', 'io/co_net.cpp', 'io/co_file.cpp', 'io/co_client.cpp']
TUS = ['io.cpp']
EAGAIN, EINTR, EINPROGRESS = 11, 4, 115
F_GETFL, F_SETFL, O_NONBLOCK = 3, 4, 0o4000
SOL_SOCKET, SO_ERROR, POLLOUT = 1, 4, 4
M1 = 2 ** 32 - 1


def same(ex, st, a, b):
    if isinstance(a, (Ptr, Sym, Elem, It, Fn)) or isinstance(b, (Ptr, Sym, Elem, It, Fn)):
        return zb(ex.ptr_eq(st, a, b)) if not isinstance(a, (int, z3.ArithRef)) and not isinstance(b, (int, z3.ArithRef)) else ex.pterm(st, a) == ex.pterm(st, b)
    if b is not None and isinstance(a, M32):
        return zi(b) % 2 ** 32 == a.v
    return zi(a) == zi(b)


class M32:
    """an argument of which the system looks at 32 bits"""

    def __init__(self, v):
        self.v = v


def bit(v, m):
    return (zi(v) / m) % 2 == 1


def gave(s, v):
    r = zi(s.ghost['io_ret'])
    return z3.If(r < 0, z3.Or(zi(v) == M1, zi(v) == 2 ** 64 - 1), zi(v) == r)


def number(v):
    return is_num(v) or isinstance(v, z3.ArithRef)


def numbers(cur, mod, depth, want=number):
    import loops

    def val(s, l):
        v = loops.get(s, l, depth)
        return v[1] if v is not None and l[0] == 'cell' else v
    return [(l, val) for l in mod if want(val(cur, l))]


class Env:
    """the system as one operation sees it"""

    def __init__(self, ex, st, fd):
        self.ex, self.fd = ex, fd
        self.errno = ex.new_obj(st, 'errno', 4, 'global')
        self.clobber(st)
        st.ghost.update({'io': 0, 'io_ret': 0, 'io_wait': False, 'io_err': 0})
        H = ex.handlers
        H['__errno_location'] = lambda ex, st, c: Ptr(self.errno.id, 0)
        H['strerror'] = lambda ex, st, c: Sym(z3.Int('message'), 0, 'text')
        H['gettid'] = lambda ex, st, c: 1
        H['cocpp::co_env::schedule_switch'] = self.h_yield
        ex.loop_hook.append(self.cands)

    def clobber(self, st):
        e = fresh_int('errno')
        st.assume(z3.And(e >= 0, e < 2 ** 31))
        st.cells(self.errno.id, True)[0] = (4, e)
        return e

    def h_yield(self, ex, st, c):
        st.ghost['io_wait'] = False
        self.clobber(st)      # others run meanwhile
        st.ghost['yields'] = simp(zi(st.ghost['yields']) + 1)

    def result(self, st, bits=32, hi=2 ** 31 - 1):
        """-1 with an error code, or a non-negative number"""
        r, e = fresh_int('result'), fresh_int('errno')
        st.assume(z3.And(r >= -1, r <= hi, e > 0, e < 4096))
        old = st.cells(self.errno.id)[0][1]
        st.cells(self.errno.id, True)[0] = (4, simp(z3.If(r == -1, e, zi(old))))
        return r, e, simp(z3.If(r < 0, r + 2 ** bits, r))

    def asked(self, ex, st, want, got, name):
        ex.oblige(st, 'no system call follows the one that completed the operation', zi(st.ghost['io']) != 1)
        ex.oblige(st, 'the coroutine yields before it asks again for what was not ready', z3.Not(zb(st.ghost['io_wait'])))
        ok = len(got) == len(want)
        g = z3.And([same(ex, st, a, b) for a, b in zip(want, got)]) if ok else z3.BoolVal(False)
        ex.oblige(st, 'system call %s gets the descriptor and the arguments of the caller' % name, g)

    def call(self, name, want, retry, bits=32, hi=2 ** 31 - 1, effect=None):
        def h(ex, st, c):
            self.asked(ex, st, want, c.args, name)
            r, e, v = self.result(st, bits, hi)
            st.ghost['io_ret'], st.ghost['io_err'] = r, e
            if retry:
                nr = z3.And(r == -1, e == EAGAIN)
                st.ghost['io'] = simp(z3.If(nr, 0, z3.If(z3.And(r == -1, e == EINTR), 2, 1)))
                st.ghost['io_wait'] = simp(nr)
            else:
                st.ghost['io'] = 1
            if effect:
                effect(ex, st, r, e)
            return v
        self.ex.handlers[name] = h

    def flags(self, st, target):
        """fcntl on the status flags of descriptor target(st)"""
        f = fresh_int('flags')
        st.assume(z3.And(f >= 0, f < 2 ** 31))
        st.ghost.update({'fl': f, 'fl0': f, 'fl_failed': False})

        def h(ex, st, c):
            fd, cmd = c.args[0], simp(c.args[1])
            ex.oblige(st, 'the flags are those of the new descriptor', zi(fd) == target(st))
            s2 = st.fork()
            for s in (st, s2):
                s.ghost['fl_calls'] = 1
            s2.ghost['fl_failed'] = True
            self.result(s2)
            self.clobber(s2)
            if cmd == F_GETFL:
                return Results([(st, st.ghost['fl']), (s2, M1)])
            if cmd == F_SETFL:
                a = c.args[2]
                st.ghost['fl'] = simp(zi(a))
                return Results([(st, 0), (s2, M1)])
            raise Unsupported('fcntl %s' % cmd)
        self.ex.handlers['fcntl'] = h
        self.ex.handlers['fcntl64'] = h

    def cands(self, ex, s0, cur, mod, depth):
        out = [('operation not completed yet', lambda s: zi(s.ghost['io']) != 1),
               ('nothing owed before asking again', lambda s: z3.Not(zb(s.ghost['io_wait'])))]
        # a loop that looks at the result at its head
        again = lambda s, c: z3.And(zi(s.ghost['io_ret']) == -1, zi(s.ghost['io_err']) == c)
        out += [('the state is that of the last call', lambda s: zi(s.ghost['io']) == z3.If(again(s, EAGAIN), 0, z3.If(again(s, EINTR), 2, 1))),
                ('not ready is owed a yield', lambda s: zb(s.ghost['io_wait']) == again(s, EAGAIN)),
                ('results are -1 or a number', lambda s: z3.And(zi(s.ghost['io_ret']) >= -1, zi(s.ghost['io_ret']) < 2 ** 63)),
                ('results fit an int', lambda s: zi(s.ghost['io_ret']) < 2 ** 31),
                ('the error code is that of the last call', lambda s: z3.Implies(zi(s.ghost['io_ret']) == -1, self.code(s) == zi(s.ghost['io_err'])))]
        for l, val in numbers(cur, mod, depth):
            for bits in (32, 64):
                def last(s, l=l, val=val, bits=bits):
                    v, r = val(s, l), zi(s.ghost['io_ret'])
                    return zi(v) == z3.If(r < 0, r + 2 ** bits, r) if number(v) else None
                out.append(('the last result', last))
        return out

    def code(self, s):
        return zi(s.cells(self.errno.id)[0][1])

    def nonblocking(self, s):
        return z3.And(bit(s.ghost['fl'], O_NONBLOCK), zi(s.ghost['fl']) - O_NONBLOCK * ((zi(s.ghost['fl']) / O_NONBLOCK) % 2) ==
                      zi(s.ghost['fl0']) - O_NONBLOCK * ((zi(s.ghost['fl0']) / O_NONBLOCK) % 2))


def begin(ex, P, what='io'):
    st = conc.initial(ex)
    opaque_text(ex)
    o = ex.new_obj(st, 'descriptor object', P.size('net'), 'param')
    fd = fresh_arg(st, 'fd', 0, 2 ** 31 - 1)
    st.cells(o.id, True)[P.off('io_fd')] = (4, fd)
    return st, o, fd, Env(ex, st, fd)


def opaque_text(ex):
    """strings and error payloads carry messages only"""
    nop = lambda ex, st, c: None
    this = lambda ex, st, c: c.args[0]
    ex.patterns.append((re.compile(r'std::(__cxx11::)?basic_string::(~?basic_string|reserve|clear|append)$'), nop))
    ex.patterns.append((re.compile(r'std::(__cxx11::)?basic_string::operator\+?=$'), this))
    ex.patterns.append((re.compile(r'std::any::~?any$'), nop))
    ex.patterns.append((re.compile(r'std::any::operator=$'), this))
    ex.patterns.append((re.compile(r'std::allocator::~?allocator$'), nop))


def ptr_arg(st, nm):
    t = fresh_int(nm)
    st.assume(z3.And(t >= 0, t < 2 ** 47))
    return Sym(t, 0, nm)


def wrapper(P, cls, fname, params, retry, bits=32, hi=2 ** 31 - 1, sysname=None, extra=None):
    """a method that performs one system call on its own descriptor"""
    def body(ex):
        st, o, fd, env = begin(ex, P)
        av = []
        for nm, k in params:
            av.append(ptr_arg(st, nm) if k == 'ptr' else fresh_arg(st, nm, 0, 2 ** k - 1))
        if extra == 'varargs':
            # x86-64: the first variadic argument follows in the register save area
            def va_start(ex, st, c):
                n = 8 * (1 + len(params) - 1)
                sa = ex.new_obj(st, 'register save area', 176, 'stack')
                st.cells(sa.id, True)[n] = (8, av[-1])
                st.cells(c.args[0].obj, True).update({c.args[0].off: (4, n), c.args[0].off + 4: (4, 48), c.args[0].off + 16: (8, Ptr(sa.id, 0)),
                                                      c.args[0].off + 8: (8, Ptr(sa.id, 176))})
            ex.handlers['llvm.va_start'] = va_start
        env.call(sysname or fname, [fd] + ([M32(av[0])] + av[1:] if fname == 'ioctl' else av), retry, bits, hi)
        cov = {'completes': False}
        if retry:
            cov['after waiting'] = False
        args = av[:-1] if extra == 'varargs' else av
        for s, k, v in ex.run_function(st, ex.get('cocpp::%s::%s' % (cls, fname)), [Ptr(o.id, 0)] + args):
            ex.oblige(s, '%s does not throw' % fname, k == 'ret', where='exit')
            if k != 'ret':
                continue
            ex.oblige(s, '%s returns only what a completed system call gave, never "not ready"' % fname,
                      z3.And(zi(s.ghost['io']) != 0, gave(s, v)), where='exit')
            if fname == 'close':
                now = s.mem[o.id][P.off('io_fd')][1]
                ex.oblige(s, 'a closed descriptor is forgotten, otherwise it is kept',
                          zi(now) == z3.If(zi(v) == 0, M1, fd), where='exit')
            else:
                ex.oblige(s, '%s keeps the descriptor' % fname, zi(s.mem[o.id][P.off('io_fd')][1]) == fd, where='exit')
            cov['completes'] = cov['completes'] or ex.reachable(s, zi(s.ghost['io_ret']) >= 0)
            if retry:
                cov['after waiting'] = cov['after waiting'] or ex.reachable(s, zi(s.ghost['yields']) > 0)
        return cov
    return P.fn('%s::%s' % (cls, fname), body)


def init_fd(P):
    def body(ex):
        st, o, fd0, env = begin(ex, P)
        fd = fresh_arg(st, 'newfd', 0, 2 ** 31 - 1)
        env.flags(st, lambda s: fd)
        cov = {'adopts': False, 'fails': False}
        for s, k, v in ex.run_function(st, ex.get('cocpp::co_io::init_fd'), [Ptr(o.id, 0), fd]):
            ex.oblige(s, 'init_fd does not throw', k == 'ret', where='exit')
            now = s.mem[o.id][P.off('io_fd')][1]
            ex.oblige(s, 'an adopted descriptor is in non-blocking mode, its other flags as before',
                      z3.Implies(zi(v) == 0, z3.And(zi(now) == fd, env.nonblocking(s))), where='exit')
            ex.oblige(s, 'adopting fails exactly if the system refused', z3.And(z3.Or(zi(v) == 0, zi(v) == M1), (zi(v) == 0) == z3.Not(zb(s.ghost['fl_failed']))), where='exit')
            cov['adopts'] = cov['adopts'] or ex.reachable(s, zi(v) == 0)
            cov['fails'] = cov['fails'] or ex.reachable(s, zi(v) != 0)
        return cov
    return P.fn('co_io::init_fd', body)


def maker(P, cls, fname, params, sysname, retry, opt, member):
    """a function that obtains a new descriptor and wraps it"""
    def body(ex):
        st, o, fd, env = begin(ex, P)
        av = [ptr_arg(st, nm) if k == 'ptr' else fresh_arg(st, nm, 0, 2 ** k - 1) for nm, k in params]

        def effect(ex, st, r, e):
            st.ghost['newfd'] = r
        env.call(sysname, ([fd] if member else []) + av, retry, effect=effect)
        if sysname == 'open':
            # the mode bits apart from O_NONBLOCK are the caller's
            def opener(ex, st, c):
                got = list(c.args)
                strip = lambda f: zi(f) - O_NONBLOCK * ((zi(f) / O_NONBLOCK) % 2)
                env.asked(ex, st, [av[0], strip(av[1]), av[2]], [got[0], strip(got[1]), got[2]], 'open')
                r, e, v = env.result(st)
                st.ghost['io_ret'], st.ghost['io'] = r, 1
                st.ghost['newfd'] = r
                st.assume(bit(st.ghost['fl0'], O_NONBLOCK) == bit(got[1], O_NONBLOCK))
                return v
            ex.handlers['open'] = ex.handlers['open64'] = opener
        if sysname == 'accept':
            h = ex.handlers['accept']
            ex.handlers['accept4'] = lambda ex, st, c: Unsupported('accept4')
        st.ghost['newfd'] = -1
        env.flags(st, lambda s: zi(s.ghost['newfd']))
        r = ex.new_obj(st, 'result', P.size(opt), 'param')
        cov = {'gives': False, 'fails': False}
        for s, k, v in ex.run_function(st, ex.get('cocpp::%s::%s' % (cls, fname)), [Ptr(r.id, 0)] + ([Ptr(o.id, 0)] if member else []) + av):
            ex.oblige(s, '%s does not throw' % fname, k == 'ret', where='exit')
            if k != 'ret':
                continue
            M = ex.mods[0]
            has = zb(ex.load(s, Ptr(r.id, P.off(opt + '_set')), ('int', 8), M))
            ex.oblige(s, '%s asks the system until it has an answer' % fname, zi(s.ghost['io']) != 0, where='exit')
            got = zi(s.ghost['newfd']) >= 0
            hs = simp(has)
            ex.oblige(s, '%s gives nothing when the system gave no descriptor' % fname, z3.Implies(z3.Not(got), z3.Not(has)), where='exit')
            ex.oblige(s, '%s gives the descriptor the system gave' % fname, z3.Implies(z3.And(got, z3.Not(zb(s.ghost['fl_failed']))), has), where='exit')
            if hs is True:
                now = ex.load(s, Ptr(r.id, P.off('net_fd')), ('int', 32), M)
                ex.oblige(s, 'the new descriptor is the one the system gave and is in non-blocking mode',
                          z3.Implies(z3.Not(zb(s.ghost['fl_failed'])), z3.And(zi(now) == zi(s.ghost['newfd']), env.nonblocking(s))), where='exit')
                ex.oblige(s, 'a descriptor that could not be made non-blocking is not handed out',
                          z3.Implies(zb(s.ghost['fl_failed']), zi(now) == M1), where='exit')
                cov['gives'] = cov['gives'] or ex.reachable(s, z3.Not(zb(s.ghost['fl_failed'])))
            else:
                cov['fails'] = cov['fails'] or ex.reachable(s, z3.Not(has))
        return cov
    return P.fn('%s::%s' % (cls, fname), body)


def connect(P):
    """ghost 'conn': 0 not asked, 1 pending, 2 established, 3 failed"""
    def body(ex):
        st, o, fd, env = begin(ex, P)
        addr, n = ptr_arg(st, 'addr'), fresh_arg(st, 'addrlen', 0, 2 ** 32 - 1)
        st.ghost.update({'conn': 0, 'hard': False, 'so_err': 0})
        outcome = fresh_int('outcome')           # 0, or the error the attempt ends with
        st.assume(z3.And(outcome >= 0, outcome < 4096))

        def h_connect(ex, st, c):
            ex.oblige(st, 'the connection is attempted once', zi(st.ghost['conn']) == 0)
            env.asked(ex, st, [fd, addr, n], c.args, 'connect')
            r, e, v = env.result(st, hi=0)
            st.ghost['conn'] = simp(z3.If(r == 0, 2, z3.If(e == EINPROGRESS, 1, 3)))
            st.ghost['io_wait'] = False
            return v

        def ready(ex, st, r):
            st.ghost['conn'] = simp(z3.If(z3.And(zi(st.ghost['conn']) == 1, r > 0), z3.If(outcome == 0, 2, 3), zi(st.ghost['conn'])))

        def h_poll(ex, st, c):
            p = ex.resolve_sym(st, c.args[0])
            M = ex.mods[0]
            ex.oblige(st, 'the coroutine yields before it asks again for what was not ready', z3.Not(zb(st.ghost['io_wait'])))
            ex.oblige(st, 'the wait is for this descriptor to become writable',
                      z3.And(zi(c.args[1]) == 1, zi(ex.load(st, p, ('int', 32), M)) == fd, bit(ex.load(st, ex.padd(p, 4), ('int', 16), M), POLLOUT)))
            r, e, v = env.result(st, hi=1)
            ev = fresh_arg(st, 'revents', 0, 2 ** 16 - 1)
            st.assume((ev != 0) == (r == 1))
            ex.store(st, ex.padd(p, 6), ev, ('int', 16), M)
            ready(ex, st, r)
            nr = z3.Or(r == 0, z3.And(r == -1, e == EINTR))
            st.ghost['io_wait'] = simp(nr)
            st.ghost['hard'] = simp(z3.Or(zb(st.ghost['hard']), z3.And(r == -1, e != EINTR)))
            return v

        def h_getsockopt(ex, st, c):
            ex.oblige(st, 'the result of the attempt is asked of this socket',
                      z3.And(zi(c.args[0]) == fd, zi(c.args[1]) == SOL_SOCKET, zi(c.args[2]) == SO_ERROR))
            s2 = st.fork()
            r, e, v = env.result(s2)
            s2.assume(r == -1)
            s2.ghost['hard'] = True
            # the pending error: nothing yet while the attempt is under way
            ex.store(st, c.args[3], simp(z3.If(zi(st.ghost['conn']) == 3, outcome, 0)), ('int', 32), ex.mods[0])
            return Results([(st, 0), (s2, M1)])
        ex.handlers.update({'connect': h_connect, 'poll': h_poll, 'getsockopt': h_getsockopt})
        ex.loop_hook.append(lambda ex, s0, cur, mod, depth: [
            ('attempt under way', lambda s: zi(s.ghost['conn']) == 1), ('no hard error', lambda s: z3.Not(zb(s.ghost['hard'])))])
        cov = {'at once': False, 'later': False, 'refused': False, 'refused later': False}
        for s, k, v in ex.run_function(st, ex.get('cocpp::co_net::connect'), [Ptr(o.id, 0), addr, n]):
            ex.oblige(s, 'connect does not throw', k == 'ret', where='exit')
            if k != 'ret':
                continue
            cn = zi(s.ghost['conn'])
            ex.oblige(s, 'connect reports success only if the connection was established', z3.Implies(zi(v) == 0, cn == 2), where='exit')
            ex.oblige(s, 'connect reports an established connection as success, unless the system failed to say so',
                      z3.Implies(z3.And(cn == 2, z3.Not(zb(s.ghost['hard']))), zi(v) == 0), where='exit')
            ex.oblige(s, 'connect does not give up on an attempt under way', z3.Or(cn >= 2, zb(s.ghost['hard'])), where='exit')
            ex.oblige(s, 'connect reports failure as -1', z3.Or(zi(v) == 0, zi(v) == M1), where='exit')
            y = zi(s.ghost['yields']) > 0
            for nm, c in (('at once', z3.And(zi(v) == 0, z3.Not(y))), ('later', z3.And(zi(v) == 0, y)), ('refused', z3.And(zi(v) == M1, cn == 3, z3.Not(y))),
                          ('refused later', z3.And(zi(v) == M1, cn == 3, y))):
                cov[nm] = cov[nm] or ex.reachable(s, c)
        return cov
    return P.fn('co_net::connect', body)


def run(P):
    init_fd(P)
    p = 'ptr'
    wrapper(P, 'co_io', 'read', [('buf', p), ('count', 64)], True, bits=64)
    wrapper(P, 'co_io', 'write', [('buf', p), ('count', 64)], True, bits=64)
    wrapper(P, 'co_io', 'close', [], False, hi=0)
    wrapper(P, 'co_io', 'lseek', [('offset', 64), ('whence', 32)], False, bits=64, hi=2 ** 63 - 1)
    wrapper(P, 'co_io', 'fchmod', [('mode', 32)], False)
    wrapper(P, 'co_io', 'fchown', [('owner', 32), ('group', 32)], False)
    wrapper(P, 'co_io', 'fcntl', [('cmd', 32), ('arg', p)], False, extra='varargs')
    wrapper(P, 'co_io', 'ioctl', [('cmd', 32), ('arg', p)], False, extra='varargs')
    wrapper(P, 'co_io', 'ftruncate', [('length', 64)], False)
    wrapper(P, 'co_io', 'fstat', [('st', p)], False)
    wrapper(P, 'co_io', 'fsync', [], False)
    wrapper(P, 'co_io', 'fdatasync', [], False)
    wrapper(P, 'co_net', 'listen', [('backlog', 32)], False)
    wrapper(P, 'co_net', 'bind', [('addr', p), ('addrlen', 32)], False)
    wrapper(P, 'co_net', 'send', [('buf', p), ('len', 64), ('flags', 32)], True, bits=64)
    wrapper(P, 'co_net', 'sendto', [('buf', p), ('len', 64), ('flags', 32), ('dest', p), ('addrlen', 32)], True, bits=64)
    wrapper(P, 'co_net', 'recv', [('buf', p), ('len', 64), ('flags', 32)], True, bits=64)
    wrapper(P, 'co_net', 'recvfrom', [('buf', p), ('len', 64), ('flags', 32), ('src', p), ('addrlen', p)], True, bits=64)
    wrapper(P, 'co_net', 'getsockopt', [('level', 32), ('optname', 32), ('optval', p), ('optlen', p)], False)
    wrapper(P, 'co_net', 'setsockopt', [('level', 32), ('optname', 32), ('optval', p), ('optlen', 32)], False)
    wrapper(P, 'co_net', 'shutdown', [('how', 32)], False)
    wrapper(P, 'co_net', 'sendmsg', [('msg', p), ('flags', 32)], True, bits=64)
    wrapper(P, 'co_net', 'recvmsg', [('msg', p), ('flags', 32)], True, bits=64)
    maker(P, 'co_net', 'socket', [('domain', 32), ('type', 32), ('protocol', 32)], 'socket', False, 'optnet', False)
    maker(P, 'co_net', 'accept', [('addr', p), ('addrlen', p)], 'accept', True, 'optnet', True)
    maker(P, 'co_file', 'open', [('pathname', p), ('flags', 32), ('mode', 32)], 'open', False, 'optfile', False)
    connect(P)


# ---- whole-buffer transfers ----
def client(P, cls, what, fname, single=False):
    """over the contract of co_io::read / co_io::write: -1, or at most the count asked for have been moved"""
    def body(ex):
        st = conc.initial(ex)
        opaque_text(ex)
        o = ex.new_obj(st, 'client', P.size('client'), 'param')
        env = Env(ex, st, None)
        t, n = fresh_int('data'), fresh_arg(st, 'size', 0, 2 ** 40)
        st.assume(z3.And(t >= 4096, t + n < 2 ** 47))
        b = ex.new_obj(st, 'buffer', 24, 'param')
        for q in [q for q in ex.handlers if q.startswith('std::vector::')]:
            del ex.handlers[q]           # the real code of the byte vector
        data = Sym(t, 0, 'bytes')
        for off, v in ((0, data), (8, Sym(simp(t + n), 0, 'bytes')), (16, Sym(simp(t + n), 0, 'bytes'))):
            st.cells(b.id, True)[off] = (8, v)
        st.ghost.update({'moved': 0, 'bad': False, 'eof': False, 'last': 0})
        end = Ptr(o.id, P.off('client_endpoint'))

        def h(ex, st, c):
            ex.oblige(st, 'the transfer is on the endpoint', same(ex, st, end, c.args[0]))
            ex.oblige(st, 'nothing is transferred after an error or the end of the data', z3.Not(z3.Or(zb(st.ghost['bad']), zb(st.ghost['eof']))))
            ex.oblige(st, 'each transfer starts where the one before ended', ex.pterm(st, c.args[1]) == t + zi(st.ghost['moved']))
            ex.oblige(st, 'no more is asked for than is missing', z3.And(zi(c.args[2]) <= n - zi(st.ghost['moved']), zi(c.args[2]) > 0 if not single else zi(c.args[2]) == n))
            r = fresh_int('count')
            st.assume(z3.And(r >= -1, r <= zi(c.args[2]), r < 2 ** 31))
            env.clobber(st)
            st.ghost['moved'] = simp(zi(st.ghost['moved']) + z3.If(r > 0, r, 0))
            st.ghost['bad'] = simp(r < 0)
            st.ghost['eof'] = simp(r == 0) if what == 'read' else False
            st.ghost['last'] = simp(z3.If(r < 0, r + 2 ** 64, r))
            return simp(z3.If(r < 0, r + 2 ** 32, r))
        ex.handlers['cocpp::co_io::' + what] = h
        ex.loop_hook.append(lambda ex, s0, cur, mod, depth: [
            ('no error yet', lambda s: z3.Not(z3.Or(zb(s.ghost['bad']), zb(s.ghost['eof'])))),
            ('not beyond the buffer', lambda s: z3.And(zi(s.ghost['moved']) >= 0, zi(s.ghost['moved']) <= n))] + [
            ('the place to continue', lambda s, l=l, val=val: ex.pterm(s, val(s, l)) == t + zi(s.ghost['moved']) if isinstance(val(s, l), (Ptr, Sym)) else None)
            for l, val in numbers(cur, mod, depth, lambda v: isinstance(v, (Ptr, Sym)))])
        r = ex.new_obj(st, 'result', P.size('error') + 16, 'param')
        M = ex.mods[0]
        cov = {'done': False, 'error': False}
        for s, k, v in ex.run_function(st, ex.get('cocpp::%s::%s' % (cls, fname)), [Ptr(r.id, 0), Ptr(o.id, 0), Ptr(b.id, 0)]):
            ex.oblige(s, '%s does not throw' % fname, k == 'ret', where='exit')
            if k != 'ret':
                continue
            off = 0
            if single:
                # tuple<size_t, co_error>: the elements are stored in reverse
                off = 0
                cnt = ex.load(s, Ptr(r.id, P.size('error')), ('int', 64), M)
                ex.oblige(s, '%s reports the count of its one transfer' % fname, z3.And(zi(cnt) == zi(s.ghost['last'])), where='exit')
            code = ex.load(s, Ptr(r.id, off + P.off('error_code')), ('int', 32), M)
            okc = zi(code) == 0
            if single:
                ex.oblige(s, '%s reports an error exactly if the transfer failed' % fname, okc == z3.Not(zb(s.ghost['bad'])), where='exit')
            else:
                ex.oblige(s, '%s succeeds only after every byte was transferred' % fname, z3.Implies(okc, zi(s.ghost['moved']) == n), where='exit')
                ex.oblige(s, '%s fails only if a transfer failed or the data ended' % fname,
                          z3.Implies(z3.Not(okc), z3.Or(zb(s.ghost['bad']), zb(s.ghost['eof']))), where='exit')
                ex.oblige(s, '%s reports the failure of a transfer' % fname, z3.Implies(zb(s.ghost['bad']), z3.Not(okc)), where='exit')
            cov['done'] = cov['done'] or ex.reachable(s, z3.And(okc, n > 5))
            cov['error'] = cov['error'] or ex.reachable(s, z3.Not(okc))
        return cov
    return P.fn('%s::%s' % (cls, fname), body)


def run_client(P):
    client(P, 'co_client', 'read', 'read_n')
    client(P, 'co_client', 'write', 'write_n')
    client(P, 'co_client', 'read', 'read', True)
    client(P, 'co_client', 'write', 'write', True)
