"""Language runtime: allocation, exceptions, clocks (trusted contracts)."""
import z3
from values import *
from execu import INLINE, END, Results, Throw, Exc, NOVAL
from llparse import demangle


def h_new(ex, st, c):
    n = simp(c.args[0])
    o = ex.new_obj(st, 'new', n if is_num(n) else 0x80000, 'heap')
    ex.assumptions.add('operator new does not fail')
    return Ptr(o.id, 0)


def h_delete(ex, st, c):
    st.ghost = dict(st.ghost)
    return None


def h_alloc_exc(ex, st, c):
    o = ex.new_obj(st, 'exc', simp(c.args[0]) if is_num(simp(c.args[0])) else 64, 'heap')
    return Ptr(o.id, 0)


def h_throw(ex, st, c):
    ti = ex.global_of(st, c.args[1])
    return Throw(Exc(ti, c.args[0]))


def h_begin_catch(ex, st, c):
    p = c.args[0]
    st.exc_stack = st.exc_stack + (st.ghost['exc:%d' % p.obj],)
    return p


def h_end_catch(ex, st, c):
    st.exc_stack = st.exc_stack[:-1]
    return None


def h_rethrow(ex, st, c):
    return Throw(st.exc_stack[-1])


def h_get_exc_ptr(ex, st, c):
    return c.args[0]


def h_nop(ex, st, c):
    return None


def h_end(ex, st, c):
    return END


def h_exc_ctor(ex, st, c):
    return None


def h_terminate(ex, st, c):
    ex.oblige(st, 'the program is not terminated by an escaping exception', False)
    return END


def h_std_throw(ti):
    def f(ex, st, c):
        return Throw(Exc(ti))
    return f


def h_now(ex, st, c):
    """steady_clock::now: nanoseconds, never decreasing"""
    last = st.ghost.get('clock')
    t = fresh_int('now')
    st.assume(z3.And(t >= (last if last is not None else 0), t < 2 ** 62))
    st.ghost['clock'] = t
    from stl import this_ret
    sret, a = this_ret(c)
    if sret is not None:
        ex.store(st, sret, t, ('int', 64), ex.mods[0])
        return None
    return t


def h_addressof(ex, st, c):
    return c.args[0]


def h_cxa_guard_acquire(ex, st, c):
    """static local initialisation: either already done or done now"""
    s2 = st.fork()
    return Results([(st, 0), (s2, 1)])


def h_memcpy(ex, st, c):
    ex.memcpy(st, c.args[0], c.args[1], c.args[2])
    return c.args[0]


def h_typeinfo_eq(ex, st, c):
    a, b = c.args
    ga, gb = ex.global_of(st, a), ex.global_of(st, b)
    if ga and gb:
        return ga == gb
    raise Unsupported('type_info comparison')


def h_current_exception(ex, st, c):
    from stl import this_ret
    sret, a = this_ret(c)
    dst = sret if sret is not None else a[0]
    v = NULL
    if st.exc_stack:
        e = st.exc_stack[-1]
        o = next((k for k, x in st.ghost.items() if isinstance(k, str) and k.startswith('exc:') and x is e), None)
        if o is None:
            raise Unsupported('the exception being handled')
        v = Ptr(int(o[4:]), 0)
    ex.store(st, dst, v, ('ptr',), ex.mods[0])
    return None


def h_rethrow_exception(ex, st, c):
    p = ex.resolve_sym(st, ex.load(st, c.args[0], ('ptr',), ex.mods[0]))
    if isinstance(p, Ptr) and 'exc:%d' % p.obj in st.ghost:
        return Throw(st.ghost['exc:%d' % p.obj])
    if ex.stored_exception is not None:
        return ex.stored_exception(ex, st, p)
    raise Unsupported('rethrowing an unknown exception')


def install(ex):
    H = ex.handlers
    ex.stored_exception = None
    H['std::current_exception'] = h_current_exception
    H['std::rethrow_exception'] = h_rethrow_exception
    for n in ('_M_addref', '_M_release'):
        H['std::__exception_ptr::exception_ptr::' + n] = h_nop
    for n in ('operator new', 'operator new[]'):
        H[n] = h_new
    for n in ('operator delete', 'operator delete[]'):
        H[n] = h_delete
    H['__cxa_allocate_exception'] = h_alloc_exc
    H['__cxa_free_exception'] = h_nop
    H['__cxa_throw'] = h_throw
    H['__cxa_begin_catch'] = h_begin_catch
    H['__cxa_end_catch'] = h_end_catch
    H['__cxa_rethrow'] = h_rethrow
    H['__cxa_get_exception_ptr'] = h_get_exc_ptr
    H['__cxa_guard_release'] = h_nop
    H['__cxa_guard_abort'] = h_nop
    H['__cxa_guard_acquire'] = h_cxa_guard_acquire
    H['__cxa_atexit'] = lambda ex, st, c: 0
    H['__clang_call_terminate'] = h_terminate
    H['std::terminate'] = h_terminate
    H['abort'] = h_end
    for e in ('logic_error', 'runtime_error', 'length_error', 'out_of_range', 'invalid_argument', 'bad_optional_access', 'bad_cast', 'exception'):
        H['std::%s::%s' % (e, e)] = h_exc_ctor
        H['std::%s::~%s' % (e, e)] = h_nop
    H['std::__throw_bad_function_call'] = h_std_throw('_ZTISt17bad_function_call')
    H['std::__throw_length_error'] = h_std_throw('_ZTISt12length_error')
    H['std::__throw_out_of_range_fmt'] = h_std_throw('_ZTISt12out_of_range')
    H['std::__throw_bad_optional_access'] = h_std_throw('_ZTISt19bad_optional_access')
    H['std::__throw_system_error'] = h_std_throw('_ZTISt12system_error')
    H['std::chrono::_V2::steady_clock::now'] = h_now
    H['std::chrono::steady_clock::now'] = h_now
    H['memcpy'] = h_memcpy
    H['memmove'] = h_memcpy
    H['std::type_info::operator=='] = h_typeinfo_eq
