"""Contracts of a coroutine's run state: the waiting mark, the set of resources it waits for, and its life state.

F: the flags under the flag lock; W: the set of resources under the wait lock; S: the life state under its lock.
Whenever W is free the waiting mark is set exactly if the set of resources is not empty; only the holder of W changes
the mark."""
import re
import z3
from values import *
import conc, oslock, stl
from conc import Monitor, Field
from execu import Results, NOVAL, END, INLINE
from llparse import demangle

SRCS = ['core/co_ctx.cpp', 'core/co_env.cpp']
TUS = ['core.cpp']


class FlagMon(Monitor):
    """the waiting mark cannot change while this thread holds the wait lock"""
    wait = None

    def arrive(self, ex, st, v=None):
        v = v or self.view(ex, st)
        if self.wait is not None and self.wait.held(st):
            st.assume(v['flags'].bit(self.WAITING) == st.ghost[('last', self.name)]['flags'].bit(self.WAITING))
        return Monitor.arrive(self, ex, st, v)

    def release(self, ex, st, what='release'):
        if self.held(st):
            a, b = st.ghost[('snap', self.name)]['flags'], self.view(ex, st)['flags']
            if not self.wait.held(st):
                ex.oblige(st, 'the waiting mark changes only together with the set of resources', a.bit(self.WAITING) == b.bit(self.WAITING))
        return Monitor.release(self, ex, st, what)


class WaitMon(Monitor):
    def marked(self, st):
        return st.ghost[('last', self.flags.name)]['flags'].bit(self.flags.WAITING)

    def acquire(self, ex, st):
        r = Monitor.acquire(self, ex, st)
        if r is END:
            return r
        # others may have changed mark and set together since
        st.ghost[('last', self.flags.name)] = self.flags.fresh_view(ex, st)
        st.assume(self.marked(st) == z3.Not(st.ghost[('snap', self.name)]['set'].empty()))
        return r

    def release(self, ex, st, what='release'):
        if self.held(st):
            a, b = st.ghost[('snap', self.name)]['set'], self.view(ex, st)['set']
            ex.oblige(st, 'the coroutine is marked waiting exactly while it waits for some resource', self.marked(st) == z3.Not(b.empty()))
            em = z3.And(z3.Not(a.empty()), b.empty())
            st.ghost['emptied'] = simp(z3.Or(zb(st.ghost['emptied']), em))
            st.ghost['told'] = False
            st.ghost['reach'] = False
            st.ghost['sched_at'] = st.ghost.get('sched_acq', 0)
        return Monitor.release(self, ex, st, what)


class MinMon(Monitor):
    def release(self, ex, st, what='release'):
        if self.held(st):
            v = self.view(ex, st)
            st.ghost['reach'] = simp(z3.Or(zb(st.ghost['reach']), zi(v['min']) <= zi(st.ghost[('last', 'priority')]['priority'])))
        return Monitor.release(self, ex, st, what)


def prio_inv(P):
    return lambda v: [('the priority is within the allowed range', z3.And(zi(v['priority']) >= 0, zi(v['priority']) < P.consts['val_max_priority']))]


class Ctx:
    pass


CALL = re.compile(r'(?:call|invoke) .*@(_ZN[\w]*co_ctx(?:8set_flag|10unset_flag)Em)\(ptr [^,]*, i64 [\w ]*?([%-]?[\w.]+)\)')


def sites(P):
    """nobody else sets or clears the waiting mark: every call that changes a coroutine's flags, in every source file"""
    if not hasattr(P, '_sites'):
        if not P.whole:
            P.extend()
        P._sites, found = '', 0
        callers = {}
        for m in P.mods:
            for n, f in m.funcs.items():
                for l in f.body:
                    for g in re.findall(r'@(_Z\w+)', l):
                        callers.setdefault(g, set()).add(n)
        own = lambda n: any(x in demangle(n) for x in ('co_ctx::enter_wait_resource_state(', 'co_ctx::leave_wait_resource_state('))

        def within(n, seen=()):
            return own(n) or (n not in seen and bool(callers.get(n)) and all(within(c, seen + (n,)) for c in callers[n]))
        for m in P.mods:
            for n, f in m.funcs.items():
                if n.startswith('vf_'):
                    continue
                for l in f.body:
                    k = CALL.search(l)
                    if not k:
                        continue
                    found += 1
                    v = k.group(2)
                    if v.lstrip('-').isdigit() and int(v) != P.consts['val_waiting']:
                        continue
                    if not within(n):
                        P._sites = 'the waiting mark is changed in ' + demangle(n)
        if not found:
            P._sites = 'no place found that changes flags of a coroutine'
    if P._sites:
        raise Unsupported(P._sites)


def setup(ex, P, env=True):
    """a coroutine in an arbitrary state, placed in an environment"""
    oslock.install(ex)
    st = conc.initial(ex)
    C = P.consts
    st.ghost.update({'emptied': False, 'told': False, 'reach': False, 'sched_acq': 0, 'sched_at': 0, 'notified': 0})
    x = Ctx()
    x.C = C
    x.ctx = o = ex.new_obj(st, 'ctx', P.size('ctx'), 'param')
    x.env = e = ex.new_obj(st, 'env', P.size('env'), 'param')
    no = lambda v: []
    nf = C['val_ctx_flags']
    x.F = FlagMon('flags', o, P.off('ctx_flags_mu'), [Field('flags', P.off('ctx_flags'), 8, 'bits', mk=lambda ex, st: oslock.fresh_bits(nf))], inv=no)
    cd = stl.ptr_codec('void')
    x.W = WaitMon('waits', o, P.off('ctx_wait_mu'), [Field('set', P.off('ctx_wait_set'), 48, 'set', mk=lambda ex, st: stl.fresh_set(ex, st, cd))], inv=no)
    x.F.wait, x.W.flags, x.F.WAITING = x.W, x.F, C['val_waiting']
    fin = C['val_finished']
    x.S = Monitor('state', o, P.off('ctx_state_mu'), [Field('state', P.off('ctx_state'), 1, 'int')], inv=no,
                  guar=lambda a, b, me: [('a finished coroutine stays finished', z3.Implies(zi(a['state']) == fin, zi(b['state']) == fin))])
    x.Pr = Monitor('priority', o, P.off('ctx_priority_mu'), [Field('priority', P.off('ctx_priority'), 4, 'int')], inv=prio_inv(P))
    x.Mn = MinMon('min', e, P.off('env_min_mu'), [Field('min', P.off('env_min'), 8, 'int')], inv=no)
    for m in (x.F, x.W, x.S, x.Pr, x.Mn):
        m.install(ex, st)
    envp = Ptr(e.id, 0)
    ex.store_cell(st, Ptr(o.id, P.off('ctx_env')), envp, 8)
    x.idle = fresh_int('idle')
    st.assume(x.idle > 0)
    ex.store_cell(st, Ptr(e.id, P.off('env_idle')), Sym(x.idle, 0, 'ctx'), 8)
    sk = (e.id, P.off('env_sched'))

    def lock(ex, st, c):
        r = oslock.acquire(ex, st, c.args[0])
        if conc.lock_key(ex, st, c.args[0]) == sk:
            st.ghost['sched_acq'] = st.ghost['sched_acq'] + 1
        return r
    ex.handlers['cocpp::co_recursive_mutex_with_count::lock'] = lock
    ex.handlers['cocpp::co_recursive_mutex_with_count::unlock'] = oslock.h_unlock

    def notify(ex, st, c):
        p = ex.resolve_sym(st, c.args[0])
        if not (isinstance(p, Ptr) and (p.obj, p.off) == (e.id, P.off('env_cv'))):
            raise Unsupported('unknown condition variable')
        if oslock.depth(st, sk) > 0 or st.ghost['sched_acq'] > st.ghost['sched_at']:
            st.ghost['told'] = True
        st.ghost['notified'] += 1
    ex.handlers['std::condition_variable_any::notify_one'] = ex.handlers['std::_V2::condition_variable_any::notify_one'] = notify
    ex.handlers['std::condition_variable_any::notify_all'] = ex.handlers['std::_V2::condition_variable_any::notify_all'] = notify
    x.cp, x.ep = Ptr(o.id, 0), envp
    sites(P)
    ex.assumptions.add('the waiting mark is changed through a coroutine\'s flags only by the members under contract here (checked over all call sites)')
    return st, x


def sets(a, b, P):
    """b has the same members as a, except that P decides for some"""
    c = z3.Int('c!m')
    return z3.ForAll([c], z3.Select(b.arr, c) == P(c, z3.Select(a.arr, c)), patterns=[z3.Select(b.arr, c)])


def enter_leave(P, name):
    def body(ex):
        st, x = setup(ex, P)
        rc = z3.Int('rc')
        st.assume(rc > 0)
        cov = {'returns': False, 'emptied': name == 'enter', 'others left': name == 'enter'}
        for s, k, v in ex.run_function(st, ex.get('cocpp::co_ctx::%s_wait_resource_state' % name), [x.cp, Sym(rc, 0, 'rc')]):
            ex.oblige(s, '%s does not throw' % name, k == 'ret', where='exit')
            if k != 'ret':
                continue
            oslock.balanced(ex, s)
            n = s.ghost[('acq', 'waits')]
            ex.oblige(s, 'the set of resources is changed once', n == 1, where='exit')
            a, b = s.ghost[('snap', 'waits')]['set'], s.ghost[('last', 'waits')]['set']
            if name == 'enter':
                ex.oblige(s, 'exactly the given resource is added', sets(a, b, lambda c, old: z3.Or(old, c == rc)), where='exit')
            else:
                ex.oblige(s, 'exactly the given resource is removed', sets(a, b, lambda c, old: z3.And(old, c != rc)), where='exit')
                again = s.ghost[('last', 'flags')]['flags'].bit(x.C['val_waiting'])
                em = zb(s.ghost['emptied'])
                ex.oblige(s, 'once it waits for nothing its environment is told, under the lock it goes to sleep with',
                          z3.Implies(em, z3.Or(again, zb(s.ghost['told']))), where='exit')
                ex.oblige(s, 'once it waits for nothing the scheduler looks at its priority again',
                          z3.Implies(em, z3.Or(again, x.idle == ex.pterm(s, x.cp), zb(s.ghost['reach']))), where='exit')
                cov['emptied'] = cov['emptied'] or ex.reachable(s, em)
                cov['others left'] = cov['others left'] or ex.reachable(s, z3.Not(b.empty()))
            cov['returns'] = True
        return cov
    return P.fn('co_ctx::%s_wait_resource_state' % name, body)


def flags(P, name):
    def body(ex):
        st, x = setup(ex, P)
        i = z3.Int('flag')
        st.assume(z3.And(i >= 0, i < x.C['val_ctx_flags'], i != x.C['val_waiting']) if name != 'test' else z3.And(i >= 0, i < x.C['val_ctx_flags']))
        fn = ex.get('vf_test_flag') if name == 'test' else ex.get('cocpp::co_ctx::%s_flag' % name)
        cov = {'returns': False}
        for s, k, v in ex.run_function(st, fn, [x.cp, i]):
            ex.oblige(s, '%s_flag does not throw' % name, k == 'ret', where='exit')
            if k != 'ret':
                continue
            oslock.balanced(ex, s)
            ex.oblige(s, 'the flags are looked at in one step', s.ghost[('acq', 'flags')] == 1, where='exit')
            a, b = s.ghost[('snap', 'flags')]['flags'], s.ghost[('last', 'flags')]['flags']
            j = z3.Int('j!fl')
            if name == 'test':
                ex.oblige(s, 'test_flag reports the flag', zb(v) == a.bit(i), where='exit')
                ex.oblige(s, 'test_flag changes no flag', a.equal(b), where='exit')
            else:
                ex.oblige(s, '%s_flag changes exactly the given flag' % name, z3.And([b.bit(j) == z3.If(i == j, z3.BoolVal(name == 'set'), a.bit(j)) for j in range(x.C['val_ctx_flags'])]), where='exit')
            cov['returns'] = True
        return cov
    return P.fn('co_ctx::%s_flag' % name, body)


def can_schedule(P):
    def body(ex):
        st, x = setup(ex, P)
        cov = {'yes': False, 'finished': False, 'waiting': False}
        for s, k, v in ex.run_function(st, ex.get('cocpp::co_ctx::can_schedule'), [x.cp]):
            ex.oblige(s, 'can_schedule does not throw', k == 'ret', where='exit')
            if k != 'ret':
                continue
            oslock.balanced(ex, s)
            f = zi(s.ghost[('last', 'state')]['state']) == x.C['val_finished']
            w = s.ghost[('last', 'flags')]['flags'].bit(x.C['val_waiting'])
            seen = lambda n: s.ghost[('acq', n)] != 0
            ex.oblige(s, 'a coroutine reported runnable is not finished and not waiting', z3.Implies(zb(v), z3.And(z3.Not(f), z3.Not(w), seen('state'), seen('flags'))), where='exit')
            ex.oblige(s, 'a coroutine reported not runnable is finished or waiting', z3.Implies(z3.Not(zb(v)), z3.Or(z3.And(f, seen('state')), z3.And(w, seen('flags')))), where='exit')
            for nm, g in (('yes', zb(v)), ('finished', z3.And(z3.Not(zb(v)), f)), ('waiting', z3.And(z3.Not(zb(v)), w))):
                cov[nm] = cov[nm] or ex.reachable(s, g)
        return cov
    return P.fn('co_ctx::can_schedule', body)


def state(P, name):
    def body(ex):
        st, x = setup(ex, P)
        q = z3.Int('wanted')
        st.assume(z3.And(q >= 0, q <= 255))
        cov = {'returns': False, 'finished': name == 'state'}
        fin = x.C['val_finished']
        for s, k, v in ex.run_function(st, ex.get('vf_' + name), [x.cp, q][:1 if name == 'state' else 2]):
            ex.oblige(s, '%s does not throw' % name, k == 'ret', where='exit')
            if k != 'ret':
                continue
            oslock.balanced(ex, s)
            ex.oblige(s, 'the state is looked at in one step', s.ghost[('acq', 'state')] == 1, where='exit')
            a, b = zi(s.ghost[('snap', 'state')]['state']), zi(s.ghost[('last', 'state')]['state'])
            if name == 'state':
                ex.oblige(s, 'state reports the state', z3.And(zi(v) == a, a == b), where='exit')
            else:
                ex.oblige(s, 'the state becomes the requested one unless it is finished', b == z3.If(a == fin, a, q), where='exit')
                cov['finished'] = cov['finished'] or ex.reachable(s, a == fin)
            cov['returns'] = True
        return cov
    return P.fn('co_ctx::' + name, body)


def sleep(P):
    """the scheduler goes to sleep only after it found, in the same lock section, nothing to do"""
    def body(ex, variant):
        st, x = setup(ex, P)
        st.ghost.update({'checked': False, 'slept': 0, 'lastcheck': True})
        e, sk = x.env, (x.env.id, P.off('env_sched'))

        def check(ex, st, c):
            b = fresh_bool('nothing_to_do')
            st.ghost['checked'] = b if oslock.depth(st, sk) > 0 else False
            st.ghost['lastcheck'] = b
            return b
        ex.handlers['cocpp::co_env::need_sleep__'] = check
        ex.patterns.insert(0, (re.compile(r'std::function::operator\(\)$'), check))

        def wait(ex, st, c):
            if len(c.args) != 2:
                return INLINE
            p = ex.resolve_sym(st, c.args[0])
            if not (isinstance(p, Ptr) and (p.obj, p.off) == (e.id, P.off('env_cv'))):
                raise Unsupported('unknown condition variable')
            l = ex.resolve_sym(st, c.args[1])
            mu = ex.resolve_sym(st, ex.load(st, l, ('ptr',), ex.mods[0]))
            ex.oblige(st, 'the scheduler sleeps with its scheduling lock, which it holds once', z3.BoolVal(conc.lock_key(ex, st, mu) == sk and oslock.depth(st, sk) == 1))
            ex.oblige(st, 'the scheduler goes to sleep only if it found nothing to do while holding the lock', zb(st.ghost['checked']))
            st.ghost['checked'] = False
            st.ghost['slept'] = simp(zi(st.ghost['slept']) + 1)
        ex.handlers['std::condition_variable_any::wait'] = ex.handlers['std::_V2::condition_variable_any::wait'] = wait
        args = [x.ep]
        if variant:
            f = ex.new_obj(st, 'checker', 32, 'param')
            args.append(Ptr(f.id, 0))
        fn = [f for f in ex.find('cocpp::co_env::sleep_if_need__') if (len(ex.funcs[f].parse().params) == 2) == variant]
        cov = {'slept': False, 'did not sleep': False}
        for s, k, v in ex.run_function(st, fn[0], args):
            ex.oblige(s, 'going to sleep does not throw', k == 'ret', where='exit')
            if k != 'ret':
                continue
            oslock.balanced(ex, s)
            ex.oblige(s, 'the scheduler goes on only when there is something to do', z3.Not(zb(s.ghost['lastcheck'])), where='exit')
            cov['slept'] = cov['slept'] or ex.reachable(s, zi(s.ghost['slept']) > 0)
            cov['did not sleep'] = cov['did not sleep'] or ex.reachable(s, zi(s.ghost['slept']) == 0)
        return cov
    P.fn('co_env::sleep_if_need', lambda ex: body(ex, False))
    P.fn('co_env::sleep_if_need (condition)', lambda ex: body(ex, True))


def wake(P):
    def body(ex):
        st, x = setup(ex, P)
        cov = {'returns': False}
        for s, k, v in ex.run_function(st, ex.get('cocpp::co_env::wake_up'), [x.ep]):
            ex.oblige(s, 'wake_up does not throw', k == 'ret', where='exit')
            if k != 'ret':
                continue
            oslock.balanced(ex, s)
            ex.oblige(s, 'the scheduler is notified under or after its lock', zb(s.ghost['told']), where='exit')
            ex.oblige(s, 'preemption state is left as found', zi(s.ghost['preempt']) == zi(s.ghost['preempt_on_entry']), where='exit')
            cov['returns'] = True
        return cov
    return P.fn('co_env::wake_up', body)



def run(P):
    for n in ('enter', 'leave'):
        enter_leave(P, n)
    can_schedule(P)
    for n in ('set', 'unset', 'test'):
        flags(P, n)
    state(P, 'state')
    state(P, 'set_state')
    wake(P)
    sleep(P)
