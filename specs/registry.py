"""Which contracts and which bounded scenarios decide which property."""
import bounded

SYM = 'contracts on the real functions, discharged by symbolic execution of their LLVM IR and z3'
EXP = 'bounded: the compiled sources under every schedule with few deviations (stand-in for a contract)'

# system calls of the io sources that the scenarios replace
SYSIO = dict(fake_in='/io/', fake=('read write close lseek lseek64 fchmod fchown ftruncate ftruncate64 fstat fstat64 fsync fdatasync ioctl fcntl fcntl64 '
                                   'socket accept open open64 listen bind send sendto recv recvfrom sendmsg recvmsg shutdown setsockopt getsockopt '
                                   'connect poll select').split())

# the spin lock of the sources instead of the one of the scheduler
SPIN = dict(vsflags=['-DVS_REAL_SPINLOCK'], only=('/sync/co_spinlock.cpp', bounded.ATOMICS))

# the repository's own scheduler, with memory errors reported
CORE = dict(sched=False, libflags=bounded.BASE + ['-O1', '-fsanitize=address'], extra=['-fsanitize=address'])

# the same, told when a lock is given back
PLACE = dict(CORE, fake=['pthread_mutex_unlock'])

# the same with stacks that may be copied
LIFE = dict(sched=False, libflags=bounded.BASE + ['-O1', '-fsanitize=address', '-mllvm', '-asan-stack=0'], extra=['-fsanitize=address'], sec=8)

# the repository's own switch
SWITCH = dict(sched=False)

# the controlled scheduler also watches the preemption state
PRE = dict(vsflags=['-DVS_PREEMPT'], sec=8)

# id -> proof: [(spec module, function)], harness: [(file, instrumented, scenario pattern)]
PROPS = {
    'C01': dict(proof=[('mutex', 'run')], harness=[('mutex', False, r'mutex_(exclusion.*|try_lock_results|foreign_unlock|handoff_chain)')],
                technique=SYM,
                note='lock/try_lock/unlock proved for every interleaving against the mutex protocol; assumes the spin lock excludes (C31) and a yielded coroutine marked waiting is not resumed (C20)'),
    'C02': dict(proof=[('mutex', 'run')], harness=[('mutex', False, r'mutex_(fifo|handoff_chain)')],
                technique=SYM,
                note='hand-over to the first waiter and queue order proved as guarantees of every operation; assumes C31 and C20'),
    'C03': dict(proof=[('rmutex', 'run')], harness=[('locks', False, r'rmutex_.*')],
                technique=SYM,
                note='lock/try_lock/unlock of the recursive mutex proved for every interleaving; assumes C31 and C20'),
    'C04': dict(proof=[('smutex', 'run')], harness=[('locks', False, r'smutex_(modes|results|last).*')], technique=SYM,
                note='all six operations of the shared mutex proved for every interleaving; assumes C31 and C20'),
    'C05': dict(proof=[('smutex', 'run')], harness=[('locks', False, r'smutex_(wake|last|modes).*')], technique=SYM,
                note='who is woken, in which order and into which mode proved as guarantees of every operation; assumes C31 and C20'),
    'C06': dict(proof=[('timed', 'run')], harness=[('locks', False, r'timed_.*')], technique=SYM,
                note='all timed operations proved over the contracts of the untimed ones (C01, C03, C04), for every deadline'),
    'C07': dict(proof=[('cv', 'run')], harness=[('sync', True, r'cv_.*')], technique=SYM,
                note='wait, predicate wait, notify_one and notify_all proved for every interleaving, with an arbitrary user lock and predicate; assumes C31 and C20'),
    'C08': dict(proof=[('cvtimed', 'run')], harness=[('sync', True, r'cvt_.*')], technique=SYM,
                note='the timed wait proved with its timer callback run at every moment that matters (on start, suspended, woken, returned); the relative and predicate forms over its contract'),
    'C09': dict(proof=[('sem', 'run')], harness=[('sync', True, r'sem_.*')], technique=SYM,
                note='all operations proved for every interleaving over the contracts of the mutex and the condition variable (C01, C07), for the maxima 1 and 1000003'),
    'C10': dict(proof=[('latch', 'run')], harness=[('sync', True, r'(latch|wg)_.*')], technique=SYM,
                note='all operations of latch and wait group proved for every interleaving over the contracts of the mutex and the condition variable (C01, C07)'),
    'C11': dict(proof=[('barrier', 'run')], harness=[('sync', True, r'barrier_.*')], technique=SYM,
                note='all operations proved for every interleaving over the contracts of the mutex and the condition variable (C01, C07)'),
    'C12': dict(proof=[('once', 'run')], harness=[('sync', True, r'once_.*')], technique=SYM,
                note='proved for every interleaving with an arbitrary callable over the contract of the mutex (C01)'),
    'C13': dict(proof=[('chan', 'run')], harness=[('chan', True, r'chan_(flow|fifo|full|close_senders).*')], technique=SYM,
                note='constructor, push, pop, close and the queries of the three kinds of channel proved for every capacity and interleaving over the contracts of the mutex and the condition variable (C01, C07)'),
    'C14': dict(proof=[('chan', 'run')], harness=[('chan', True, r'chan_(wake|close|sync_close|flow_1).*')], technique=SYM,
                note='every change that lets a blocked coroutine proceed is proved to wake one, closing to wake all, and waiting to happen only when blocked; over C01 and C07'),
    'C15': dict(proof=[('chan', 'run_sync')], harness=[('chan', True, r'chan_sync_.*')], technique=SYM,
                note='push, pop and close of the rendezvous channel proved for every interleaving over C01 and C07'),
    'C16': dict(proof=[('chan', 'run_ops')], harness=[('chan', True, r'chan_(iter|ops).*')], technique=SYM,
                note='iterators and stream operators proved for every interleaving over C01 and C07'),
    'C17': dict(proof=[('pipe', 'run')], harness=[('pipe', False, r'pipe_.*', CORE)], technique=SYM,
                note='every stage and source, from its constructor to the end of its coroutine, proved for inputs of any length and arbitrary functions over the contract of the channel (C13, C16)'),
    'C18': dict(proof=[('runq', 'run18')], harness=[('core', False, r'sched_.*', CORE)], technique=SYM,
                note='the choice of the next coroutine, the test for something to run and the way to the idle coroutine proved for all contents of the queues; assumes that runnability is what C20 says'),
    'C19': dict(proof=[('runq', 'run19')], harness=[('core', False, r'(queue|sched)_.*', CORE)], technique=SYM,
                note='adding, removing, refiling, taking one or all movable coroutines and counting proved for all contents of the queues and every interleaving'),
    'C20': dict(proof=[('wait', 'run')], harness=[('core', False, r'(wait|sched)_.*', CORE)], technique=SYM,
                note='entering and leaving a wait, the runnable test, flags, life state, sleeping and waking of the scheduler proved for every interleaving'),
    'C21': dict(proof=[('waitfor', 'run')], harness=[('life', False, r'join_.*', LIFE)], technique=SYM,
                note='both ways of waiting with the callbacks of completion and expiry run in every order, the delivery of the error, and the end of every coroutine'),
    'C22': dict(proof=[('life', 'run'), ('runq', 'run22')], harness=[('life', False, r'life_.*', LIFE)], technique=SYM,
                note='all handle operations, creation, the sweep that reclaims, the destruction and the whole way from one coroutine to the next proved for all states; up to the end of the environment'),
    'C23': dict(proof=[('event', 'run')], harness=[('values', False, r'event_.*', CORE)], technique=SYM,
                note='subscribe, unsubscribe and publish proved for every set of subscriptions, with arbitrary callbacks that may subscribe and unsubscribe; instances with no and two arguments'),
    'C24': dict(proof=[('timer', 'run')], harness=[('timers', False, r'timer_.*', dict(sched=False, sec=8))], technique=SYM,
                note='start, stop, reset, the queries, the order of the queue and the timer service proved for every set of timers and every reading of the clock'),
    'C25': dict(proof=[('anyval', 'run')], harness=[('values', False, r'(any|local)_.*', CORE)], technique=SYM,
                note='storing, copying, assigning and reading proved for all values of three instances (two integers, one class) from every state; local variables for all names'),
    'C28': dict(proof=[('ctxsw', 'run')], harness=[('switch', False, r'sw_.*', SWITCH)], technique=SYM,
                note='the assembly of the switch is executed symbolically for all register and memory contents; initial contexts for all stack sizes; forced switches for all register contents'),
    'C29': dict(proof=[('stack', 'run'), ('life', 'switching')], harness=[('life', False, r'stack_.*', LIFE)], technique=SYM,
                note='saving and putting back composed, with everything else on the shared stack changed in between; trimming, making and releasing stacks; when the switch saves, puts back and trims'),
    'C30': dict(proof=[('preempt', 'run'), ('mutex', 'run'), ('rmutex', 'run'), ('smutex', 'run'), ('timed', 'run'), ('cv', 'run_ops'), ('cvtimed', 'run')], focus='preempt',
                harness=[('switch', False, r'pre_.*', SWITCH), ('mutex', False, r'mutex_.*', PRE), ('locks', False, r'.*', PRE), ('sync', True, r'cvt?_.*', PRE)],
                technique=SYM, note='counting lock, guards and forced preemption proved for every count other threads contribute; all operations of the locks and of the condition variable keep preemption off in every spin lock section and leave it as found on every path'),
    'C32': dict(proof=[('place', 'run')], harness=[('place', False, r'place_.*', PLACE)], technique=SYM,
                note='choice, placement, retirement and the limits proved for every set of environments; the choice also while idle and busy change'),
    'C33': dict(proof=[('prio', 'run')], harness=[('core', False, r'prio_.*', CORE)], technique=SYM,
                note='setting and reading the priority, every option and the creation of a coroutine proved for all arguments; string contents are abstract'),
    'C31': dict(proof=[('spin', 'run')], harness=[('spin', False, r'spin_.*', SPIN)], technique=SYM,
                note='construction, lock, try_lock and unlock proved on the level of their atomic steps, with the memory orders that publishing needs'),
    'C26': dict(proof=[('sysio', 'run')], harness=[('sysio', False, r'io_.*', SYSIO)], technique=SYM,
                note='all 28 operations proved for every sequence of system call results; the system calls are contracts (any result, any error code)'),
    'C27': dict(proof=[('sysio', 'run_client')], harness=[('sysio', False, r'whole_.*', SYSIO)], technique=SYM,
                note='whole-buffer and single transfers proved for every buffer size and every sequence of partial counts, over the contract of the single transfer (C26)'),
}

NOT_APPLICABLE = {}
