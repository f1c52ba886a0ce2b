"""Runs the contracts of one property and collects the verdict."""
import time, traceback, os, threading
import z3
from values import *
import execu, stl, rt, conc, build, loops
from execu import Executor, Missing, Timeout


class FnResult:
    def __init__(self, name):
        self.name = name
        self.status = 'proved'      # proved | failed | unknown | unsupported
        self.obligs = []
        self.note = ''
        self.covers = []
        self.loops = []
        self.wall = 0.0


class Prover:
    """One verification session over a set of translation units."""

    def __init__(self, srcs, tier='quick', extra_tu=('offsets.cpp',)):
        tus = [build.repo_src(s) for s in srcs]
        tus += [os.path.join(build.VERIF, 'specs/tu', t) for t in extra_tu]
        self.mods = build.load(tus)
        self.tus = tus
        self.whole = False
        self.tier = tier
        self.deadline = None        # for all the functions together
        self.enough = lambda: None  # a reason for not starting another function
        self.running = None
        threading.Thread(target=self.watch, daemon=True).start()
        self.results = []
        self.used_models = set()
        self.used_funcs = set()
        self.assumptions = set()
        self.nsolve = 0
        self.tsolve = 0.0
        self.opts = {'keep_smt': tier == 'thorough'}
        self.consts = {}
        for m in self.mods:
            for n, t in m.globals.items():
                if n.startswith('off_') or n.startswith('size_') or n.startswith('val_'):
                    import re
                    k = re.search(r'i64 (-?\d+)', t)
                    if k:
                        self.consts[n] = int(k.group(1))

    def watch(self):
        """stops a query that runs on after the time of its function"""
        while True:
            time.sleep(2)
            ex = self.running
            if ex is not None and ex.deadline and time.time() > ex.deadline + 25:
                z3.main_ctx().interrupt()

    def extend(self):
        """a function defined in another file of the repository is needed: take all of them in"""
        self.whole = True
        self.mods = self.mods + build.load([s for s in build.all_sources() if s not in self.tus])

    def off(self, n):
        v = self.consts.get('off_' + n, -1)
        if v < 0:
            raise Missing('field ' + n)
        return v

    def size(self, n):
        return self.consts['size_' + n]

    def executor(self):
        ex = Executor(self.mods, self.opts)
        stl.install(ex)
        rt.install(ex)
        conc.install(ex)
        ex.timeout_ms = 20000 if self.tier == 'quick' else 60000
        return ex

    def fn(self, name, body, covers=(), budget=240, unroll=4):
        """body(ex) runs one function against its contract.

        Tried with inferred loop invariants first.  A failed or undecided obligation is looked at again with
        loops unrolled: a failure there is a definite one."""
        r = FnResult(name)
        t0 = time.time()
        ex = None
        why = self.enough()
        if not why and self.deadline and t0 > self.deadline:
            why = 'the time for this check is used up'
        if why:
            r.status, r.note = 'unknown', 'not tried: ' + why
            self.results.append(r)
            return r
        for mode in ('inv', 'inv', 'unroll'):
            if r.note.startswith('Unsupported: call to external') and not self.whole:
                self.extend()
                r.status, r.note = 'proved', ''
            elif ex is not None and mode == 'inv':
                continue
            ex = self.executor()
            ex.mode = mode
            ex.unroll = unroll
            ex.deadline = time.time() + (budget if mode == 'inv' else min(budget, 60))
            if self.deadline:
                ex.deadline = min(ex.deadline, max(self.deadline, time.time() + 30))
            ex.cur_fn = name
            self.running = ex
            try:
                reset_names()
                cov = body(ex) or {}
                bad = [o for o in ex.obligs if o.status == 'failed']
                unk = [o for o in ex.obligs if o.status == 'unknown']
                if mode == 'inv':
                    r.obligs = ex.obligs
                    r.loops = ex.loop_reports
                    r.covers = cov
                    if not ex.obligs:
                        r.status, r.note = 'unsupported', 'no obligation was generated'
                    elif bad or unk:
                        r.status = 'failed' if bad else 'unknown'
                        r.fails = bad + unk
                    else:
                        miss = [k for k, v in cov.items() if not v]
                        if miss:
                            r.status, r.note = 'vacuous', 'never reached: ' + ', '.join(miss)
                else:
                    if bad:
                        r.status, r.fails, r.obligs_unrolled = 'failed', bad, ex.obligs
                        r.note = 'confirmed with loops unrolled %d times' % unroll
                    else:
                        r.status = 'unconfirmed'
                        r.note = 'obligation fails only with inferred invariants, not with loops unrolled %d times' % unroll
            except (Unsupported, Missing) as e:
                r.status, r.note = 'unsupported', '%s: %s' % (type(e).__name__, e)
                if os.environ.get('VTRACE'):
                    traceback.print_exc()
            except Timeout as e:
                r.status, r.note = 'unknown', str(e)
            except z3.Z3Exception as e:
                r.status, r.note = 'unsupported', 'solver: %s' % e
                if os.environ.get('VTRACE'):
                    traceback.print_exc()
            finally:
                self.running = None
                self.nsolve += ex.nsolve
                self.tsolve += ex.tsolve
                self.used_models |= ex.used_models
                self.used_funcs |= ex.used_funcs
                self.assumptions |= ex.assumptions
            if mode == 'inv' and r.note.startswith('Unsupported: call to external') and not self.whole:
                continue
            if mode == 'inv' and r.status not in ('failed', 'unknown'):
                break
            if mode == 'inv' and not ex.loop_reports and r.status == 'failed':
                r.note = 'no loop involved'
                break
        r.wall = time.time() - t0
        self.results.append(r)
        if os.environ.get('VTRACE') or os.environ.get('VVERB'):
            print('%-60s %-12s %4d obligations %6.1fs %s' % (name, r.status, len(r.obligs), r.wall, r.note))
        return r

    def second_opinion(self, per=20):
        """thorough tier: the discharged obligations again, by an independent solver build"""
        import subprocess, tempfile
        from concurrent.futures import ThreadPoolExecutor
        jobs = []
        for r in self.results:
            for o in r.obligs:
                if o.status == 'proved' and o.pc is not None:
                    s = z3.Solver()
                    for p in o.pc:
                        s.add(p)
                    s.add(z3.Not(o.goal))
                    jobs.append((o, s.to_smt2()))
        wd = build.workdir()

        def one(j):
            k, (o, text) = j
            f = os.path.join(wd, 'so%d.smt2' % k)
            open(f, 'w').write(text)
            try:
                p = subprocess.run(['/usr/bin/z3', '-T:%d' % per, f], capture_output=True, text=True, timeout=per + 10)
                ans = p.stdout.split('\n')[0].strip()
            except (subprocess.TimeoutExpired, OSError):
                ans = 'timeout'
            os.unlink(f)
            return ans
        with ThreadPoolExecutor(8) as ex:
            ans = list(ex.map(one, enumerate(jobs)))
        self.second = {'solver': 'z3 4.8.12 (separate build)', 'obligations': len(ans), 'agreed': ans.count('unsat'),
                       'disagreed': ans.count('sat'), 'no answer': len(ans) - ans.count('unsat') - ans.count('sat')}

    def verdict(self):
        st = [r.status for r in self.results]
        if all(s == 'proved' for s in st) and st:
            return 'proved'
        if any(s == 'failed' for s in st):
            return 'failed'
        return 'undecided'
