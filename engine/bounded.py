"""Builds the repository's sources together with small scenarios and runs them under a controlled scheduler.

This is the bounded companion of the proofs: it finds the failing input of a broken contract, and it stands in,
labelled bounded, where the prover has no rule for a construct."""
import os, subprocess, hashlib, re, time, shutil, json, tempfile
from concurrent.futures import ThreadPoolExecutor
import build

HARNESS = os.path.join(build.VERIF, 'harness')
BASE = ['-std=c++20', '-DNDEBUG', '-I%s/include' % build.REPO, '-I' + HARNESS, '-g1', '-fno-access-control', '-w']
TSAN = ['-fsanitize=thread', '-mllvm', '-tsan-instrument-memintrinsics=false', '-mllvm', '-tsan-instrument-func-entry-exit=false']
ATOMICS = BASE + ['-O1'] + TSAN
TSAN = TSAN + ['-mllvm', '-tsan-instrument-atomics=false']
CACHE = os.path.join(build.VERIF, 'build', 'objs')


def compile_obj(src, flags, weaken, redef=()):
    """object file of src; reused only if the preprocessed text and the flags are the same"""
    p = subprocess.run(['clang++'] + flags + ['-E', src], capture_output=True)
    if p.returncode:
        raise build.BuildError('%s does not compile:\n%s' % (src, p.stderr.decode()[-2000:]))
    h = hashlib.sha256(b'\0'.join([p.stdout, ' '.join(flags).encode(), src.encode(), b'w' if weaken else b'', ' '.join(redef).encode()])).hexdigest()[:32]
    out = os.path.join(CACHE, h + '.o')
    if os.path.exists(out):
        return out
    os.makedirs(CACHE, exist_ok=True)
    fd, tmp = tempfile.mkstemp(dir=CACHE, suffix='.o')
    os.close(fd)
    p = subprocess.run(['clang++'] + flags + ['-c', src, '-o', tmp], capture_output=True, text=True)
    if p.returncode:
        if os.path.exists(tmp):
            os.unlink(tmp)
        raise build.BuildError('%s does not compile:\n%s' % (src, p.stderr[-2000:]))
    if weaken:
        subprocess.run(['objcopy', '--weaken', tmp], check=True)
    if redef:
        subprocess.run(['objcopy'] + [x for r in redef for x in ('--redefine-sym', '%s=fake_%s' % (r, r))] + [tmp], check=True)
    os.rename(tmp, out)
    return out


def lib_flags(src):
    # memory accesses of the synchronisation and event code are switching points
    if '/sync/' in src or '/event/' in src:
        return BASE + ['-O1'] + TSAN
    return BASE + ['-O0']


def build_harness(name, instrument=False, sched=True, extra=(), libflags=None, fake=(), fake_in='', sec=None, vsflags=(), only=None):
    """binary of scenario file harness/<name>.cpp"""
    jobs = [(s, (list(only[1]) if only and only[0] in s else libflags or (lib_flags(s) if sched else BASE + ['-O1'])), True, tuple(fake) if fake_in in s else ()) for s in build.all_sources()]
    if sched:
        jobs.append((os.path.join(HARNESS, 'vsched.cpp'), BASE + ['-O1'] + list(vsflags), False))
    jobs.append((os.path.join(HARNESS, name + '.cpp'), BASE + ['-O1'] + (TSAN if instrument else []), False))
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: compile_obj(*j), jobs))
    out = os.path.join(build.workdir(), 'h_' + name)
    p = subprocess.run(['clang++'] + objs + ['-o', out, '-lpthread'] + list(extra), capture_output=True, text=True)
    if p.returncode:
        raise build.BuildError('harness %s does not link:\n%s' % (name, p.stderr[-2000:]))
    prune()
    return out


def prune(limit=400):
    try:
        fs = sorted((os.path.join(CACHE, f) for f in os.listdir(CACHE)), key=os.path.getatime)
    except OSError:
        return
    for f in fs[:-limit]:
        try:
            os.unlink(f)
        except OSError:
            pass


def list_scenarios(binary):
    p = subprocess.run([binary, '--list'], capture_output=True, text=True, timeout=60)
    return p.stdout.split()


class Outcome:
    def __init__(self, scn):
        self.scn = scn
        self.status = 'ok'      # ok | fail | error
        self.executions = 0
        self.text = ''
        self.choices = None
        self.msg = ''


def run_one(binary, scn, seconds, deeper):
    o = Outcome(scn)
    try:
        p = subprocess.run([binary, '--scn', scn, '--time', str(seconds), '--deeper', str(deeper)], capture_output=True, text=True,
                           timeout=seconds * 4 + 120, errors='replace')
    except subprocess.TimeoutExpired:
        o.status, o.text = 'error', 'scenario %s did not come to an end' % scn
        return o
    o.text = p.stdout[-6000:]
    m = re.search(r'^OK scenario=\S+ executions=(\d+)', p.stdout, re.M)
    if m and p.returncode == 0:
        o.executions = int(m.group(1))
        return o
    m = re.search(r'^FAIL scenario=\S+ choices=(\S+) : (.*)', p.stdout, re.M)
    if m and p.returncode == 1:
        o.status, o.choices, o.msg = 'fail', m.group(1), m.group(2)
        q = subprocess.run([binary, '--scn', scn, '--replay', o.choices], capture_output=True, text=True, timeout=120, errors='replace')
        if q.returncode == 0:
            o.status, o.text = 'error', 'failure of %s (%s) did not repeat: %s' % (scn, o.choices, o.msg)
        return o
    o.status, o.text = 'error', 'scenario %s: exit %s %s %s' % (scn, p.returncode, p.stdout[-500:], p.stderr[-500:])
    return o


def explore(binary, pattern, seconds, deeper):
    scns = [s for s in list_scenarios(binary) if re.fullmatch(pattern, s)]
    if not scns:
        raise build.BuildError('no scenario matches ' + pattern)
    with ThreadPoolExecutor(6) as ex:
        return list(ex.map(lambda s: run_one(binary, s, seconds, deeper), scns))
