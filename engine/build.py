"""Compiles the code under verification to LLVM IR, from the current working tree, on every run."""
import os, subprocess, tempfile, shutil, atexit, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IRFLAGS = ['-std=c++20', '-DNDEBUG', '-I%s/include' % REPO, '-O0', '-Xclang', '-disable-O0-optnone', '-Xclang',
           '-disable-llvm-passes', '-fno-discard-value-names', '-gline-tables-only', '-fno-access-control', '-w', '-S', '-emit-llvm']
_dir = None


def workdir():
    """A scratch directory of this run, outside /repo, removed at exit."""
    global _dir
    if _dir is None:
        base = os.path.join(VERIF, 'build')
        os.makedirs(base, exist_ok=True)
        _dir = tempfile.mkdtemp(prefix='run-', dir=base)
        atexit.register(shutil.rmtree, _dir, True)
    return _dir


class BuildError(Exception):
    pass


def repo_src(rel):
    return os.path.join(REPO, 'source/cocpp', rel)


def all_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'source/cocpp')):
        for f in fs:
            if f.endswith('.cpp'):
                out.append(os.path.join(d, f))
    return sorted(out)


def compile_ir(srcs):
    """list of source paths -> list of .ll paths"""
    wd = workdir()

    def one(s):
        out = os.path.join(wd, os.path.basename(s).replace('.cpp', '') + '.ll')
        p = subprocess.run(['clang++'] + IRFLAGS + [s, '-o', out], capture_output=True, text=True)
        if p.returncode:
            raise BuildError('%s does not compile:\n%s' % (s, p.stderr[-2000:]))
        return out
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, srcs))


def load(srcs):
    import llparse
    return [llparse.Module(p) for p in compile_ir(srcs)]
