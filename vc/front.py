"""Mechanical extraction: /repo sources -> LLVM IR -> parsed module (redone on every run)."""
import os, subprocess, glob, tempfile, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor
from . import ir
REPO = os.environ.get('VERIF_REPO', '/repo')
CFLAGS = ['-std=c++17', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-exceptions', '-fno-discard-value-names',
          '-gline-tables-only', '-fno-math-errno', '-ffp-contract=off', '-w']
PASSES = 'sroa,mem2reg,loop-simplify,lcssa'
class BuildError(Exception): pass
def sources(repo=REPO):
    s = [os.path.join(repo, 'pico-cnn/tensor.cpp')]
    for d in ('layers', 'io'):
        for r, _, fs in os.walk(os.path.join(repo, 'pico-cnn', d)):
            s += [os.path.join(r, f) for f in fs if f.endswith('.cpp')]
    for f in sorted(glob.glob(os.path.join(repo, 'pico-cnn', '*.cpp'))):
        if f not in s: s.append(f)
    return sorted(s)
HARNESS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness')
def extract(repo=REPO, work=None):
    own = work is None
    work = work or tempfile.mkdtemp(prefix='vcir')
    try:
        def comp(f):
            o = os.path.join(work, hashlib.md5(f.encode()).hexdigest()[:8] + '_' + os.path.basename(f)[:-4] + '.bc')
            r = subprocess.run(['clang++'] + CFLAGS + ['-emit-llvm', '-c', f, '-o', o, '-I' + os.path.join(repo, 'pico-cnn'), '-I' + repo, '-I' + HARNESS],
                               capture_output=True, text=True)
            if r.returncode: raise BuildError(f + ': ' + r.stderr[-2000:])
            return o
        with ThreadPoolExecutor(8) as ex: objs = list(ex.map(comp, sources(repo) + [os.path.join(HARNESS, 'harness.cpp')]))
        a = os.path.join(work, 'all.bc'); l = os.path.join(work, 'all.ll')
        link = shutil.which('llvm-link') or 'llvm-link-18'
        opt = shutil.which('opt') or 'opt-18'
        r = subprocess.run([link] + objs + ['-o', a], capture_output=True, text=True)
        if r.returncode: raise BuildError(r.stderr[-2000:])
        r = subprocess.run([opt, '-S', '-passes=' + PASSES, a, '-o', l], capture_output=True, text=True)
        if r.returncode: raise BuildError(r.stderr[-2000:])
        return ir.Module(open(l).read())
    finally:
        if own: shutil.rmtree(work, ignore_errors=True)
