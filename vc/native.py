"""Concrete replay: the same scenarios, compiled natively with sanitizers against /repo's sources,
and the same specification terms, evaluated in double precision."""
import mpmath
import os, subprocess, tempfile, shutil, hashlib, math, random, struct, time, json
from concurrent.futures import ThreadPoolExecutor
from .core import *
from . import core, front, specs, sx

FLAGS = ['-std=c++17', '-O1', '-g1', '-w', '-DVH_NATIVE', '-DINFO=0', '-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=undefined', '-fsanitize-recover=address', '-ffp-contract=off', '-ftrivial-auto-var-init=pattern', '-fno-omit-frame-pointer']
class Native:
    def __init__(self, repo=None, extra=('harness.cpp', 'native.cpp')):
        self.repo = repo or front.REPO
        self.dir = tempfile.mkdtemp(prefix='vcnat'); self.bin = os.path.join(self.dir, 'native'); self.n = 0
        self.error = None
        srcs = front.sources(self.repo) + [os.path.join(front.HARNESS, x) for x in extra]
        def comp(f):
            o = os.path.join(self.dir, hashlib.md5(f.encode()).hexdigest()[:8] + '.o')
            r = subprocess.run(['clang++'] + FLAGS + ['-c', f, '-o', o, '-I' + os.path.join(self.repo, 'pico-cnn'), '-I' + self.repo, '-I' + front.HARNESS], capture_output=True, text=True)
            if r.returncode: raise front.BuildError(f + ': ' + r.stderr[-1500:])
            return o
        try:
            with ThreadPoolExecutor(8) as ex: objs = list(ex.map(comp, srcs))
            r = subprocess.run(['clang++'] + FLAGS + objs + ['-o', self.bin, '-ljpeg'], capture_output=True, text=True)
            if r.returncode: raise front.BuildError(r.stderr[-1500:])
        except front.BuildError as e:
            self.error = str(e); self.close()
    def close(self): shutil.rmtree(self.dir, ignore_errors=True)
    def run(self, text, timeout=10, fill=None, go_on=False):
        self.n += 1
        p = os.path.join(self.dir, 'in%d_%d' % (os.getpid(), self.n))
        open(p, 'w').write(text)
        opts = 'detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=0:max_allocation_size_mb=4096'
        if go_on: opts += ':halt_on_error=0:exitcode=0'      # what comes out in spite of an invalid access
        if fill is not None: opts += ':max_malloc_fill_size=1048576:malloc_fill_byte=%d' % fill
        env = dict(os.environ, ASAN_OPTIONS=opts, UBSAN_OPTIONS='exitcode=86:print_stacktrace=1')
        try:
            r = subprocess.run([self.bin, p], capture_output=True, text=True, timeout=timeout, env=env, errors='replace')
            return Out(r.returncode, r.stdout, r.stderr)
        except subprocess.TimeoutExpired:
            return Out('timeout', '', '')
        finally:
            os.unlink(p)

class Out:
    def __init__(self, rc, out, err):
        self.rc = rc; self.err = err; self.tensors = {}; self.outs = []; self.live = None; self.end = False; self.done = False; self.exited = False; self.raw = {}; self.bytes = []; self.fds = 0
        for l in out.splitlines():
            w = l.split(' ')
            if w[0] == 'T': self.tensors[w[1]] = [fhex(x) for x in w[3:]]; self.raw[w[1]] = w[3:]
            elif w[0] == 'B': self.bytes.append((w[1], w[2] if len(w) > 2 else ''))
            elif w[0] == 'FD': self.fds = int(w[1])
            elif w[0] == 'U': self.outs.append((w[1], int(w[2])))
            elif w[0] == 'P': self.outs.append((w[1], tuple(w[2:])))
            elif w[0] == 'END': self.end = True
            elif w[0] == 'EXIT': self.exited = True
            elif w[0] == 'LIVE': self.live = int(w[1])
            elif w[0] == 'DONE': self.done = True
    def crash(self):
        if self.rc == 'timeout': return 'does not terminate (time limit)'
        if self.rc == 86 or (isinstance(self.rc, int) and self.rc < 0):
            for l in self.err.splitlines():
                if 'ERROR: AddressSanitizer' in l or 'runtime error' in l: return l.strip()[:300]
            return 'crash (status %s)' % self.rc
        return None
def fhex(s):
    if s.startswith('nan:'): return struct.unpack('f', struct.pack('I', int(s[4:], 16)))[0]
    try: return float.fromhex(s)
    except ValueError: return float(s)

# ------------------------------------------------------------------ evaluation of terms
OPS = 3000000
class Skip(Exception): pass
class Amb(Exception): pass
EPS = 2.0**-23
def mentions(t, names):
    """does the term depend on one of the named variables"""
    if isinstance(t, Poly):
        for a in t.atoms():
            x = core.atom_of(a)
            if x[0] == 'v' and x[1] in names: return True
            if x[0] != 'v' and mentions(x, names): return True
        return False
    if isinstance(t, tuple): return any(mentions(x, names) for x in t)
    return False
class Ev:
    def __init__(self, env, arrays, cache=None, cellvars=()):
        self.env = env; self.arr = arrays; self.ops = 0; self.cache = cache; self.cellvars = cellvars
    def poly(self, p):
        s = 0
        for k, c in p.m.items():
            t = c
            for a in k: t *= self.atom(a)
            s += t
        return s
    def atom(self, a):
        v = self.env.get(a)
        if v is not None: return v
        t = core.atom_of(a)
        if t[0] == 'v':
            v = self.env.get(t[1])
            if v is None: raise KeyError(t[1])
            return v
        if t[0] == 'div': return self.poly(t[1]) // self.poly(t[2])
        if t[0] == 'iite': return self.poly(t[2]) if self.form(t[1]) else self.poly(t[3])
        if t[0] == 'wrap':
            x = self.poly(t[3]) % (1 << t[1])
            return x - (1 << t[1]) if t[2] and x >> (t[1]-1) else x
        raise Skip(t[0])
    def form(self, f):
        if f is True or f is False: return f
        k = f[0]
        if k == 'le': return self.poly(f[1]) <= 0
        if k == 'eq': return self.poly(f[1]) == 0
        if k == 'and': return all(self.form(g) for g in f[1])
        if k == 'or': return any(self.form(g) for g in f[1])
        if k == 'not': return not self.form(f[1])
        if k == 'fc':
            a, ea = self.term(f[2]); b, eb = self.term(f[3])
            if f[1] == 'uno': return a != a or b != b
            if abs(a - b) <= ea + eb and (ea + eb) > 0: raise Amb()
            return {'olt': a < b, 'ole': a <= b, 'oeq': a == b}[f[1]]
        raise Skip(k)
    def bounds(self, k, dom):
        lo, hi = 0, None; rest = []
        for g in conjuncts(dom):
            if g[0] == 'le':
                p = g[1]; c = p.m.get((k,), 0)
                if c in (1, -1) and all(k not in kk for kk in p.m if kk != (k,)):
                    r = self.poly(Poly({kk: v for kk, v in p.m.items() if kk != (k,)}))
                    if c == 1: hi = -r if hi is None else min(hi, -r)
                    else: lo = max(lo, r)
                    continue
            rest.append(g)
        if hi is None: raise Skip('unbounded')
        return lo, hi, rest
    def term(self, t):
        """(value, error bound)"""
        self.ops += 1
        if self.ops > OPS: raise Skip('too large')
        k = t[0]
        if k == 'c': return t[2], 0.0
        if k == 'ld':
            i = self.poly(t[2]); a = self.arr[t[1]]
            if not 0 <= i < len(a): raise IndexError('specification reads %s[%d]' % (t[1], i))
            return a[i], 0.0
        if k == 'sym': return self.env[t[1]]
        if k == 'i2f': return float(self.poly(t[2])), 0.0
        if k == 'cast': return self.term(t[2])
        if k == 'ite': return self.term(t[2]) if self.form(t[1]) else self.term(t[3])
        if k == 'fold':
            _, kk, dom, acc, body, init, ty = t
            if self.cache is not None:
                c = self.cache.get(id(t))
                if c is None: c = self.cache[id(t)] = [mentions(t, self.cellvars), None, t]
                if not c[0]:
                    if c[1] is None:
                        s, self.cache = self.cache, None
                        try: c[1] = self.term(t)
                        finally: self.cache = s
                    return c[1]
            lo, hi, rest = self.bounds(kk, dom)
            v = self.term(init)
            old = self.env.get(kk), self.env.get(acc)
            for i in range(lo, hi+1):
                self.env[kk] = i
                if rest and not all(self.form(g) for g in rest): continue
                self.env[acc] = v
                try: v = self.term(body)
                except Amb:
                    if body[0] != 'ite': raise
                    a, b = self.term(body[2]), self.term(body[3]); v = a if a[1] >= b[1] else b
            self.env.pop(kk, None); self.env.pop(acc, None)
            if old[0] is not None: self.env[kk] = old[0]
            if old[1] is not None: self.env[acc] = old[1]
            return v
        if k == 'op':
            n = t[1]; a = [self.term(x) for x in t[3:]]
            (x, ex) = a[0]
            if n == 'neg': return -x, ex
            if n == 'abs': return abs(x), ex
            y, ey = a[1]
            if n == 'add': r = x + y; return r, ex + ey + EPS*max(abs(x), abs(y))
            if n == 'sub': r = x - y; return r, ex + ey + EPS*max(abs(x), abs(y))
            if n == 'mul': r = x*y; return r, abs(x)*ey + abs(y)*ex + EPS*abs(r)
            if n == 'div':
                if y == 0 or abs(y) <= 4*ey: raise Skip('division by zero')
                r = x/y; return r, ex/abs(y) + abs(r)*ey/abs(y) + EPS*abs(r)
            if n == 'max': return (x, ex) if x >= y else (y, ey)
            if n == 'min': return (x, ex) if x <= y else (y, ey)
            raise Skip(n)
        if k == 'call':
            a = [self.term(x) for x in t[3:]]; n = t[1]; x, ex = a[0]
            try:
                if n == 'exp':
                    r = math.exp(x) if abs(x) < 600 else mpmath.exp(x)
                    return r, r*(ex + EPS*abs(x)*0 + 4*EPS)
                if n == 'tanh': r = math.tanh(x); return r, ex + 4*EPS*abs(r)
                if n == 'sqrt': r = math.sqrt(x); return r, (ex/(2*r) if r else ex) + EPS*r
                if n == 'pow':
                    y, ey = a[1]; r = math.pow(x, y)
                    return r, abs(r)*(abs(y)*ex/abs(x) if x else 0) + abs(r*math.log(abs(x) or 1))*ey + 8*EPS*abs(r)
            except (ValueError, OverflowError, ZeroDivisionError): raise Skip(n)
            raise Skip(n)
        raise Skip(k)

# ------------------------------------------------------------------ concrete inputs for a configuration
def basevars(cf):
    s = []
    def add(p):
        for a in sorted(free_atoms(p)):
            t = core.atom_of(a)
            if t[0] == 'v' and t[1] not in s: s.append(t[1])
    for v in cf.bind.values():
        if isinstance(v, Poly): add(v)
    for f in cf.facts:
        if not isinstance(f, bool): add(f)
    return s
def varof(a):
    t = core.atom_of(a)
    return t[1] if t[0] == 'v' else None
WIDE = [130, 257, 260, 520, 600, 1030, 4100, 32770, 33000, 65537, 66000, 70000]
def assignment(cf, rng, hi=6, consts=(), fixed=None, wide=False):
    """random values for the variables of a configuration that satisfy its preconditions"""
    names = basevars(cf)
    derived = set()
    rules = []
    for f in cf.facts:
        if isinstance(f, tuple) and f[0] == 'eq': rules.append(f[1])
    for a, b, q in cf.abbr: rules.append((a, b, q))
    for attempt in range(400):
        env = {}
        if fixed: env.update({k: v for k, v in fixed.items() if k in names})
        big = rng.random() < 0.15 and attempt < 30 and hi > 4
        def draw(n):
            if n[0] == 'p' and len(n) == 2: return rng.choice([0, 0, 1, 1, 2, 3])
            if n in ('mh', 'mw'): return rng.choice([0, 1, 1, 2])
            if n in ('sh', 'sw'): return rng.choice([1, 1, 2, 2, 3, 4])
            if n in ('kh', 'kw'): return rng.choice([1, 2, 2, 3, 3, 4, 5])
            if n in ('HP', 'WP'): return rng.randint(1, 2*hi)
            if n in ('i0', 'i1', 'i2', 'i3', 'bt', 'ch'): return rng.randint(0, hi-1)
            if consts and rng.random() < 0.25: return max(0, rng.choice(consts) + rng.choice([-1, 0, 0, 1]))
            if big and rng.random() < 0.4: return rng.randint(1, 40)
            return rng.randint(1, hi)
        order = [n for n in names if n not in env]
        rng.shuffle(order)
        if wide and attempt < 60:
            small = draw; chosen = set(rng.sample(order, min(len(order), rng.choice([1, 1, 2, 2]))))
            w = rng.choice(WIDE)
            follow = {x for n in chosen if n in ('sh', 'sw', 'kh', 'kw', 'mh', 'mw') for x in (n[1].upper(), n[1].upper() + 'P')}   # room for a wide window or stride
            def draw(n):
                if n in chosen and not (n[0] == 'p' and len(n) == 2 and rng.random() < 0.5): return w + rng.choice([0, 0, 0, 1, -1, 5])
                if n in follow and n not in chosen and rng.random() < 0.8: return rng.choice([1, 2, 2, 3])*w + rng.choice([0, 0, 1, 2, 5])
                return small(n) if n in ('mh', 'mw', 'sh', 'sw', 'kh', 'kw', 'i0', 'i1', 'i2', 'i3', 'bt', 'ch') else rng.choice([1, 1, 1, 2]) if n[0] != 'p' else rng.choice([0, 1])
        dep = set()
        for r in rules:
            if isinstance(r, tuple):
                q = [varof(a) for a in free_atoms(r[2])]
                if len(q) == 1: dep.add(q[0])
        for r in rules:
            if not isinstance(r, tuple):
                for k, c in sorted(r.m.items(), key=lambda kc: -kc[0][0] if kc[0] else 0):
                    if len(k) == 1 and c in (1, -1) and varof(k[0]) in ('KH', 'KW', 'n'): dep.add(varof(k[0])); break
        dep -= {'nh', 'mh', 'mw'}
        ok = True
        for n in order:
            if n not in dep: env[n] = draw(n)
        for _ in range(4):
            for r in rules:
                E = Ev(dict(env), {})
                try:
                    if isinstance(r, tuple):
                        unk = [varof(a) for a in free_atoms(r[2]) if varof(a) not in env]
                        if len(unk) != 1: continue
                        d = E.poly(r[1])
                        if d <= 0: ok = False; break
                        v = E.poly(r[0])//d
                        env[unk[0]] = 0; c = Ev(dict(env), {}).poly(r[2]); env[unk[0]] = v - c
                    else:
                        unk = [varof(a) for a in free_atoms(r) if varof(a) not in env]
                        if len(unk) != 1: continue
                        env[unk[0]] = 0; c0 = Ev(dict(env), {}).poly(r); env[unk[0]] = 1; c1 = Ev(dict(env), {}).poly(r) - c0
                        if c1 == 0 or -c0 % c1: ok = False; break
                        env[unk[0]] = -c0//c1
                except KeyError: continue
            if not ok: break
        if not ok or any(n not in env for n in names): continue
        for p, q in getattr(cf, 'twin', ()):
            if rng.random() < 0.9: env[varof(next(iter(q.m))[0])] = env[varof(next(iter(p.m))[0])]
        try:
            if all(Ev(dict(env), {}).form(f) for f in cf.facts if not (isinstance(f, tuple) and f[0] == 'fc')): return env
        except Skip: continue
    return None

def f32(x): return struct.unpack('f', struct.pack('f', x))[0]
STYLES = ['int', 'normal', 'neg', 'pos', 'mixed', 'const', 'big', 'zeros', 'special']
def values(rng, n, style, special=()):
    if style == 'int': return [float(rng.randint(-9, 9)) for _ in range(n)]
    if style == 'normal': return [f32(rng.gauss(0, 2)) for _ in range(n)]
    if style == 'neg': return [f32(-abs(rng.gauss(3, 2)) - 0.5) for _ in range(n)]
    if style == 'pos': return [f32(abs(rng.gauss(3, 2)) + 0.25) for _ in range(n)]
    if style == 'mixed': return [rng.choice([0.0, 1.0, -1.0, f32(rng.gauss(0, 50)), f32(rng.gauss(0, 0.01))]) for _ in range(n)]
    if style == 'wide': return [f32(rng.choice([rng.gauss(0, 2), rng.uniform(-1000, 1000), rng.uniform(900, 1000), 0.0])) for _ in range(n)]
    if style == 'const': v = f32(rng.gauss(0, 3)); return [v]*n
    if style == 'big': return [f32(rng.gauss(0, 1500)) for _ in range(n)]
    if style == 'zeros': return [0.0 if rng.random() < 0.7 else f32(rng.gauss(0, 2)) for _ in range(n)]
    sp = list(special) or [0.0]
    return [f32(rng.choice(sp) + rng.choice([0.0, 0.0, 1e-3, -1e-3, 0.5, -0.5])) if rng.random() < 0.5 else f32(rng.gauss(0, 2)) for _ in range(n)]

def make_input(cf, rng, env, style=None, special=(), history=0, twice=0):
    """(text, arrays, scalars)"""
    E = Ev(dict(env), {})
    lines = ['s ' + cf.scenario]; u = {}
    for k, v in cf.bind.items():
        u[k] = E.poly(v) if isinstance(v, Poly) else int(v)
    if history: u['history'] = history
    if twice: u['twice'] = 1
    arrays = {}
    style = style or rng.choice(STYLES)
    tn = [k[:-3] for k in u if k.endswith('.nd')]
    total = 0
    for n in tn:
        c = 1
        for i in range(u[n + '.nd']): c *= u['%s.%d' % (n, i)]
        total += c
        if total > 150000: return None
        st = style
        if cf.scenario == 'bn' and n == 'var': st = 'pos'
        if cf.xmax and st in ('big', 'mixed'): st = 'wide'
        if n == 'out' and cf.scenario not in ('padinto',): st = rng.choice(['big', 'const', 'int', 'special'])
        arrays[n] = values(rng, c, st, special)
    if getattr(cf, 'equality', None):
        a, b = arrays['a'], arrays['b']; m = min(len(a), len(b)); d = rng.choice([0.0, 5e-5, 9e-5])
        if rng.random() < 0.5: a[:] = [x if abs(x) < 50 else 1.0 for x in a]
        for i in range(m): b[i] = f32(a[i] + rng.choice([0.0, d, -d]))
        if m and rng.random() < 0.6: i = rng.choice([0, m - 1, rng.randrange(m)]); b[i] = f32(a[i] + rng.choice([1.0, -1.0, 2e-4, -2e-4, 1.2e-4]))
    fl = {'leak': rng.choice([0.01, 0.1, 0.2, 1.5, -0.5]), 'min': rng.choice([-1.0, -2.5, 0.0, 0.5]), 'max': rng.choice([1.0, 6.0, 2.5, 0.5]),
          'alpha': rng.choice([0.1, 1e-4, 2.0]), 'beta': rng.choice([0.5, 0.75, 1.0, 2.0]), 'eps': rng.choice([1e-5, 1e-3, 0.1]),
          'fill': rng.choice([0.0, 0.0, 1.0, -3.5, 7.25]), 'factor': rng.choice([0.0, 1.0, -1.5, 0.25, 3.0])}
    for k, v in fl.items(): arrays['f:' + k] = [f32(v)]
    E2 = Ev(dict(env), arrays)
    for f in cf.facts:
        if isinstance(f, tuple) and f[0] == 'fc' and not E2.form(f): return None
    for k, v in u.items(): lines.append('u %s %d' % (k, v))
    for k, v in fl.items(): lines.append('f %s %s' % (k, f32(v).hex()))
    for n in tn: lines.append('t %s %s' % (n, ' '.join(x.hex() for x in arrays[n])))
    return '\n'.join(lines) + '\n', arrays, u

def some(rngs, most=400):
    """all coordinates of a small output; the borders and a spread of the inner ones of a large one"""
    n = 1
    for r in rngs: n *= len(r)
    if n <= most: return rngs
    rngs = [list(r) for r in rngs]; rng = random.Random(n)
    while n > most:
        r = max(rngs, key=len); k = max(5, len(r)//2)
        if len(r) <= 5: break
        n = n//len(r)*k; r[2:-2] = sorted(rng.sample(r[2:-2], k - 4))
    return rngs
def cells(cf, env):
    """coordinates of every output element with their bindings"""
    import itertools
    E = Ev(dict(env), {})
    for cellvars in getattr(cf, 'cellsets', None) or ([cf.cellvars] if hasattr(cf, 'cellvars') else []):
        x, fs, extra = cellvars()
        vs = []
        for p in list(x) + [e for e in extra if isinstance(e, Poly)]:
            for a in free_atoms(p):
                n = varof(a)
                if n not in env and n not in vs: vs.append(n)
        rngs = []
        for n in vs:
            if n == 'x2': rngs.append(range(E.poly(P_(cf.dims[2]))))
            elif n == 'x3': rngs.append(range(E.poly(P_(cf.dims[3]))))
            elif n == 'xg': rngs.append(range(env.get('G', 1)))
            elif n == 'xr': rngs.append(range(env['co'] if cf.scenario == 'conv' else env['c%d' % extra[0]]))
            else: raise Skip(n)
        want = cf.spec(x, extra)
        for vals in itertools.product(*some(rngs)): yield [Ev({**env, **dict(zip(vs, vals))}, {}).poly(P_(c)) for c in x], dict(zip(vs, vals)), want
    if not hasattr(cf, 'cellsets') and not hasattr(cf, 'cellvars'):
        x = []; vs = []; rngs = []
        for i, d in enumerate(cf.dims):
            if P_(d) == ONE: x.append(ZERO)
            else: x.append(var('x%d' % i)); vs.append('x%d' % i); rngs.append(range(E.poly(P_(d))))
        want = cf.spec(x)
        for vals in itertools.product(*some(rngs)):
            e = dict(zip(vs, vals))
            yield [e.get('x%d' % i, 0) for i in range(len(cf.dims))], e, want

# failing aspects -> obligation kinds
def judge(cf, env, arrays, u, out, aspects=None):
    """list of (aspect, message) for one concrete run"""
    bad = []
    c = out.crash()
    if c: return [('termination' if out.rc == 'timeout' else 'memory', c)]
    if out.rc == 99: return [('harness', out.err[-300:])]
    if cf.refuse:
        if not (isinstance(out.rc, int) and out.rc not in (0, 86, 99)) or out.end: bad.append(('refuse', 'an unsupported configuration is not refused (status %s)' % out.rc))
        else:
            for n, v in out.tensors.items():
                if n in arrays and not same(v, arrays[n]): bad.append(('refuse', 'tensor %s is modified before the refusal' % n))
        return bad
    if not out.end or not out.done:
        return [('exit', 'a supported configuration terminates the process (status %s): %s' % (out.rc, out.err.strip()[-200:]))]
    if out.live: bad.append(('leak', '%d blocks not released' % out.live))
    for n, v in out.tensors.items():
        if n != cf.out and n in arrays and not same(v, arrays[n]): bad.append(('frame', 'tensor %s is modified' % n))
    E = Ev(dict(env), arrays)
    if cf.outs == 'returned':
        if dict(out.outs).get('returned') != dict(out.outs).get('dest'): bad.append(('value', 'the destination is not returned'))
    elif cf.outs is not None:
        if len(out.outs) != len(cf.outs): bad.append(('value', 'number of reported values'))
        for (n, got), (n2, want) in zip(out.outs, cf.outs):
            w = E.poly(want)
            if isinstance(got, tuple):
                if got[0] != 'data' or int(got[2]) != w: bad.append(('value', '%s addresses %s, specified element %d' % (n, got, w)))
            elif got != w: bad.append(('value', '%s is %s, specified %s' % (n, got, w)))
    if getattr(cf, 'equality', None):
        A, B = [[E.poly(P_(d)) for d in x] for x in cf.equality]
        w = A == B and all(abs(f32(x - y)) < f32(0.0001) for x, y in zip(arrays['a'], arrays['b']))
        if dict(out.outs).get('ret') != int(w): bad.append(('post', 'comparison yields %s, specified %d' % (dict(out.outs).get('ret'), w)))
    if cf.spec is not None and cf.out in out.tensors and (aspects is None or 'post' in aspects):
        got = out.tensors[cf.out]; dims = [E.poly(P_(d)) for d in cf.dims]
        n = 1
        for d in dims: n *= d
        if len(got) != n: bad.append(('value', '%s has %d elements, specified %d' % (cf.out, len(got), n))); return bad
        cache = {}
        for x, e, want in cells(cf, env):
            i = 0
            for d, xi in zip(dims, x): i = i*d + xi
            try: v, err = Ev({**env, **e}, arrays, cache, set(e)).term(want)
            except (Skip, Amb): continue
            if v != v or abs(v) > 3e38: continue
            tol = 16*err + 1e-37
            if not (abs(got[i] - v) <= tol):
                bad.append(('post', '%s%s is %r, specified %r' % (cf.out, list(x), got[i], v))); break
    return bad
def same(a, b): return len(a) == len(b) and all(x == y or (x != x and y != y) for x, y in zip(a, b))
