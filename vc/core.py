"""Symbolic core: interned atoms, integer polynomials, formulas, float terms, and the prover.

Integers are mathematical (Z).  Machine arithmetic is related to Z by the executor, which proves
that a value is in range wherever the machine observes it (compare, divide, extend, index).

Atoms (tuples, interned to ints):
  ('v', name)                      integer variable
  ('ild', arr, poly)               integer array cell arr[poly] of the initial memory
  ('div', a, b)                    floor(a/b), for a >= 0, b > 0
  ('wrap', w, signed, p)           p reduced mod 2^w into the (un)signed range
  ('wq', w, signed, p)             the quotient that goes with it
  ('cnt', k, cont)                 trip count: least k >= 0 with not cont(k)      (cont downward closed)
  ('fn', name, args..)             uninterpreted integer function of polys / terms
Formulas: True, False, ('le', p) p<=0, ('eq', p) p==0, ('and', fs), ('or', fs), ('not', f),
  ('fc', pred, a, b) pred in olt ole oeq uno, ('ba', name, args...), ('raw', pred, w, a, b)
Float terms: ('c', ty, val), ('ld', arr, poly, ty), ('op', name, ty, args...), ('call', name, ty, args...),
  ('cast', toty, x), ('i2f', ty, poly), ('ite', cond, a, b), ('fold', k, dom, acc, body, init, ty),
  ('sym', name, ty)
"""
import time, itertools
import z3
_z3_assert = z3.z3core.Z3_solver_assert

_atoms = []; _aid = {}
def atom(t):
    i = _aid.get(t)
    if i is None:
        i = len(_atoms); _atoms.append(t); _aid[t] = i
    return i
def atom_of(i): return _atoms[i]

class Poly:
    __slots__ = ('m', '_h')
    def __init__(self, m):
        self.m = m; self._h = None
    def __hash__(self):
        if self._h is None: self._h = hash(frozenset(self.m.items()))
        return self._h
    def __eq__(self, o): return isinstance(o, Poly) and self.m == o.m
    def __add__(self, o):
        if isinstance(o, int): o = const(o)
        r = dict(self.m)
        for k, v in o.m.items():
            nv = r.get(k, 0)+v
            if nv: r[k] = nv
            else: r.pop(k, None)
        return Poly(r)
    __radd__ = __add__
    def __neg__(self): return Poly({k: -v for k, v in self.m.items()})
    def __sub__(self, o):
        if isinstance(o, int): o = const(o)
        return self + (-o)
    def __rsub__(self, o): return const(o) - self
    def __mul__(self, o):
        if isinstance(o, int):
            return Poly({k: v*o for k, v in self.m.items()}) if o else ZERO
        r = {}
        for k1, v1 in self.m.items():
            for k2, v2 in o.m.items():
                k = tuple(sorted(k1+k2)); nv = r.get(k, 0)+v1*v2
                if nv: r[k] = nv
                else: r.pop(k, None)
        return Poly(r)
    __rmul__ = __mul__
    def is_const(self): return not self.m or (len(self.m) == 1 and () in self.m)
    def cval(self): return self.m.get((), 0)
    def atoms(self):
        s = set()
        for k in self.m: s.update(k)
        return s
    def degree(self): return max([len(k) for k in self.m] or [0])
    def coeffs_in(self, a):
        """as polynomial in atom a: {power: Poly}"""
        r = {}
        for k, v in self.m.items():
            d = k.count(a)
            kk = tuple(x for x in k if x != a)
            r.setdefault(d, {})[kk] = v
        return {d: Poly(m) for d, m in r.items()}
    def __repr__(self): return show(self)

ZERO = Poly({}); 
def const(c): return Poly({(): c}) if c else ZERO
ONE = const(1)
def var(name): return Poly({(atom(('v', name)),): 1})
def apoly(t): return Poly({(atom(t),): 1})
def P_(x): return const(x) if isinstance(x, int) else x

def show_atom(t):
    k = t[0]
    if k == 'v': return t[1]
    if k == 'ild': return '%s[%s]' % (t[1], show(t[2]))
    if k == 'div': return '(%s div %s)' % (show(t[1]), show(t[2]))
    if k == 'wrap': return 'wrap%s%d(%s)' % ('s' if t[2] else 'u', t[1], show(t[3]))
    if k == 'wq': return 'wq(%s)' % show(t[3])
    if k == 'cnt': return 'cnt[%s: %s]' % (show_atom(_atoms[t[1]]), show(t[2]))
    return str(k) + '(' + ','.join(show(x) for x in t[1:]) + ')'
def show(x):
    if isinstance(x, Poly):
        if not x.m: return '0'
        out = []
        for k, v in sorted(x.m.items(), key=lambda kv: (-len(kv[0]), kv[0])):
            s = '*'.join(show_atom(_atoms[a]) for a in k)
            if not k: s = str(abs(v))
            elif abs(v) != 1: s = '%d*%s' % (abs(v), s)
            out.append((' - ' if v < 0 else ' + ') + s)
        r = ''.join(out)
        return r[3:] if r.startswith(' + ') else '-'+r[3:]
    if isinstance(x, tuple) and x:
        k = x[0]
        if k == 'le': return '%s <= 0' % show(x[1])
        if k == 'eq': return '%s == 0' % show(x[1])
        if k == 'and': return '(' + ' & '.join(map(show, x[1])) + ')'
        if k == 'or': return '(' + ' | '.join(map(show, x[1])) + ')'
        if k == 'not': return '!' + show(x[1])
        if k == 'fc': return '(%s %s %s)' % (show(x[2]), x[1], show(x[3]))
        if k == 'raw': return '(%s %s%d %s)' % (show(x[3]), x[1], x[2], show(x[4]))
        if k == 'c': return repr(x[2])
        if k == 'ld': return '%s[%s]' % (x[1], show(x[2]))
        if k == 'op': return x[1] + '(' + ', '.join(map(show, x[3:])) + ')'
        if k == 'call': return x[1] + '(' + ', '.join(map(show, x[3:])) + ')'
        if k == 'cast': return x[1] + '(' + show(x[2]) + ')'
        if k == 'i2f': return x[1] + '(' + show(x[2]) + ')'
        if k == 'ite': return 'ite(%s, %s, %s)' % tuple(map(show, x[1:]))
        if k == 'fold': return 'fold[%s in %s; %s := %s](%s)' % (show_atom(_atoms[x[1]]), show(x[2]), x[3], show(x[5]), show(x[4]))
        if k == 'sym': return x[1]
        if k == 'ba': return x[1] + ('(' + ','.join(map(show, x[2:])) + ')' if len(x) > 2 else '')
        return '(' + ' '.join(map(show, x)) + ')'
    return str(x)

# ---------------------------------------------------------------- formulas
def le(a, b=ZERO):
    p = P_(a) - P_(b)
    if p.is_const(): return p.cval() <= 0
    # normalise by gcd of non-constant coefficients
    return ('le', norm_le(p))
def lt(a, b): return le(P_(a) + 1, b)
def ge(a, b=ZERO): return le(b, a)
def gt(a, b): return lt(b, a)
def eq(a, b=ZERO):
    p = P_(a) - P_(b)
    if p.is_const(): return p.cval() == 0
    # sign-normalise
    k = min(p.m)
    lead = sorted(p.m.items(), key=lambda kv: (-len(kv[0]), kv[0]))[0][1]
    if lead < 0: p = -p
    return ('eq', p)
def ne(a, b): return neg(eq(a, b))
from math import gcd
def norm_le(p):
    g = 0
    for k, v in p.m.items():
        if k: g = gcd(g, v)
    if g > 1:
        c = p.m.get((), 0)
        m = {k: v//g for k, v in p.m.items() if k}
        c2 = -((-c)//g)  # ceil(c/g):  g*q + c <= 0  <=> q <= floor(-c/g)
        if c2: m[()] = c2
        return Poly(m)
    return p
def neg(f):
    if f is True: return False
    if f is False: return True
    if f[0] == 'not': return f[1]
    if f[0] == 'le': return le(ONE - f[1])      # p>=1  <=> 1-p<=0
    if f[0] == 'and': return disj([neg(x) for x in f[1]])
    if f[0] == 'or': return conj([neg(x) for x in f[1]])
    return ('not', f)
def conj(fs):
    out = []
    for f in fs:
        if f is True: continue
        if f is False: return False
        if f[0] == 'and':
            for g in f[1]:
                if g not in out: out.append(g)
        elif f not in out: out.append(f)
    for f in out:
        if neg(f) in out: return False
    if not out: return True
    if len(out) == 1: return out[0]
    return ('and', tuple(out))
def disj(fs):
    out = []
    for f in fs:
        if f is False: continue
        if f is True: return True
        if f[0] == 'or':
            for g in f[1]:
                if g not in out: out.append(g)
        elif f not in out: out.append(f)
    for f in out:
        if f[0] in ('le', 'eq', 'fc', 'ba', 'not') and neg(f) in out: return True
    if not out: return False
    if len(out) == 1: return out[0]
    return ('or', tuple(out))
def implies(a, b): return disj([neg(a), b])
def conjuncts(f):
    if f is True: return []
    if isinstance(f, tuple) and f[0] == 'and': return list(f[1])
    return [f]

# ---------------------------------------------------------------- substitution / traversal
def subst(x, s, memo=None):
    """s: {atom id: Poly} and {('sym',name): term}"""
    if not s: return x
    if memo is None: memo = {}
    return _subst(x, s, memo)
def _subst(x, s, memo):
    if isinstance(x, Poly):
        k = x
        r = memo.get(k)
        if r is not None: return r
        acc = {}
        plain = Poly({})
        out = ZERO
        changed = False
        keep = {}
        for mono, c in x.m.items():
            fac = None; rest = []
            for a in mono:
                v = _subst_atom(a, s, memo)
                if v is None: rest.append(a)
                else:
                    fac = v if fac is None else fac*v
                    changed = True
            if fac is None:
                keep[mono] = keep.get(mono, 0) + c
            else:
                out = out + fac * Poly({tuple(rest): c})
        if not changed: r = x
        else: r = out + Poly({k: v for k, v in keep.items() if v})
        memo[k] = r
        return r
    if isinstance(x, tuple) and x:
        r = memo.get(x)
        if r is not None: return r
        k = x[0]
        if k == 'sym':
            r = s.get(('sym', x[1]), x)
        elif k == 'le': r = le(_subst(x[1], s, memo))
        elif k == 'eq': r = eq(_subst(x[1], s, memo))
        elif k == 'and': r = conj([_subst(y, s, memo) for y in x[1]])
        elif k == 'or': r = disj([_subst(y, s, memo) for y in x[1]])
        elif k == 'not': r = neg(_subst(x[1], s, memo))
        elif k == 'ite':
            c = _subst(x[1], s, memo)
            r = mk_ite(c, _subst(x[2], s, memo), _subst(x[3], s, memo))
        elif k == 'fold':
            r = ('fold', x[1], _subst(x[2], s, memo), x[3], _subst(x[4], s, memo), _subst(x[5], s, memo), x[6])
        elif k == 'op': r = mk_op(x[1], x[2], *[_subst(y, s, memo) for y in x[3:]])
        else:
            r = tuple([k] + [_subst(y, s, memo) if isinstance(y, (Poly, tuple)) else y for y in x[1:]])
        memo[x] = r
        return r
    return x
def _subst_atom(a, s, memo):
    """None if unchanged, else Poly"""
    if a in s: return s[a]
    t = _atoms[a]
    if t[0] == 'v': return None
    key = ('A', a)
    if key in memo: return memo[key]
    new = tuple([t[0]] + [_subst(y, s, memo) if isinstance(y, (Poly, tuple)) else y for y in t[1:]])
    if new == t: r = None
    elif new[0] == 'div': r = mk_div(new[1], new[2])
    elif new[0] == 'wrap': r = mk_wrap(new[1], new[2], new[3])
    else: r = apoly(new)
    memo[key] = r
    return r

def free_atoms(x, out=None, seen=None):
    """all atoms (transitively, including those inside atoms)"""
    if out is None: out = set(); seen = set()
    if isinstance(x, Poly):
        for a in x.atoms():
            if a not in out:
                out.add(a)
                for y in _atoms[a][1:]:
                    if isinstance(y, (Poly, tuple)): free_atoms(y, out, seen)
    elif isinstance(x, tuple):
        if x in seen: return out
        seen.add(x)
        for y in x:
            if isinstance(y, (Poly, tuple)): free_atoms(y, out, seen)
    return out
def free_syms(x, out=None, seen=None):
    if out is None: out = set(); seen = set()
    if isinstance(x, Poly):
        for a in x.atoms():
            if ('A', a) in seen: continue
            seen.add(('A', a))
            for y in _atoms[a][1:]:
                if isinstance(y, (Poly, tuple)): free_syms(y, out, seen)
    elif isinstance(x, tuple):
        if x in seen: return out
        seen.add(x)
        if x and x[0] == 'sym': out.add(x[1])
        for y in x:
            if isinstance(y, (Poly, tuple)): free_syms(y, out, seen)
    return out
def arrays_in(x, out=None, seen=None):
    if out is None: out = set(); seen = set()
    if isinstance(x, Poly):
        for a in x.atoms():
            if ('A', a) in seen: continue
            seen.add(('A', a))
            t = _atoms[a]
            if t[0] == 'ild': out.add(t[1])
            for y in t[1:]:
                if isinstance(y, (Poly, tuple)): arrays_in(y, out, seen)
    elif isinstance(x, tuple):
        if x in seen: return out
        seen.add(x)
        if x and x[0] == 'ld': out.add(x[1])
        for y in x:
            if isinstance(y, (Poly, tuple)): arrays_in(y, out, seen)
    return out

# ---------------------------------------------------------------- constructors
def exact_div_poly(a, b):
    """polynomial q with a == q*b, or None (b a monomial, or general long division)"""
    if b.is_const():
        c = b.cval()
        if c and all(v % c == 0 for v in a.m.values()): return Poly({k: v//c for k, v in a.m.items()})
        return None
    if not a.m: return ZERO
    # long division by leading monomial (deg-lex)
    key = lambda k: (len(k), k)
    lb = max(b.m, key=key); cb = b.m[lb]
    q = ZERO; r = a
    for _ in range(200):
        if not r.m: return q
        lr = max(r.m, key=key)
        rest = list(lr); ok = True
        for x in lb:
            if x in rest: rest.remove(x)
            else: ok = False; break
        if not ok or r.m[lr] % cb: return None
        t = Poly({tuple(rest): r.m[lr]//cb})
        q = q + t; r = r - t*b
    return None
DIV_ABBR = {}     # (a, b) -> Poly: names given to floor(a/b); their defining facts are part of the precondition
def mk_div(a, b):
    a = P_(a); b = P_(b)
    if b == ONE: return a
    r = DIV_ABBR.get((a, b))
    if r is not None: return r
    if a.is_const() and b.is_const() and b.cval() > 0: return const(a.cval()//b.cval())
    q = exact_div_poly(a, b)
    if q is not None: return q
    if b.is_const() and b.cval() > 0:
        c = b.cval()
        if len(a.m) == 1:
            (mono, cf), = a.m.items()
            t = atom_of(mono[0]) if len(mono) == 1 else ('',)
            if cf == 1 and t[0] == 'div' and t[2].is_const() and t[2].cval() > 0: return mk_div(t[1], const(t[2].cval()*c))
            g = gcd(cf, c)
            if g > 1: return mk_div(Poly({mono: cf//g}), const(c//g))
        elif a.m:
            g = c
            for v in a.m.values(): g = gcd(g, v)
            if g > 1: return mk_div(Poly({k: v//g for k, v in a.m.items()}), const(c//g))
        # split off multiples
        hi = {}; lo = {}
        for k, v in a.m.items():
            qq, rr = divmod(v, c)
            if k == ():
                if rr: lo[k] = rr
                if qq: hi[k] = qq
            elif rr == 0: hi[k] = qq
            else: lo[k] = v
        if hi and set(hi) != {()} or (hi and lo): 
            lo = Poly(lo); hi = Poly(hi)
            if lo.is_const(): return hi + const(lo.cval()//c)
            return hi + apoly(('div', lo, b))
        if hi: return Poly(hi)
    return apoly(('div', a, b))
def mk_wrap(w, signed, p):
    if p.is_const():
        v = p.cval() % (1 << w)
        if signed and v >= 1 << (w-1): v -= 1 << w
        return const(v)
    return apoly(('wrap', w, signed, p))
def mk_ite(c, a, b):
    if c is True: return a
    if c is False: return b
    if a == b: return a
    if c[0] == 'not': return ('ite', c[1], b, a)
    return ('ite', c, a, b)
def fc(ty, v): return ('c', ty, float(v))
COMM = {'add', 'mul'}
def is_f32(v):
    import struct
    try: return struct.unpack('f', struct.pack('f', v))[0] == v or v != v
    except OverflowError: return False
def mk_op(name, ty, *args):
    if name == 'neg' and args[0][0] == 'c': return ('c', ty, -args[0][2])
    return ('op', name, ty) + args
def mk_cast(toty, x, fromty):
    if toty == fromty: return x
    if x[0] == 'c':
        if toty != 'float' or is_f32(x[2]): return ('c', toty, x[2])
    if x[0] == 'ite': return mk_ite(x[1], mk_cast(toty, x[2], fromty), mk_cast(toty, x[3], fromty))
    if x[0] == 'cast' and x[1] == fromty and ORD[fromty] > ORD[fty(x[2])] and ORD[toty] >= ORD[fty(x[2])]:
        # widening then anything at least as wide as the original: exact
        return mk_cast(toty, x[2], fty(x[2]))
    return ('cast', toty, x)
ORD = {'half': 0, 'float': 1, 'double': 2, 'x86_fp80': 3}
def fty(t):
    k = t[0]
    if k in ('c', 'cast', 'i2f'): return t[1]
    if k in ('op', 'call'): return t[2]
    if k == 'ld': return t[3]
    if k == 'sym': return t[2]
    if k == 'ite': return fty(t[2])
    if k == 'fold': return t[6]
    raise ValueError(t)
def mk_fc(pred, a, b):
    """canonical float comparison"""
    # exact widening on both sides does not change a comparison
    while a[0] == 'cast' and b[0] in ('cast', 'c') and a[1] != 'float':
        fa = fty(a[2])
        if ORD[fa] >= ORD[a[1]]: break
        if b[0] == 'cast':
            if fty(b[2]) != fa: break
            a = a[2]; b = b[2]
        else:
            if fa == 'float' and not is_f32(b[2]): break
            a = a[2]; b = ('c', fa, b[2])
    while b[0] == 'cast' and a[0] == 'c' and b[1] != 'float':
        fb = fty(b[2])
        if ORD[fb] >= ORD[b[1]]: break
        if fb == 'float' and not is_f32(a[2]): break
        b = b[2]; a = ('c', fb, a[2])
    if pred == 'false': return False
    if pred == 'true': return True
    if a[0] == 'c' and b[0] == 'c':
        x, y = a[2], b[2]; nan = x != x or y != y
        base = {'eq': x == y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y, 'ne': x != y and not nan}
        if pred == 'ord': return not nan
        if pred == 'uno': return nan
        if pred[0] == 'o': return (not nan) and base[pred[1:]]
        return nan or base[pred[1:]]
    if pred == 'olt': return ('fc', 'olt', a, b)
    if pred == 'ole': return ('fc', 'ole', a, b)
    if pred == 'ogt': return ('fc', 'olt', b, a)
    if pred == 'oge': return ('fc', 'ole', b, a)
    if pred == 'oeq':
        return ('fc', 'oeq', a, b)
    if pred == 'uno': return ('fc', 'uno', a, b)
    if pred == 'ord': return neg(('fc', 'uno', a, b))
    if pred == 'une': return neg(('fc', 'oeq', a, b))
    if pred == 'ugt': return neg(('fc', 'ole', a, b))
    if pred == 'uge': return neg(('fc', 'olt', a, b))
    if pred == 'ult': return neg(('fc', 'ole', b, a))
    if pred == 'ule': return neg(('fc', 'olt', b, a))
    if pred == 'one': return disj([('fc', 'olt', a, b), ('fc', 'olt', b, a)])
    if pred == 'ueq': return neg(disj([('fc', 'olt', a, b), ('fc', 'olt', b, a)]))
    raise ValueError(pred)

_fresh = itertools.count()
def fresh(base): return '%s!%d' % (base, next(_fresh))

# ---------------------------------------------------------------- prover
class Stats:
    def __init__(self):
        self.queries = 0; self.z3_time = 0.0; self.by = {}; self.cache_hits = 0
    def hit(self, who): self.by[who] = self.by.get(who, 0)+1
STATS = Stats()

def atom_axioms(a):
    t = _atoms[a]; x = Poly({(a,): 1})
    if t[0] == 'div':
        n, d = t[1], t[2]
        dx = d*x
        body = conj([le(dx, n), lt(n, dx + d), ge(x)])
        return [implies(conj([ge(n), ge(d, ONE)]), body)] if not (d.is_const() and d.cval() > 0) else \
               [implies(ge(n), body)]
    if t[0] == 'wrap':
        w, s, p = t[1], t[2], t[3]
        q = apoly(('wq', w, s, p))
        lo, hi = (-(1 << (w-1)), (1 << (w-1))-1) if s else (0, (1 << w)-1)
        return [ge(x, const(lo)), le(x, const(hi)), eq(x, p - q*(1 << w))]
    if t[0] == 'cnt':
        k, cont = t[1], t[2]
        return [ge(x), neg(subst(cont, {k: x})), disj([le(x), subst(cont, {k: x-1})])]
    if t[0] == 'ild':
        r = ARR_RANGE.get(t[1])
        if r: return [ge(x, const(r[0])), le(x, const(r[1]))]
    if t[0] == 'fn' and t[1] in FN_RANGE:
        lo, hi = FN_RANGE[t[1]]
        return [ge(x, const(lo)), le(x, const(hi))]
    return []
ARR_RANGE = {}    # array name -> (lo, hi) of its integer cells
FN_RANGE = {}
FC_AX = True

class Z3Tr:
    """persistent translation of formulas to z3; nonlinear monomials abstracted (lin) or real products"""
    def __init__(self, lin):
        self.lin = lin; self.monos = {}; self.cache = {}; self.ints = {}
        self.fcs = {}       # formula -> frozenset of comparison/boolean keys in it
    def int(self, a):
        r = self.ints.get(a)
        if r is None: r = self.ints[a] = z3.Int('a%d' % a)
        return r
    def mono(self, m):
        if len(m) == 1: return self.int(m[0])
        r = self.monos.get(m)
        if r is None:
            if self.lin: r = z3.Int('m_' + '_'.join(map(str, m)))
            else:
                r = self.int(m[0])
                for a in m[1:]: r = r*self.int(a)
            self.monos[m] = r
        return r
    def poly(self, p):
        r = self.cache.get(p)
        if r is None:
            terms = []
            for k, v in p.m.items():
                terms.append(z3.IntVal(v) if not k else (self.mono(k) if v == 1 else v*self.mono(k)))
            r = z3.IntVal(0) if not terms else terms[0] if len(terms) == 1 else z3.Sum(terms)
            self.cache[p] = r
        return r
    def f(self, x):
        if x is True: return z3.BoolVal(True)
        if x is False: return z3.BoolVal(False)
        r = self.cache.get(x)
        if r is not None: return r
        k = x[0]
        if k == 'le': r = self.poly(x[1]) <= 0
        elif k == 'eq': r = self.poly(x[1]) == 0
        elif k == 'and': r = z3.And([self.f(y) for y in x[1]])
        elif k == 'or': r = z3.Or([self.f(y) for y in x[1]])
        elif k == 'not': r = z3.Not(self.f(x[1]))
        else: r = z3.Bool('b%d' % len(self.cache))
        self.cache[x] = r
        return r
_bk = {}
def bool_keys(f):
    if f is True or f is False: return frozenset()
    r = _bk.get(f)
    if r is None:
        k = f[0]
        if k in ('le', 'eq'): r = frozenset()
        elif k in ('and', 'or'): r = frozenset().union(*[bool_keys(g) for g in f[1]])
        elif k == 'not': r = bool_keys(f[1])
        else: r = frozenset([f])
        _bk[f] = r
    return r
_TR = {}
def translator(lin):
    if lin not in _TR: _TR[lin] = Z3Tr(lin)
    return _TR[lin]

_prove_cache = {}
def fc_axioms(bools):
    """order facts for the float comparisons present (sound for IEEE)"""
    out = []
    keys = [k for k in bools if k[0] == 'fc']
    ks = set(keys)
    for k in keys:
        _, p, a, b = k
        if p == 'olt':
            if ('fc', 'olt', b, a) in ks and repr(a) <= repr(b): out.append(disj([neg(k), neg(('fc', 'olt', b, a))]))
            if ('fc', 'ole', b, a) in ks: out.append(disj([neg(k), neg(('fc', 'ole', b, a))]))
            if ('fc', 'ole', a, b) in ks: out.append(implies(k, ('fc', 'ole', a, b)))
            if ('fc', 'oeq', a, b) in ks: out.append(disj([neg(k), neg(('fc', 'oeq', a, b))]))
        if p in ('olt', 'ole', 'oeq'):
            for u in (('fc', 'uno', a, b), ('fc', 'uno', b, a)):
                if u in ks: out.append(disj([neg(k), neg(u)]))
        # totality when no operand is NaN
        if p == 'olt' and ('fc', 'ole', b, a) in ks:
            nans = [nn for nn in (a, b) if not non_nan(nn)]
            if not nans: out.append(disj([k, ('fc', 'ole', b, a)]))
    return out
NONNAN_ARRAYS = set()
def non_nan(t):
    if t[0] == 'c': return t[2] == t[2]
    if t[0] == 'ld': return t[1] in NONNAN_ARRAYS
    if t[0] == 'sym': return t[1] in NONNAN_ARRAYS
    if t[0] == 'ite': return non_nan(t[2]) and non_nan(t[3])
    if t[0] == 'op' and t[1] in ('max', 'min'): return all(non_nan(x) for x in t[3:])
    return False

def relevant_atoms(fs):
    s = set()
    for f in fs: free_atoms(f, s, set())
    return s

class Model:
    def __init__(self, vals): self.vals = vals

def _collect(facts, goal):
    fs = list(facts)
    todo = set(); done = set()
    for f in fs + [goal]: _top_atoms(f, todo)
    ax = []
    while todo:
        a = todo.pop()
        if a in done: continue
        done.add(a)
        for f in atom_axioms(a):
            ax.append(f); 
            s = set(); _top_atoms(f, s)
            todo |= s - done
    return ax
def _top_atoms(f, out):
    """atoms occurring in integer atoms of the formula (not inside float terms)"""
    if isinstance(f, Poly): out |= f.atoms()
    elif isinstance(f, tuple):
        k = f[0]
        if k in ('le', 'eq'): out |= f[1].atoms()
        elif k in ('and', 'or'):
            for g in f[1]: _top_atoms(g, out)
        elif k == 'not': _top_atoms(f[1], out)

def _monos_of(f, out):
    if isinstance(f, tuple):
        if f[0] in ('le', 'eq'):
            for k in f[1].m:
                if len(k) > 1: out.add(k)
        elif f[0] in ('and', 'or'):
            for g in f[1]: _monos_of(g, out)
        elif f[0] == 'not': _monos_of(f[1], out)

def _units(fs):
    """atomic le-facts p<=0 from conjunctive part, as polys h>=0"""
    out = []
    for f in fs:
        for g in conjuncts(f):
            if isinstance(g, tuple):
                if g[0] == 'le': out.append(-g[1])
                elif g[0] == 'eq': out.append(g[1]); out.append(-g[1])
    return out

_prodc = {}
def _prod(h1, h2):
    r = _prodc.get((h1, h2))
    if r is None:
        pr = h1*h2
        r = _prodc[(h1, h2)] = (pr, [k for k in pr.m if len(k) > 1])
    return r
_monoc = {}
def _monos1(f):
    r = _monoc.get(f)
    if r is None:
        r = set(); _monos_of(f, r); _monoc[f] = r
    return r
def product_lemmas(facts, ax, goal):
    """candidate products (goal distance, missing monomials, size, fact)"""
    monos = set()
    for f in list(facts) + ax + [goal]:
        if isinstance(f, tuple): monos |= _monos1(f)
    if not monos: return []
    units = _units(list(facts) + ax + conjuncts(neg(goal)))
    units = list(dict.fromkeys(units))
    monoatoms = set(a for m in monos for a in m)
    lin = [h for h in units if h.degree() == 1 and h.atoms() <= monoatoms]
    cand = []
    gm = set(_monos1(goal)) if isinstance(goal, tuple) else set()
    ga = set()
    _top_atoms(goal, ga)
    ng = set(_units(conjuncts(neg(goal)))) if goal is not False else set()
    lvl = {m: (0 if m in gm else 1) for m in monos if m in gm or ga & set(m)}
    # distance from the goal through facts that share a monomial
    fm = [_monos1(f) for f in list(facts) + ax if isinstance(f, tuple)]
    fm = [x for x in fm if x]
    for d in (2,):
        add = set()
        for x in fm:
            if any(lvl.get(m, 9) == d-1 for m in x): add |= x
        for m in add: lvl.setdefault(m, d)
    for h1 in units:
        if h1.degree() > 3 or not (h1.atoms() & monoatoms): continue
        for h2 in lin:
            pr, nl = _prod(h1, h2)
            if not nl: continue
            miss = sum(1 for k in nl if k not in monos)
            if miss <= (1 if len(nl) > 1 else 0):
                cand.append((0 if h1 in ng or h2 in ng else sum(lvl.get(k, 3) for k in nl if k in monos), miss, len(pr.m), pr, sum(1 for k in nl if k in gm)))
    out = []; seen = set()
    for c in cand:
        if c[3] in seen: continue
        seen.add(c[3]); out.append(c)
    return out

class Unknown(Exception): pass

def _z3_check(fs, lin, timeout_ms, want_model=False):
    tr = translator(lin)
    s = z3.SimpleSolver() if lin else z3.Solver()
    s.set('timeout', timeout_ms)
    bools = set()
    for f in fs: bools |= bool_keys(f)
    zs = [tr.f(f) for f in fs]
    if bools:
        for f in fc_axioms(bools): zs.append(tr.f(f))
    cx = s.ctx.ref()
    for z in zs: _z3_assert(cx, s.solver, z.ast)
    t = time.time()
    r = s.check()
    STATS.queries += 1; STATS.z3_time += time.time()-t
    if r == z3.sat and want_model:
        m = s.model(); vals = {}
        at = set()
        for f in fs: _top_atoms(f, at)
        for a in at:
            v = m.eval(tr.int(a), model_completion=True)
            vals[a] = v.as_long()
        bl = {k: z3.is_true(m.eval(tr.f(k), model_completion=True)) for k in bools}
        return r, (vals, bl)
    return r, None

def _split_forall(facts): return [f for f in facts if not (isinstance(f, tuple) and f[0] == 'all')]

def prove(facts, goal, effort=2):
    """True if facts |= goal.  effort 0: linear only; 1: + products; 2: + nonlinear z3"""
    if goal is True: return True
    goal_c = conjuncts(goal)
    if len(goal_c) > 1: return all(prove(facts, g, effort) for g in goal_c)
    facts = tuple(facts)
    if goal in facts: return True
    if goal is not False:
        ng = neg(goal)
    else: ng = True
    key = (frozenset(f for f in facts if f is not True), goal)
    c = _prove_cache.get(key)
    if c is not None and (c[0] or c[1] >= effort):
        STATS.cache_hits += 1
        return c[0]
    cs = components(facts, goal)
    if len(cs) == 1: r = _prove(facts, goal, ng, effort)
    else:
        # facts that share no atom with the goal matter only if they contradict each other
        r = goal is not False and prove(cs[0], goal, effort) or any(prove(c, False, effort) for c in (cs if goal is False else cs[1:]))
    _prove_cache[key] = (r, effort)
    return r
_topc = {}; _linkc = {}
def _tops(f):
    r = _topc.get(f)
    if r is None:
        s = set(); _top_atoms(f, s)
        if bool_keys(f): s.add('bools')
        r = _topc[f] = tuple(s)
    return r
def _links(a):
    r = _linkc.get(a)
    if r is None:
        s = set()
        for f in atom_axioms(a): s.update(_tops(f))
        s.discard(a); r = _linkc[a] = tuple(s)
    return r
def components(facts, goal):
    """the facts in groups that share no atom, the goal's group first"""
    par = {}
    def find(x):
        while True:
            p = par[x]
            if p == x: return x
            par[x] = x = par[p]
    def add(a):
        if a in par: return
        par[a] = a; todo = [a]
        while todo:
            x = todo.pop()
            if x == 'bools': continue
            for y in _links(x):
                if y not in par: par[y] = y; todo.append(y)
                par[find(y)] = find(x)
    fs = [f for f in facts if isinstance(f, tuple)]
    for f in fs + ([goal] if goal is not False else []):
        t = _tops(f)
        for a in t: add(a)
        for a in t[1:]: par[find(a)] = find(t[0])
    groups = {}
    for f in fs:
        t = _tops(f); groups.setdefault(find(t[0]) if t else None, []).append(f)
    if any(f is False for f in facts): return [(False,)]
    if goal is False: return [tuple(g) for g in groups.values()] or [()]
    t = _tops(goal); g = groups.pop(find(t[0]) if t else 0, [])
    return [tuple(g)] + [tuple(x) for x in groups.values()]
def factors(p):
    """non-constant polynomial factors of p over the integers (atoms as indeterminates)"""
    try:
        import sympy
        at = sorted(p.atoms()); v = {a: sympy.Symbol('a%d' % i) for i, a in enumerate(at)}; inv = {str(x): a for a, x in v.items()}
        e = sum(c*sympy.prod([v[x] for x in k]) for k, c in p.m.items())
        out = []
        for f, n in sympy.factor_list(e)[1]:
            f = sympy.Poly(f); q = ZERO
            for mono, c in f.terms():
                t = const(int(c))
                for g, d in zip(f.gens, mono):
                    for _ in range(d): t = t*Poly({(inv[str(g)],): 1})
                q = q + t
            out += [q]*n
        return out
    except Exception: return [p]
def nonlinear_case(goal):
    """the condition of a case distinction that occurs in a product of the goal"""
    ms = set(); _monos_of(goal, ms)
    for k in sorted(ms):
        if len(k) < 2: continue
        for a in k:
            t = atom_of(a)
            if t[0] == 'iite' and not (isinstance(t[1], tuple) and has_fc_(t[1])): return t[1]
    return None
def has_fc_(f):
    if f[0] == 'fc': return True
    if f[0] in ('and', 'or'): return any(has_fc_(x) for x in f[1])
    return f[0] == 'not' and isinstance(f[1], tuple) and has_fc_(f[1])
def resolve(t, s, memo=None):
    """replace case distinctions whose condition has a known truth value"""
    if memo is None: memo = {}
    if isinstance(t, Poly):
        m = {}
        for at in free_atoms(t):
            x = atom_of(at)
            if x[0] == 'iite' and x[1] in s: m[at] = resolve(x[2] if s[x[1]] else x[3], s, memo)
        return subst(t, m) if m else t
    if not isinstance(t, tuple): return t
    r = memo.get(t)
    if r is None:
        if t and t[0] in ('le', 'eq') and isinstance(t[1], Poly): r = le(resolve(t[1], s, memo)) if t[0] == 'le' else eq(resolve(t[1], s, memo))
        elif t and t[0] == 'and': r = conj([resolve(x, s, memo) for x in t[1]])
        elif t and t[0] == 'or': r = disj([resolve(x, s, memo) for x in t[1]])
        else: r = tuple(resolve(x, s, memo) if isinstance(x, (tuple, Poly)) else x for x in t)
        memo[t] = r
    return r
def _prove(facts, goal, ng, effort):
    ax = _collect(facts, goal)
    base = list(facts) + ax + [ng]
    r, _ = _z3_check(base, True, 3000)
    if r == z3.unsat: STATS.hit('z3-lia'); return True
    if effort >= 1 and goal is not False and goal[0] == 'not' and goal[1][0] == 'eq' and any(len(k) > 1 for k in goal[1][1].m):
        p = goal[1][1]
        fs = factors(p)
        if len(fs) > 1: return all(prove(facts, ge(f, ONE), effort) or prove(facts, le(f, const(-1)), effort) for f in fs)
        if prove(facts, ge(p, ONE), effort) or prove(facts, le(p, const(-1)), effort): return True
    if effort >= 1 and goal is not False:
        c = nonlinear_case(goal)
        if c is not None:
            for v in (True, False):
                g = c if v else neg(c)
                if _prove(facts + (g,), False, True, 0): continue
                m = {}
                if not prove(tuple(y for f in facts for y in conjuncts(resolve(f, {c: v}, m))) + tuple(conjuncts(g)), resolve(goal, {c: v}, m), effort): return False
            STATS.hit('case split'); return True
    if effort >= 1:
        cand = product_lemmas(facts, ax, goal)
        pl = []
        if cand:
            near = [ge(c[3]) for c in sorted((c for c in cand if c[0] + 2*c[1] <= 3), key=lambda c: (-c[4], c[0] + c[1], c[2]))[:250]]
            if near and len(near) < len(cand):
                r, _ = _z3_check(base + near, True, 1500)
                if r == z3.unsat: STATS.hit('z3-lia+products'); return True
            # without the products the nonlinear solver is quick, and a model it finds is one of them too
            if len(cand) > 250:
                r, _ = _z3_check(base, False, 1500 if effort >= 2 else 400)
                if r == z3.unsat: STATS.hit('z3-nia'); return True
                if r == z3.sat: return False
            pl = [ge(c[3]) for c in sorted(cand, key=lambda c: (c[1], c[2]))[:600]]
            r, _ = _z3_check(base + pl, True, 4000)
            if r == z3.unsat: STATS.hit('z3-lia+products'); return True
        monos = set()
        for f in base: _monos_of(f, monos)
        if monos and effort >= 2:
            r, _ = _z3_check(base + pl, False, 4000 if effort < 3 else 20000)
            if r == z3.unsat: STATS.hit('z3-nia'); return True
    return False

def feasible(facts, extra, effort=1):
    """False only if facts & extra is proved unsatisfiable"""
    if extra is False: return False
    return not prove(facts, neg(extra) if extra is not True else False, effort)

def model(facts, extra, timeout=4000):
    """best-effort model of facts & extra (atoms -> int, bool atoms) or None"""
    ax = _collect(facts, extra)
    fs = list(facts) + ax + ([extra] if extra is not True else [])
    try:
        r, m = _z3_check(fs, False, timeout, True)
        if r == z3.sat: return m
    except z3.Z3Exception:
        pass
    return None

# ---------------------------------------------------------------- digits
def poly_divmod(p, d, pref):
    """divide p by d as polynomials: d's chosen leading monomial (linear, coefficient +-1)"""
    q = ZERO; r = p
    key = lambda k: (len(k), k)
    lead = pref
    c = d.m[lead]
    for _ in range(400):
        hit = None
        for k, v in r.m.items():
            rest = list(k); ok = True
            for x in lead:
                if x in rest: rest.remove(x)
                else: ok = False; break
            if ok and v % c == 0:
                hit = (tuple(rest), v//c); break
        if hit is None: return q, r
        t = Poly({hit[0]: hit[1]})
        q = q + t; r = r - t*d
    return None

def lead_candidates(d):
    """monomials of d usable as leading monomial, most complex first"""
    ms = [k for k in d.m if k]
    ms.sort(key=lambda k: (-len(k), k))
    out = []
    for k in ms:
        # terminating division needs no other monomial of d to be a multiple of the lead
        if all(k2 == k or not _divides(k, k2) for k2 in d.m): out.append(k)
    return out
def _divides(k, k2):
    rest = list(k2)
    for x in k:
        if x in rest: rest.remove(x)
        else: return False
    return True

def digits(p, dims, facts, effort=1):
    """mixed-radix digits of flat index p for extents dims; every digit is proved in range.
    Returns list of polys or None."""
    key = ('dig', p, tuple(dims), frozenset(facts))
    if key in _prove_cache: return _prove_cache[key]
    r = _digits(p, list(dims), facts, effort)
    _prove_cache[key] = r
    return r
def _inrange(d, ext, facts, effort):
    if ext == ONE: return d == ZERO or prove(facts, eq(d), effort)
    return prove(facts, conj([ge(d), lt(d, ext)]), effort)
def _digits(p, dims, facts, effort):
    if len(dims) == 1:
        return [p] if _inrange(p, dims[0], facts, effort) else None
    d = dims[-1]
    cands = []
    if d == ONE: cands = [(p, ZERO)]
    elif d.is_const():
        c = d.cval()
        if c <= 0: return None
        hi = {}; lo = {}
        for k, v in p.m.items():
            if k and v % c == 0: hi[k] = v//c
            else:
                if k == ():
                    qq, rr = divmod(v, c)
                    if qq: hi[k] = qq
                    if rr: lo[k] = rr
                else: lo[k] = v
        cands = [(Poly(hi), Poly(lo))]
    else:
        for lead in lead_candidates(d):
            x = poly_divmod(p, d, lead)
            if x is not None and x not in cands: cands.append(x)
    for q, r in cands:
        for adj in (0, 1, -1):
            qq, rr = (q, r) if adj == 0 else (q-adj, r + d*adj)
            if _inrange(rr, d, facts, effort):
                rest = digits(qq, dims[:-1], facts, effort)
                if rest is not None: return rest + [rr]
                break
    return None
