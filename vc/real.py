"""Equality of float terms in real arithmetic.

A term is normalised to a linear form: a tuple of items (coef, vars, dom, factors) meaning
    sum over items, over all integer values of vars with dom, of coef * product(factors).
Loops that accumulate become sums (or maxima) over their iteration domain, so two programs that
visit the same summands in any order, in any loop structure, have equal forms.
"""
from fractions import Fraction
import itertools, struct
import z3
from .core import *
from . import core

class NotSum(Exception): pass

F1 = Fraction(1)
def item(coef, facs=(), vars=(), dom=True): return (Fraction(coef), tuple(vars), dom, tuple(sorted(facs, key=fkey)))
_fk = {}
def fkey(f):
    r = _fk.get(f)
    if r is None: r = _fk[f] = (f[0], f[1] if f[0] in ('ld', 'call', 'sym') else '', repr(f))
    return r
def rename_item(it):
    c, vs, dom, fs = it
    if not vs: return it
    ren = {v: Poly({(atom(('v', fresh('s'))),): 1}) for v in vs}
    return (c, tuple(next(iter(ren[v].m))[0] for v in vs), subst(dom, ren), tuple(sorted((fsubst(f, ren) for f in fs), key=fkey)))
def fsubst(f, s):
    k = f[0]
    if k == 'ld': return ('ld', f[1], subst(f[2], s))
    if k == 'i':
        r = s.get(f[1])
        if r is None:
            r = core._subst_atom(f[1], s, {})
            if r is None: return f
        if len(r.m) == 1:
            (m, c), = r.m.items()
            if c == 1 and len(m) == 1: return ('i', m[0])
        return ('ip', r)
    if k == 'ip': return ('ip', subst(f[1], s))
    if k == 'inv': return ('inv', lsubst(f[1], s))
    if k == 'call': return ('call', f[1]) + tuple(lsubst(x, s) for x in f[2:])
    if k == 'max': return ('max', lsubst(f[1], s)) if False else ('max', tuple((v, subst(d, s), lsubst(l, s)) for v, d, l in f[1]))
    if k == 'sym': return f
    if k == 'opq': return ('opq', subst(f[1], s))
    raise ValueError(f)
def lsubst(lf, s):
    if not s: return lf
    out = []
    for c, vs, d, fs in lf:
        nd = subst(d, s)
        if nd is False: continue
        out.append((c, vs, nd, tuple(sorted((fsubst(f, s) for f in fs), key=fkey))))
    return norm(out)

def norm(items):
    """merge items with identical domain and factors"""
    acc = {}
    for c, vs, d, fs in items:
        if d is False or c == 0: continue
        key = (vs, d, fs) if vs else ((), d, fs)
        acc[key] = acc.get(key, 0) + c
    return tuple((c, k[0], k[1], k[2]) for k, c in sorted(acc.items(), key=lambda kc: repr(kc[0][2])) if c != 0)

def ladd(a, b, sb=1): return norm(list(a) + [(c*sb, v, d, f) for c, v, d, f in b])
def cancel(fs):
    fs = list(fs)
    for f in list(fs):
        if f[0] == 'inv' and f in fs:
            l = f[1]
            if len(l) == 1 and not l[0][1] and l[0][2] is True and len(l[0][3]) == 1 and l[0][0] == 1 and l[0][3][0] in fs:
                fs.remove(f); fs.remove(l[0][3][0])
    return fs
def lmul(a, b):
    out = []
    for c1, v1, d1, f1 in a:
        for x in b:
            c2, v2, d2, f2 = rename_item(x) if x[1] and v1 else x
            out.append((c1*c2, v1+v2, conj([d1, d2]), tuple(sorted(cancel(f1+f2), key=fkey))))
    return norm(out)
def lconst(v): return (item(v),) if v != 0 else ()
def lguard(a, g):
    if g is True: return a
    return norm([(c, v, conj([d, g]), f) for c, v, d, f in a])
def lfree(a):
    s = set()
    for c, v, d, f in a:
        s |= free_atoms(d) | set().union(*[ffree(x) for x in f]) if f else free_atoms(d)
        s -= set(v)
    return s
def ffree(f):
    k = f[0]
    if k == 'ld': return free_atoms(f[2])
    if k == 'i': return free_atoms(Poly({(f[1],): 1}))
    if k == 'ip': return free_atoms(f[1])
    if k == 'inv': return lfree(f[1])
    if k == 'call': return set().union(*[lfree(x) for x in f[2:]])
    if k == 'max':
        s = set()
        for v, d, l in f[1]: s |= (free_atoms(d) | lfree(l)) - set(v)
        return s
    if k == 'opq': return free_atoms(f[1])
    return set()
def fsyms(f):
    k = f[0]
    if k == 'sym': return {f[1]}
    if k == 'inv': return lsyms(f[1])
    if k == 'call': return set().union(*[lsyms(x) for x in f[2:]])
    if k == 'max': return set().union(*[lsyms(l) | free_syms(d) for v, d, l in f[1]])
    if k == 'opq': return free_syms(f[1])
    return set()
def lsyms(a):
    s = set()
    for c, v, d, f in a:
        s |= free_syms(d)
        for x in f: s |= fsyms(x)
    return s

class Real:
    def __init__(self, facts):
        self.facts = list(facts); self.memo = {}
        self.why = []
    # ---------------------------------------------------------------- normalisation
    def lf(self, t):
        r = self.memo.get(t)
        if r is None: r = self.memo[t] = self._lf(t)
        return r
    def inv(self, l):
        if len(l) == 0: return (item(1, [('opq', ('c', 'float', float('inf')))]),)
        # pull out factors common to all items that do not depend on bound variables
        if len(l) == 1 and not l[0][1] and l[0][2] is True:
            c, v, d, fs = l[0]
            out = []
            for f in fs:
                if f[0] == 'inv': out.append(f[1])
                elif f[0] == 'call' and f[1] == 'exp': out.append((item(1, [('inv', (item(1, [f]),))]),))
                else: out.append((item(1, [('inv', (item(1, [f]),))]),))
            r = lconst(1/c)
            for o in out: r = lmul(r, o)
            return r
        common = None
        for c, v, d, fs in l:
            mine = [f for f in fs if not (ffree(f) & set(v))]
            if common is None: common = mine
            else:
                keep = []
                mm = list(mine)
                for f in common:
                    if f in mm: keep.append(f); mm.remove(f)
                common = keep
        if common:
            rest = []
            for c, v, d, fs in l:
                fs = list(fs)
                for f in common: fs.remove(f)
                rest.append((c, v, d, tuple(fs)))
            return lmul(self.inv((item(1, common),)), self.inv(norm(rest)))
        # scalar content
        c0 = abs(l[0][0])
        if c0 != 1: 
            l2 = tuple((c/c0, v, d, f) for c, v, d, f in l)
            return tuple((c/c0, v, d, f) for c, v, d, f in (item(1, [('inv', l2)]),))
        return (item(1, [('inv', l)]),)
    def exp(self, l):
        """exp(sum of items) = product of exp(item)"""
        if any(v or d is not True for c, v, d, f in l): return (item(1, [('call', 'exp', l)]),)
        r = lconst(1)
        for c, v, d, f in l:
            if not f: r = lmul(r, (item(1, [('call', 'exp', ((c, v, d, f),))]),)); continue
            pos = ((abs(c), v, d, f),)
            e = (item(1, [('call', 'exp', pos)]),)
            r = lmul(r, e if c > 0 else self.inv(e))
        return r
    def poly(self, p):
        return norm([item(c, [('i', a) for a in k]) for k, c in p.m.items()])
    def _lf(self, t):
        k = t[0]
        if k == 'c':
            v = t[2]
            if v != v or v in (float('inf'), float('-inf')): return (item(1, [('opq', t)]),)
            return lconst(Fraction(v))
        if k == 'ld': return (item(1, [('ld', t[1], t[2])]),)
        if k == 'sym': return (item(1, [('sym', t[1])]),)
        if k == 'i2f': return self.poly(t[2])
        if k == 'cast': return self.lf(t[2])
        if k == 'op':
            n = t[1]
            if n == 'add': return ladd(self.lf(t[3]), self.lf(t[4]))
            if n == 'sub': return ladd(self.lf(t[3]), self.lf(t[4]), -1)
            if n == 'neg': return ladd((), self.lf(t[3]), -1)
            if n == 'mul': return lmul(self.lf(t[3]), self.lf(t[4]))
            if n == 'div': return lmul(self.lf(t[3]), self.inv(self.lf(t[4])))
            if n in ('max', 'min'):
                try: return (self.maxfac(t, None),)
                except NotSum: pass
            if n == 'abs': return (item(1, [('call', 'abs', self.lf(t[3]))]),)
            return (item(1, [('opq', t)]),)
        if k == 'call':
            n = t[1]; args = [self.lf(x) for x in t[3:]]
            if n == 'exp': return self.exp(args[0])
            if n == 'pow':
                e = args[1]
                if e == (): return lconst(1)
                if len(e) == 1 and e[0][1] == () and e[0][2] is True and not e[0][3]:
                    c = e[0][0]
                    if c.denominator == 1 and 1 <= c <= 4:
                        r = args[0]
                        for _ in range(int(c)-1): r = lmul(r, args[0])
                        return r
                    if c == Fraction(1, 2): return (item(1, [('call', 'sqrt', args[0])]),)
                    if c == -1: return self.inv(args[0])
                # pow(x, -e) = 1/pow(x, e)
                if len(e) == 1 and e[0][0] < 0:
                    return self.inv((item(1, [('call', 'pow', args[0], ladd((), e, -1))]),))
            return (item(1, [('call', n) + tuple(args)]),)
        if k == 'ite':
            if t[1][0] == 'fc' or has_fc(t[1]):
                try: return (self.maxfac(t, None),)
                except NotSum: pass
            a = lguard(self.lf(t[2]), t[1]); b = lguard(self.lf(t[3]), neg(t[1]))
            return ladd(a, b)
        if k == 'fold':
            try: return self.sumfold(t)
            except NotSum: pass
            try: return (self.maxfac(t, None),)
            except NotSum: pass
            return (item(1, [('opq', t)]),)
        return (item(1, [('opq', t)]),)
    def covers(self, guards, extra):
        """exactly one of the guards holds"""
        if guards == [True]: return True
        fs = self.facts + conjuncts(extra)
        if False in fs: return True
        if not prove(fs, disj(guards), 2): return False
        for i in range(len(guards)):
            for j in range(i):
                if not prove(fs, neg(conj([guards[i], guards[j]])), 2): return False
        return True
    def sumfold(self, t):
        _, k, dom, acc, body, init, ty = t
        l = self.lf(body)
        withacc = [x for x in l if acc in lsyms((x,))]
        rest = [x for x in l if acc not in lsyms((x,))]
        for c, v, d, f in withacc:
            if c != 1 or v or f != (('sym', acc),) or acc in free_syms(d): raise NotSum()
        if not self.covers([d for c, v, d, f in withacc], dom): raise NotSum()
        out = []
        for c, v, d, f in rest:
            ren = atom(('v', fresh('s')))
            s = {k: Poly({(ren,): 1})}
            it = (c, v + (ren,), subst(conj([dom, d]), s), tuple(sorted((fsubst(x, s) for x in f), key=fkey)))
            if it[2] is False: continue
            out.append(it)
        return ladd(self.lf(init), tuple(out))
    def maxfac(self, t, acc):
        m = self.maxset(t, +1)
        if m is None: raise NotSum()
        sgn, items = m
        return item(sgn, [('max', tuple(sorted(items, key=repr)))])
    def maxset(self, t, _):
        """(sign, items): t = sign * max(items).  min is kept as -max(-x)"""
        r = self._maxset(t)
        if r is None: return None
        return r
    def _maxset(self, t):
        k = t[0]
        def leafset(x, sgn):
            if x[0] in ('ite', 'fold', 'op'):
                r = self._maxset(x)
                if r is not None and r[0] == sgn: return r[1]
            if x[0] == 'ite' and not has_fc(x[1]):
                a = leafset(x[2], sgn); b = leafset(x[3], sgn)
                return [(v, conj([d, x[1]]), l) for v, d, l in a] + [(v, conj([d, neg(x[1])]), l) for v, d, l in b]
            l = self.lf(x)
            return [((), True, l if sgn > 0 else ladd((), l, -1))]
        if k == 'cast': return self._maxset(t[2])
        if k == 'op' and t[1] in ('max', 'min'):
            sgn = 1 if t[1] == 'max' else -1
            return sgn, leafset(t[3], sgn) + leafset(t[4], sgn)
        if k == 'ite':
            c, a, b = t[1], t[2], t[3]
            if c[0] == 'and':
                fcs = [x for x in c[1] if has_fc(x)]; ints = [x for x in c[1] if not has_fc(x)]
                if len(fcs) == 1 and ints:
                    inner = mk_ite(fcs[0], a, b); r = self._maxset(inner)
                    if r is None: return None
                    g = conj(ints)
                    return r[0], [(v, conj([d, g]), l) for v, d, l in r[1]] + [(v, conj([d, neg(g)]), l) for v, d, l in leafset(b, r[0])]
                return None
            if c[0] == 'or':
                return self._maxset(('ite', neg(c), b, a)) if neg(c)[0] == 'and' else None
            if c[0] == 'not': c, a, b = c[1], b, a
            if c[0] != 'fc': 
                if has_fc(c): return None
                ra = self._maxset(a); rb = self._maxset(b)
                sg = (ra or rb or (None,))[0]
                if sg is None: return None
                la, lb = leafset(a, sg), leafset(b, sg)
                return sg, [(v, conj([d, c]), l) for v, d, l in la] + [(v, conj([d, neg(c)]), l) for v, d, l in lb]
            if c[1] not in ('olt', 'ole'): return None
            p, q = self.strip(c[2]), self.strip(c[3])
            a0, b0 = self.strip(a), self.strip(b)
            if self.same(a0, q) and self.same(b0, p): sgn = 1
            elif self.same(a0, p) and self.same(b0, q): sgn = -1
            else: return None
            return sgn, leafset(p, sgn) + leafset(q, sgn)
        if k == 'fold':
            _, kk, dom, acc, body, init, ty = t
            r = self._maxset(body)
            if r is None: return None
            sgn, items = r
            me = (item(1, [('sym', acc)]),) if sgn > 0 else (item(-1, [('sym', acc)]),)
            mine = [x for x in items if x[2] == me]; rest = [x for x in items if x[2] != me]
            for v, d, l in mine:
                if v: return None
            for v, d, l in rest:
                if acc in lsyms(l) or acc in free_syms(d): return None
            fs = self.facts + conjuncts(dom)
            if not prove(fs, disj([d for v, d, l in mine]), 2): return None
            out = []
            for v, d, l in rest:
                ren = atom(('v', fresh('s'))); s = {kk: Poly({(ren,): 1})}
                out.append((v + (ren,), subst(conj([dom, d]), s), lsubst(l, s)))
            return sgn, out + leafset(init, sgn)
        return None
    def strip(self, t):
        while t[0] == 'cast': t = t[2]
        return t
    def same(self, a, b): return a == b or self.lf(a) == self.lf(b)

    # ---------------------------------------------------------------- comparison
    def dimsof(self, arr): return self.dims.get(arr)
    def idx_eqs(self, arr, ia, ib, fa, fb):
        """equations equivalent to ia == ib (a: code side under fa, b: spec side under fb)"""
        if ia == ib: return []
        d = self.dims.get(arr)
        if d:
            ga = digits(ia, d, fa, 2); gb = digits(ib, d, fb, 2) if ga is not None else None
            if ga is not None and gb is not None: return list(zip(ga, gb))
        return [(ia, ib)]
    def unify_f(self, f, g, fa, fb):
        """equations making factor f (code) equal g (spec); None if impossible"""
        if f == g: return []
        if f[0] in ('i', 'ip') and g[0] in ('i', 'ip'):
            p = Poly({(f[1],): 1}) if f[0] == 'i' else f[1]; q = Poly({(g[1],): 1}) if g[0] == 'i' else g[1]
            return [(p, q)]
        if f[0] != g[0]: return None
        k = f[0]
        if k == 'ld':
            if f[1] != g[1]: return None
            return self.idx_eqs(f[1], f[2], g[2], fa, fb)
        if k == 'inv': return self.unify_l(f[1], g[1], fa, fb)
        if k == 'call':
            if f[1] != g[1] or len(f) != len(g): return None
            out = []
            for x, y in zip(f[2:], g[2:]):
                e = self.unify_l(x, y, fa, fb)
                if e is None: return None
                out += e
            return out
        if k == 'max':
            return [] if self.eq_max(f[1], g[1], fa, fb) else None
        if k == 'opq': return [] if f == g else None
        return None
    def int_parts(self, it, bound):
        """integer numerator and denominator of a summand, and its other factors"""
        n = d = ONE; rest = []
        for f in it[3]:
            p = self.as_int(f)
            if p is not None: n = n*p; continue
            if f[0] == 'inv':
                q = ZERO
                for c, v, dm, fs in f[1]:
                    ps = [self.as_int(g) for g in fs]
                    if v or dm is not True or None in ps or c.denominator != 1: q = None; break
                    t = const(c.numerator)
                    for g in ps: t = t*g
                    q = q + t
                if q is not None: d = d*q; continue
            rest.append(f)
        if (free_atoms(n) | free_atoms(d)) & bound: return None, None, it[3]
        return n, d, tuple(rest)
    def as_int(self, f): return Poly({(f[1],): 1}) if f[0] == 'i' else f[1] if f[0] == 'ip' else None
    def unify_l(self, a, b, fa, fb):
        if a == b: return []
        simple = all(not v and d is True for c, v, d, f in a + b) and len(a) == len(b)
        if simple:
            for perm in itertools.permutations(range(len(b))) if len(b) <= 4 else [range(len(b))]:
                eqs = []; ok = True
                for i, j in enumerate(perm):
                    e = self.unify_items(a[i], b[j], fa, fb)
                    if e is None: ok = False; break
                    eqs += e[0]
                if ok: return eqs
        # closed sums: compare as a whole
        if self.eq_lf(a, b, fa): return []
        return None
    def unify_items(self, x, y, fa, fb):
        """all ways are not enumerated: the first permutation of equal-kind factors that unifies"""
        bound = set(x[1]) | set(y[1])
        nx, dx, fx = self.int_parts(x, bound); ny, dy, fy = self.int_parts(y, bound)
        if nx is None or ny is None:
            if x[0] != y[0]: return None
            fx, fy = x[3], y[3]
        elif (x[0], nx, dx) != (y[0], ny, dy):
            l, r = nx*dy*const(x[0].numerator*y[0].denominator), ny*dx*const(y[0].numerator*x[0].denominator)
            if l != r and not prove(fa, eq(l, r), 2): return None
        if len(fx) != len(fy): return None
        if sorted(map(self.kind, fx)) != sorted(map(self.kind, fy)): return None
        n = len(fx)
        best = None
        perms = itertools.permutations(range(n)) if n <= 5 else [tuple(range(n))]
        for perm in perms:
            if any(self.kind(fx[i]) != self.kind(fy[j]) for i, j in enumerate(perm)): continue
            eqs = []; ok = True
            for i, j in enumerate(perm):
                e = self.unify_f(fx[i], fy[j], fa, fb)
                if e is None: ok = False; break
                eqs += e
            if ok: return eqs, perm
        return None
    def kind(self, f):
        if f[0] in ('ld', 'call'): return (f[0], f[1])
        if f[0] in ('i', 'ip'): return ('i', '')
        if f[0] == 'sym': return ('sym', f[1])
        return (f[0], '')

    def solve(self, eqs, unknowns):
        """linear equations (lhs, rhs) for the unknown atoms with unit coefficients"""
        left = list(unknowns); s = {}
        es = [a - b for a, b in eqs]
        prog = True
        while left and prog:
            prog = False
            for e in es:
                e2 = subst(e, s)
                for v in left:
                    co = e2.coeffs_in(v)
                    if set(co) <= {0, 1} and 1 in co and co[1].is_const() and abs(co[1].cval()) == 1:
                        r = co.get(0, ZERO)
                        if v in free_atoms(r): continue
                        sol = -r if co[1].cval() == 1 else r
                        s = {k: subst(x, {v: sol}) for k, x in s.items()}
                        s[v] = sol; left.remove(v); prog = True; break
                if prog: break
        res = [subst(e, s) for e in es]
        return s, left, [e for e in res if e.m]
    def radix(self, eqs, unknowns, doms, ctx):
        """solve, then split what is left by the uniqueness of D*v1 + v2 = E with 0 <= v2 < D (doms: what is
        known of the unknowns): v1 = E div D, v2 = E - D*(E div D)"""
        s, left, res = self.solve(eqs, unknowns)
        while left:
            hit = None
            dep = [v for v in s if free_atoms(s[v]) & set(left)]
            for e in res + [Poly({(v,): 1}) - s[v] for v in dep]:
                vs = [v for v in left + dep if v in free_atoms(e)]
                for v2 in vs:
                    c2 = e.coeffs_in(v2)
                    if set(c2) - {0, 1} or 1 not in c2 or not c2[1].is_const() or abs(c2[1].cval()) != 1: continue
                    f = e if c2[1].cval() == 1 else -e
                    for v1 in vs:
                        if v1 == v2: continue
                        c1 = f.coeffs_in(v1)
                        if set(c1) - {0, 1} or 1 not in c1: continue
                        D = c1[1]
                        if free_atoms(D) & set(unknowns): continue
                        E = -subst(f, {v1: ZERO, v2: ZERO})
                        if free_atoms(E) & set(unknowns): continue
                        p2 = Poly({(v2,): 1}); fs = self.facts + conjuncts(doms)
                        if prove(fs, conj([le(ZERO, p2), lt(p2, D)]), 2) and prove(self.facts + conjuncts(ctx), le(ZERO, E), 2): hit = (v1, v2, E, D); break
                    if hit: break
                if hit: break
            if not hit: return s, left, res
            v1, v2, E, D = hit
            q = mk_div(E, D); new = {v1: q, v2: E - D*q}
            s = {k: subst(x, new) for k, x in s.items()}; s.update(new)
            left = [v for v in left if v not in new]
            res = [x for x in (subst(e, new) for e in res) if x.m]
        return s, left, res
    def region(self, ita, itb, fa):
        """map item a (code) into item b (spec): condition on b's variables, or None"""
        ca, va, da, _ = ita; cb, vb, db, _ = itb
        fA = self.facts + conjuncts(da); fB = self.facts + conjuncts(db)
        if False in fA: return False
        u = self.unify_items(ita, itb, fA, fB)
        if u is None: return None
        eqs = u[0]
        return self.region_eqs(eqs, va, da, vb, db)
    def region_eqs(self, eqs, va, da, vb, db):
        fA = self.facts + conjuncts(da)
        s, left, res = self.radix(eqs, vb, db, da)
        if left:
            # the summand does not determine some spec variable
            return None
        for e in res:
            if not prove(fA, eq(e), 2): return None
        img = subst(db, s)
        if not prove(fA, img, 2):
            self.why.append('summand outside the specified range: %s' % '; '.join(show(g) for g in conjuncts(img) if not prove(fA, g, 2))[:300])
            return None
        # invert: code variables in terms of spec variables
        divs = []
        allp = list(s.values())
        unk = list(va)
        sub = {}
        for v in vb:
            for a in s[v].atoms():
                t = atom_of(a)
                if t[0] == 'div' and (free_atoms(t[1]) & set(va)):
                    if a not in divs: divs.append(a)
        inv, left2, res2 = self.radix([(Poly({(v,): 1}), s[v]) for v in vb], unk + divs, da, db)
        left2 = [x for x in left2 if x in va]
        conds = [eq(e) for e in res2]
        for v in left2:
            # a code variable that the summand does not mention: must take a single value
            vp = Poly({(v,): 1})
            val = None
            for cand in (ZERO, ONE):
                if prove(fA, eq(vp, cand), 2): val = cand
            if val is None:
                self.why.append('summand is added more than once (loop variable %s)' % show(vp)); return None
            inv = {k: subst(x, {v: val}) for k, x in inv.items()}; inv[v] = val
            conds = [subst(c, {v: val}) for c in conds]
        for a in divs:
            t = atom_of(a)
            n, d = subst(t[1], inv), subst(t[2], inv)
            q = inv.get(a)
            if q is None: continue
            conds += [le(d*q, n), lt(n, d*q + d)]
        return conj([subst(da, {k: v for k, v in inv.items()})] + conds)
    def eq_lf(self, a, b, facts=None):
        """every summand of the code (a) corresponds to exactly one of the specification (b)"""
        if a == b: return True
        saved = self.facts
        if facts is not None: self.facts = list(facts)
        try: return self._eq_lf(a, b)
        finally: self.facts = saved
    def _eq_lf(self, a, b):
        a = self.prune(a); b = self.prune(b)
        if a == b: return True
        regs = {j: [] for j in range(len(b))}
        for ita in a:
            hit = False
            for j, itb in enumerate(b):
                n0 = len(self.why)
                r = self.region(ita, itb, None)
                if r is None: continue
                if r is False: hit = True; break
                regs[j].append(r); hit = True; break
            if not hit:
                self.why.append('no counterpart in the specification for summand %s' % show_item(ita)); return False
        for j, itb in enumerate(b):
            c, v, d, f = itb
            fB = self.facts + conjuncts(d)
            if not prove(fB, disj(regs[j]), 2):
                self.why.append('specified summand %s is not always added' % show_item(itb)); return False
            for x, y in itertools.combinations(regs[j], 2):
                if not prove(fB, neg(conj([x, y])), 2):
                    self.why.append('specified summand %s may be added twice' % show_item(itb)); return False
        return True
    def prune(self, a):
        out = []
        for c, v, d, f in a:
            if d is not True and prove(self.facts, neg(d), 2): continue
            # drop guards already known
            if not v and d is not True:
                d = conj([g for g in conjuncts(d) if not prove(self.facts, g, 1)])
            out.append((c, v, d, f))
        return norm(out)
    def eq_max(self, A, B, fa, fb):
        saved = self.facts
        self.facts = list(fa)
        try:
            ninf = ('opq', ('c', 'float', float('-inf')))      # below, or equal to the least, finite value
            low = lambda l: len(l) == 1 and not l[0][1] and (not l[0][3] and l[0][0] <= Fraction(-3.4028234e38) or l[0][0] == 1 and tuple(l[0][3]) == (ninf,))
            B = [x for x in B if not prove(self.facts, neg(x[1]), 2)]
            if any(not low(x[2]) for x in B): B = [x for x in B if not low(x[2])]
            regs = {j: [] for j in range(len(B))}
            for va, da, la in A:
                fA = self.facts + conjuncts(da)
                if False in fA or prove(fA, False, 2): continue
                if low(la) and B: continue
                hit = False
                for j, (vb, db, lb) in enumerate(B):
                    if len(la) != len(lb) or any(x[1] for x in la + lb): continue
                    fB = self.facts + conjuncts(db)
                    if len(la) == 0: eqs = []
                    else:
                        eqs = self.unify_l(la, lb, fA, fB)
                        if eqs is None: continue
                    r = self.region_max(eqs, va, da, vb, db)
                    if r is None: continue
                    regs[j].append(r); hit = True      # an element may stand for several equal ones of the specification
                if not hit:
                    self.why.append('maximum ranges over an element outside the specified window: %s' % (' + '.join(map(show_item, la)) or '0')); return False
            for j, (vb, db, lb) in enumerate(B):
                fB = self.facts + conjuncts(db)
                if not prove(fB, disj(regs[j]), 2):
                    self.why.append('an element of the specified window is not always considered'); return False
            return True
        finally: self.facts = saved
    def region_max(self, eqs, va, da, vb, db):
        fA = self.facts + conjuncts(da)
        s, left, res = self.radix(eqs, vb, db, da)
        if left: return None
        for e in res:
            if not prove(fA, eq(e), 2): return None
        if not prove(fA, subst(db, s), 2):
            self.why.append('element outside the specified window: %s' % '; '.join(show(g) for g in conjuncts(subst(db, s)) if not prove(fA, g, 2))[:300]); return None
        divs = []
        for v in vb:
            for a in s[v].atoms():
                t = atom_of(a)
                if t[0] == 'div' and (free_atoms(t[1]) & set(va)) and a not in divs: divs.append(a)
        inv, left2, res2 = self.radix([(Poly({(v,): 1}), s[v]) for v in vb], list(va) + divs, da, db)
        left2 = [x for x in left2 if x in va]
        conds = [eq(e) for e in res2]
        for v in left2:
            # any value in range will do: try 0
            inv = {k: subst(x, {v: ZERO}) for k, x in inv.items()}; inv[v] = ZERO
            conds = [subst(c, {v: ZERO}) for c in conds]
        for a in divs:
            t = atom_of(a); n, d = subst(t[1], inv), subst(t[2], inv); q = inv.get(a)
            if q is not None: conds += [le(d*q, n), lt(n, d*q + d)]
        return conj([subst(da, inv)] + conds)

    # ---------------------------------------------------------------- z3 fallback (no sums)
    def z3_equal(self, a, b, timeout=8000):
        """a == b in real arithmetic for terms without folds; floats are non-NaN reals"""
        self.rc = {}; self.fnc = {}; self.ldk = []
        self.side = []
        try:
            ea, eb = self.z(a), self.z(b)
        except NotSum: return False
        s = z3.Solver(); s.set('timeout', timeout)
        tr = translator(False)
        facts = [f for f in self.facts if not (isinstance(f, tuple) and f[0] == 'all')]
        for f in facts + core._collect(facts, False):
            if not has_fc(f): s.add(tr.f(f))
            else:
                try: s.add(self.zf(f))
                except NotSum: pass
        for x in self.side: s.add(x)
        s.add(ea != eb)
        t0 = time.time(); r = s.check()
        STATS.queries += 1; STATS.z3_time += time.time()-t0
        if r == z3.unsat: STATS.hit('z3-real'); return True
        if r == z3.sat:
            m = s.model()
            self.model = {repr(k): str(m.eval(v, model_completion=True)) for k, v in self.rc.items()}
            self.intmodel = {show_atom(atom_of(x)): m.eval(tr.int(x), model_completion=True) for x in set().union(*[free_atoms(f) for f in facts]) if atom_of(x)[0] == 'v'}
        return False
    def real(self, key):
        r = self.rc.get(key)
        if r is None: r = self.rc[key] = z3.Real('r%d' % len(self.rc))
        return r
    def canon_idx(self, arr, p):
        for a, q in self.ldk:
            if a == arr and (q == p or prove(self.facts, eq(p, q), 2)): return q
        self.ldk.append((arr, p)); return p
    def z(self, t):
        k = t[0]
        if k == 'c':
            if t[2] != t[2] or abs(t[2]) == float('inf'): return self.real(('c', t[2]))
            f = Fraction(t[2]); return z3.RealVal(str(f.numerator)) / z3.RealVal(str(f.denominator)) if f.denominator != 1 else z3.RealVal(str(f.numerator))
        if k == 'ld': return self.real(('ld', t[1], self.canon_idx(t[1], t[2])))
        if k == 'sym': return self.real(t)
        if k == 'cast': return self.z(t[2])
        if k == 'i2f': return z3.ToReal(translator(False).poly(t[2]))
        if k == 'ite': return z3.If(self.zf(t[1]), self.z(t[2]), self.z(t[3]))
        if k == 'op':
            n = t[1]; a = [self.z(x) for x in t[3:]]
            if n == 'add': return a[0] + a[1]
            if n == 'sub': return a[0] - a[1]
            if n == 'mul': return a[0]*a[1]
            if n == 'neg': return -a[0]
            if n == 'div': return a[0]/a[1]
            if n == 'max': return z3.If(a[0] < a[1], a[1], a[0])
            if n == 'min': return z3.If(a[0] < a[1], a[0], a[1])
            if n == 'abs': return z3.If(a[0] < 0, -a[0], a[0])
            raise NotSum()
        if k == 'call':
            a = [self.z(x) for x in t[3:]]
            f = self.fnc.get((t[1], len(a)))
            if f is None: f = self.fnc[(t[1], len(a))] = z3.Function(t[1], *([z3.RealSort()]*(len(a)+1)))
            r = f(*a)
            if t[1] == 'exp':
                self.side.append(r > 0)
                self.side.append(f(-a[0])*r == 1)
            return r
        raise NotSum()
    def zf(self, c):
        if c is True or c is False: return z3.BoolVal(c)
        k = c[0]
        if k == 'fc':
            if c[1] == 'uno': self.z(c[2]); self.z(c[3]); return z3.BoolVal(False)
            a, b = self.z(c[2]), self.z(c[3])
            return {'olt': a < b, 'ole': a <= b, 'oeq': a == b}[c[1]]
        if k == 'and': return z3.And([self.zf(x) for x in c[1]])
        if k == 'or': return z3.Or([self.zf(x) for x in c[1]])
        if k == 'not': return z3.Not(self.zf(c[1]))
        return translator(False).f(c)

def has_fc(f):
    if isinstance(f, tuple):
        if f and f[0] == 'fc': return True
        if f and f[0] in ('and', 'or'): return any(has_fc(x) for x in f[1])
        if f and f[0] == 'not': return has_fc(f[1])
    return False
def has_fold(t, seen=None):
    if seen is None: seen = set()
    if isinstance(t, tuple):
        if t in seen: return False
        seen.add(t)
        if t and t[0] == 'fold': return True
        return any(has_fold(x, seen) for x in t if isinstance(x, tuple))
    return False
def show_f(f):
    if f[0] == 'ld': return '%s[%s]' % (f[1], show(f[2]))
    if f[0] == 'i': return show_atom(atom_of(f[1]))
    if f[0] == 'ip': return '(%s)' % show(f[1])
    if f[0] == 'inv': return '1/(%s)' % show_l(f[1])
    if f[0] == 'call': return '%s(%s)' % (f[1], ', '.join(show_l(x) for x in f[2:]))
    if f[0] == 'max': return 'max{%s}' % '; '.join('%s | %s' % (show_l(l), show(d)) for v, d, l in f[1])
    if f[0] == 'sym': return f[1]
    return show(f[1])
def show_item(it):
    c, v, d, fs = it
    s = ('%s*' % c if c != 1 or not fs else '') + '*'.join(show_f(f) for f in fs)
    if v or d is not True: s = 'sum{%s | %s: %s}' % (','.join(show_atom(atom_of(x)) for x in v), show(d), s)
    return s
def show_l(l): return ' + '.join(map(show_item, l)) or '0'

def assume_in(t, c, val, memo=None):
    """simplify t knowing that condition c has truth value val"""
    if memo is None: memo = {}
    def f(x):
        if isinstance(x, Poly) or not isinstance(x, tuple): return x
        r = memo.get(x)
        if r is not None or x in memo: return r
        if x == c: r = val
        elif x == neg(c): r = not val
        elif x and x[0] == 'ite': r = mk_ite(f(x[1]), f(x[2]), f(x[3]))
        elif x and x[0] == 'and': r = conj([f(y) for y in x[1]])
        elif x and x[0] == 'or': r = disj([f(y) for y in x[1]])
        elif x and x[0] == 'not': r = neg(f(x[1]))
        elif x and x[0] == 'op': r = mk_op(x[1], x[2], *[f(y) for y in x[3:]])
        else: r = tuple(f(y) if isinstance(y, tuple) else y for y in x)
        memo[x] = r
        return r
    return f(t)
def simp(facts, t, depth=0):
    """drop the cases of t that the facts exclude"""
    if not isinstance(t, tuple) or depth > 60: return t
    if t[0] == 'ite':
        c = t[1]
        if isinstance(c, tuple):
            if prove(facts, c, 2): return simp(facts, t[2], depth+1)
            if prove(facts, neg(c), 2): return simp(facts, t[3], depth+1)
        a = simp(list(facts) + conjuncts(c), t[2], depth+1); b = simp(list(facts) + conjuncts(neg(c)), t[3], depth+1)
        return mk_ite(c, a, b)
    if t[0] == 'op': return mk_op(t[1], t[2], *[simp(facts, x, depth+1) for x in t[3:]])
    if t[0] == 'cast': return t[:2] + (simp(facts, t[2], depth+1),)
    if t[0] == 'fold':
        body = simp(list(facts) + conjuncts(t[2]), t[4], depth+1)
        return t[:4] + (body, simp(facts, t[5], depth+1)) + t[6:]
    return t
def int_conds(t, bound=frozenset(), out=None, seen=None):
    """integer ite conditions that do not mention bound variables"""
    if out is None: out = []; seen = set()
    if not isinstance(t, tuple) or (t, bound) in seen: return out
    seen.add((t, bound))
    if t and t[0] == 'ite':
        for c in ([t[1]] if t[1][0] not in ('and', 'or') else list(t[1][1])):
            if isinstance(c, tuple) and not has_fc(c) and not (free_atoms(c) & bound) and not free_syms(c) and c not in out and neg(c) not in out: out.append(c)
    b2 = bound | {t[1]} if t and t[0] == 'fold' else bound
    for x in t:
        if isinstance(x, tuple): int_conds(x, b2, out, seen)
    return out

def poly_conds(t, out=None, bound=frozenset(), seen=None):
    """conditions of integer case distinctions inside index and size expressions"""
    if out is None: out = []; seen = set()
    if isinstance(t, Poly):
        for at in t.atoms():
            x = atom_of(at)
            if x[0] == 'iite':
                if not has_fc(x[1]) and not (free_atoms(x[1]) & bound) and x[1] not in out: out.append(x[1])
            if x[0] != 'v':
                for y in x[1:]:
                    if isinstance(y, (Poly, tuple)): poly_conds(y, out, bound, seen)
    elif isinstance(t, tuple):
        if (t, bound) in seen: return out
        seen.add((t, bound))
        b2 = bound | {t[1]} if t and t[0] == 'fold' else bound
        for x in t:
            if isinstance(x, (tuple, Poly)): poly_conds(x, out, b2, seen)
    return out
def decide(facts, t):
    """resolve integer case distinctions that the facts decide"""
    t = simp_divs(facts, t)
    s = {}
    for c in poly_conds(t):
        if prove(facts, c, 2): s[c] = True
        elif prove(facts, neg(c), 2): s[c] = False
    return resolve(t, s) if s else t
def div_atoms(t, out=None, seen=None, bound=frozenset()):
    if out is None: out = []; seen = set()
    if isinstance(t, Poly):
        for at in t.atoms():
            if (at, bound) in seen: continue
            seen.add((at, bound))
            x = atom_of(at)
            if x[0] == 'div' and not (free_atoms(Poly({(at,): 1})) & bound) and at not in out: out.append(at)
            if x[0] != 'v':
                for y in x[1:]:
                    if isinstance(y, (Poly, tuple)): div_atoms(y, out, seen, bound)
    elif isinstance(t, tuple):
        if (t, bound) in seen: return out
        seen.add((t, bound))
        b2 = bound | {t[1]} if t and t[0] == 'fold' else bound
        for x in t:
            if isinstance(x, (tuple, Poly)): div_atoms(x, out, seen, b2)
    return out
def simp_divs(facts, t):
    """(d*q + r) div d = q where the facts give 0 <= r < d"""
    if not isinstance(t, tuple): return t
    s = {}
    for a in div_atoms(t):
        _, n, d = atom_of(a)
        if len(d.m) != 1: continue
        (dk, dc), = d.m.items()
        if dc != 1: continue
        q = {}; r = {}
        for k, v in n.m.items():
            kk = list(k)
            try:
                for x in dk: kk.remove(x)
                q[tuple(kk)] = v
            except ValueError: r[k] = v
        q, r = Poly(q), Poly(r)
        if prove(facts, conj([ge(r), lt(r, d)]), 2): s[a] = q
    return subst(t, s) if s else t
def equal(facts, a, b, dims, split=6):
    """(proved, reasons)"""
    if a == b: return True, []
    facts = list(facts)
    if False in facts: return True, []
    for t, first in ((a, True), (b, False)):
        if t[0] == 'ite' and not has_fc(t[1]) and not free_syms(t[1]):
            c = conj([g for g in conjuncts(t[1]) if not prove(facts, g, 2)])
            if c is True: return equal(facts, t[2], b, dims, split) if first else equal(facts, a, t[2], dims, split)
            if prove(facts, neg(c), 2): return equal(facts, t[3], b, dims, split) if first else equal(facts, a, t[3], dims, split)
            for v in (True, False):
                g = c if v else neg(c); x = t[2] if v else t[3]
                fs = facts + conjuncts(g)
                ok, w = equal(fs, x, b, dims, split) if first else equal(fs, a, x, dims, split)
                if not ok: return False, ['case %s: ' % show(g) + y for y in w[:4]]
            return True, []
    a2 = decide(facts, simp(facts, a)); b2 = decide(facts, simp(facts, b))
    if (a2, b2) != (a, b): return equal(facts, a2, b2, dims, split)
    R = Real(facts); R.dims = dims
    if not has_fold(a) and not has_fold(b):
        if R.z3_equal(a, b): return True, []
    if R.eq_lf(R.lf(a), R.lf(b)): STATS.hit('sum matching'); return True, []
    why = R.why
    if split:
        for c in poly_conds(a) + poly_conds(b) + int_conds(a) + int_conds(b):
            if prove(facts, c, 2) or prove(facts, neg(c), 2): continue
            for v in (True, False):
                g = c if v else neg(c)
                ok, w = equal(facts + conjuncts(g), assume_in(a, c, v), assume_in(b, c, v), dims, split-1)
                if not ok: return False, ['case %s: ' % show(g) + x for x in w[:4]] or why
            return True, []
    return False, why[-6:] or ['values differ']

# ------------------------------------------------------------------ overflow for bounded inputs
LOGMAX = {'float': 88.7, 'double': 709.7, 'x86_fp80': 11356.0}
def overflow(t, xmax):
    """None if no numerator of a quotient (and no result) can leave the range of its type, for inputs of magnitude <= xmax.
    Intervals of the natural logarithm of magnitudes would be finer; plain intervals decide the layers here."""
    import math
    bad = []
    INF = math.inf
    def iv(t):
        k = t[0]
        if k == 'c': return (t[2], t[2])
        if k == 'ld': return (-xmax, xmax)
        if k == 'i2f': return (-2.0**32, 2.0**32)
        if k == 'cast':
            a = iv(t[2]); m = LOGMAX.get(t[1], 0)
            return a
        if k == 'ite':
            a, b = iv(t[2]), iv(t[3]); return (min(a[0], b[0]), max(a[1], b[1]))
        if k == 'call':
            a = iv(t[3])
            if t[1] == 'exp':
                lim = LOGMAX.get(t[2], 88.7)
                lo = math.exp(a[0]) if a[0] < 700 else INF
                hi = INF if a[1] > lim else (math.exp(a[1]) if a[1] < 700 else 1e308)
                return (lo, hi)
            if t[1] == 'tanh': return (-1.0, 1.0)
            return (-INF, INF)
        if k == 'op':
            n = t[1]; a = iv(t[3])
            if n == 'neg': return (-a[1], -a[0])
            b = iv(t[4]) if len(t) > 4 else a
            if n == 'add': return (a[0] + b[0], a[1] + b[1])
            if n == 'sub': return (a[0] - b[1], a[1] - b[0])
            if n == 'mul':
                c = [x*y if x and y else 0.0 for x in a for y in b]; return (min(c), max(c))
            if n == 'div':
                if a[1] == INF or a[0] == -INF: bad.append('the numerator may overflow to infinity')
                return (-INF, INF) if b[0] <= 0 <= b[1] else (min(a[0]/b[0] if b[0] else 0, 0), max(a[1]/b[0] if b[0] else INF, 0))
            return (-INF, INF)
        if k == 'fold':
            # a sum of non-negative terms stays finite in the wider type; its terms must be
            b = t[4]
            if b[0] == 'op' and b[1] == 'add':
                x = b[4] if b[3][0] == 'sym' and b[3][1] == t[3] else b[3]
                a = iv(x)
                if a[1] == INF: bad.append('a summand may overflow to infinity')
                return (0.0 if a[0] >= 0 else -INF, INF)
            return (-xmax, xmax)
        return (-INF, INF)
    iv(t)
    return bad[0] if bad else None
