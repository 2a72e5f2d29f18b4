"""Run one configuration: symbolic execution, postcondition, frame, leaks."""
import re, time, traceback
from .core import *
from . import core, sx, scen, real, specs
from .sx import Unsupported, Base, Obl

class Result:
    def __init__(self, key):
        self.key = key; self.obls = []; self.unsupported = None; self.wall = 0; self.assumptions = set()
        self.functions = {}; self.loops = 0; self.math = set(); self.exits = []; self.returns = 0
    def bad(self, kinds=None): return [o for o in self.obls if not o['ok'] and (kinds is None or o['kind'] in kinds)]

def run_config(mod, key, want=None):
    cf = specs.CONFIGS[key]
    res = Result(key); t0 = time.time()
    core.DIV_ABBR.clear()
    for a, b, q in cf.abbr: core.DIV_ABBR[(a, b)] = q
    q0 = STATS.queries, STATS.z3_time, dict(STATS.by)
    r = scen.Run(mod, cf.scenario, cf.bind, cf.facts, cf.floats, present=cf.io and cf.io['present'])
    if getattr(cf, 'setup', None): cf.setup(r)
    extra = []
    def note(kind, ok, text, where='harness', why=None):
        # a value that depends on a loop whose number of iterations was given up is not described well enough to be judged
        if not ok and re.search(r'\bn!\d+', str(why)): raise Unsupported('a loop whose length is not described precisely: ' + text)
        extra.append(dict(kind=kind, ok=bool(ok), where=where, text=text, why=why))
    try:
        r.run()
        post(r, cf, note, want)
    except Unsupported as e:
        res.unsupported = str(e)[:600]
        if sx.DEBUG: traceback.print_exc()
    except RecursionError as e:
        res.unsupported = 'recursion limit'
    except Exception as e:
        res.unsupported = 'internal: %s: %s' % (type(e).__name__, str(e)[:300])
        if sx.DEBUG: traceback.print_exc()
    for o in r.ex.obls:
        res.obls.append(dict(kind=o.kind, ok=bool(o.ok), where=o.where(), text=o.text, why=None if o.ok or o.goal is None else show(o.goal)))
    res.obls += extra
    res.exits = [(show(o[2]) if isinstance(o[2], Poly) else str(o[2])) for o in r.outs if o[0] == 'exit']
    res.returns = sum(1 for o in r.outs if o[0] == 'ret')
    res.wall = time.time() - t0
    res.functions = dict(r.ex.functions_executed); res.loops = r.ex.loops_summarised; res.assumptions = set(r.ex.assumptions); res.math = set(r.ex.math_used)
    res.queries = STATS.queries - q0[0]; res.z3_time = STATS.z3_time - q0[1]
    res.by = {k: v - q0[2].get(k, 0) for k, v in STATS.by.items() if v != q0[2].get(k, 0)}
    return res

def bound_syms(t, out=None):
    if out is None: out = set()
    if isinstance(t, tuple):
        if t and t[0] == 'fold': out.add(t[3])
        for x in t:
            if isinstance(x, tuple): bound_syms(x, out)
    return out

def post_equality(r, cf, st, note, tag):
    """true exactly when ranks, extents and all elements agree"""
    A, B = cf.equality; ret = dict(st.ghost.get('outs', ())).get('ret')
    n = ONE
    for d in A: n = n*P_(d)
    if not (isinstance(ret, Poly) and ret.is_const()): note('post', False, 'the result is not decided: %s%s' % (ret, tag)); return
    facts = list(st.facts)
    if ret.cval():
        if len(A) != len(B): note('post', False, 'tensors of different rank compare equal%s' % tag); return
        for a, b in zip(A, B): note('post', prove(facts, eq(a, b), 2), 'equal only if the extents %s and %s agree%s' % (show(a), show(b), tag))
        k = var(fresh('x')); facts = facts + [ge(k), lt(k, n)]
        for f in list(facts):
            if isinstance(f, tuple) and f[0] == 'all':
                if prove(facts, subst(f[2], {f[1]: k}), 2): facts += list(conjuncts(subst(f[3], {f[1]: k})))
        goal = specs.close(k, None)
        ok = any(norm_fc(g) == norm_fc(goal) for f in facts for g in conjuncts(f)) or prove(facts, goal, 2)
        note('post', ok, 'equal only if every pair of elements is within the tolerance%s' % tag)
    else:
        if len(A) != len(B): note('post', True, 'tensors of different rank differ%s' % tag); return
        if prove(facts, disj([neg(eq(a, b)) for a, b in zip(A, B)]), 2): note('post', True, 'unequal because of an extent%s' % tag); return
        ok = False
        for f in facts:
            if f[0] == 'all': continue
            for g in conjuncts(f):
                if isinstance(g, tuple) and g[0] == 'not' and isinstance(g[1], tuple) and g[1][0] == 'fc':
                    for i in {x[2] for x in walk(g) if x[0] == 'ld'}:
                        if norm_fc(g[1]) == norm_fc(specs.close(i, None)) and prove(facts, conj([ge(i), lt(i, n)]), 2): ok = True
        note('post', ok, 'unequal only because of an extent or an element that differs by at least the tolerance%s' % tag)
def walk(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str): yield t
        for x in t:
            if isinstance(x, tuple): yield from walk(x)
def post_io(r, cf, st, note, tag):
    """the file is accepted exactly when it is well-formed; True when the contents remain to be checked"""
    ret = dict(st.ghost.get('outs', ())).get('ret')
    for bid, b in st.blk.items():
        if b.origin == 'FILE': note('value', not st.alive.get(bid), 'the file is closed%s' % tag)
    if not isinstance(ret, Poly): note('post', False, 'the result is not an integer%s' % tag); return False
    facts = instances(st.facts)
    accept = cf.io['accept']
    want = P_(cf.io.get('ret', ZERO)); okval = P_(cf.io.get('fail', ONE))
    zero = prove(facts, eq(ret, ZERO), 2); nonzero = not zero and prove(facts, neg(eq(ret, ZERO)), 2)
    if not zero and not nonzero: note('post', False, 'the result is not decided: %s%s' % (show(ret), tag)); return False
    if nonzero:
        def contradiction():
            if prove(list(facts) + list(accept), False, 2): return True
            fs, sub = solved(list(facts) + list(accept)); return prove(fs, False, 2)
        note('post', accept is False or contradiction(), 'rejected only if the file is malformed%s' % tag); return False
    if accept is False: note('post', False, 'a file that cannot be accepted is accepted%s' % tag); return False
    def holds(g):
        if prove(facts, g, 2): return True
        fs, sub = solved(facts); return prove(fs, sub(g), 2)
    for g in accept: note('post', holds(g), 'accepted only if %s%s' % (show(g)[:120], tag))
    return True
def solved(facts):
    """eliminate file words that an equation determines (congruence: file[a] and file[b] are the same word when a = b)"""
    fs = list(facts); subs = []
    # trip counts pinned from both sides
    for f in facts:
        if isinstance(f, tuple) and f[0] == 'le':
            for mono, cf in f[1].m.items():
                if len(mono) == 1 and cf in (1, -1) and str(core.atom_of(mono[0])[1]).startswith('n!'):
                    e = eq(f[1])
                    if e not in fs and prove(facts, e, 2): fs.append(e)
    def sub(x):
        for s in subs: x = subst(x, s)
        return x
    while True:
        for f in fs:
            if not (isinstance(f, tuple) and f[0] == 'eq'): continue
            for mono, cf in f[1].m.items():
                if len(mono) != 1 or cf not in (1, -1): continue
                t = core.atom_of(mono[0])
                if not (t[0] == 'ild' and t[1] == 'file.u32') and not str(t[1]).startswith('n!'): continue
                rest = f[1] - Poly({mono: cf}); val = rest*(-cf)
                if mono[0] in free_atoms(val): continue
                s = {mono[0]: val}; break
            else: continue
            break
        else: return fs, sub
        rng = core.ARR_RANGE.get(t[1])
        subs.append(s); fs = [g for g in (subst(g, s) for g in fs) if g is not True]
        if rng: fs += [g for g in (ge(val, const(rng[0])), le(val, const(rng[1]))) if g is not True]
def instances(facts):
    """facts about all earlier iterations, instantiated at the last one"""
    out = list(facts)
    for f in facts:
        if isinstance(f, tuple) and f[0] == 'all':
            for g in conjuncts(f[2]):
                if isinstance(g, tuple) and g[0] == 'le' and g[1].coeffs_in(f[1]).get(1) == ONE:
                    hi = -g[1].coeffs_in(f[1]).get(0, ZERO); q = {f[1]: hi}
                    out.append(disj([neg(subst(f[2], q)), subst(f[3], q)]))
    return tuple(out)
def norm_fc(g):
    """|a-b| and |b-a| are the same; a tolerance widened to double is the same"""
    if not isinstance(g, tuple) or g[0] != 'fc': return g
    def cv(t):
        if isinstance(t, tuple) and t[0] == 'cast': return cv(t[2])
        if isinstance(t, tuple) and t[0] == 'op' and t[1] == 'abs' and t[3][0] == 'op' and t[3][1] == 'sub':
            return ('abs-sub',) + tuple(sorted(map(str, (cv(t[3][3]), cv(t[3][4])))))
        if isinstance(t, tuple) and t[0] == 'c': return ('c', round(t[2], 15))
        return t
    return (g[0], g[1], cv(g[2]), cv(g[3]))

def post_refuse(r, cf, note):
    """every path ends in a non-zero exit, with every tensor as it was when the operation started"""
    for st in r.ends: note('refuse', False, 'an unsupported configuration is not refused: the operation returns')
    for o in r.outs:
        if o[0] == 'ret' and not r.ends: note('refuse', False, 'an unsupported configuration is not refused')
    exits = [o for o in r.outs if o[0] == 'exit']
    note('vacuity', len(exits) > 0, 'the refusal is reached')
    for o in exits:
        st, code = o[1], o[2]
        note('refuse', isinstance(code, Poly) and code.is_const() and code.cval() % 256 != 0, 'the exit status is not zero (%s)' % (show(code) if isinstance(code, Poly) else code))
        if 'begin' not in st.ghost: note('refuse', False, 'the process ends before the operation starts'); continue
        m0, alive = st.ghost['begin']
        for g, v in st.ghost.items():
            if g.startswith('T:') and v[0] is not None and v[0] in m0:
                same = st.mem.get(v[0]) is m0[v[0]] and st.alive.get(v[0]) == alive.get(v[0])
                note('refuse', same, 'tensor %s is unchanged when the process ends' % g[2:])

def post(r, cf, note, want=None):
    funct = want is None or 'post' in want; pure = want is None or 'pure' in want
    ex = r.ex
    if cf.refuse: return post_refuse(r, cf, note)
    for o in r.outs:
        if o[0] == 'exit':
            note('exit', False, 'a supported configuration terminates the process (status %s)' % (show(o[2]) if isinstance(o[2], Poly) else o[2]), 'harness')
    if not any(o[0] == 'exit' for o in r.outs): note('exit', True, 'no path terminates the process')
    # every scenario must finish
    note('vacuity', len(r.ends) > 0, 'the operation returns for some input')
    tensors = {}
    for n, (st) in enumerate(r.ends):
        tag = '' if len(r.ends) == 1 else ' [path %d]' % n
        for g, v in st.ghost.items():
            if g.startswith('T:'): tensors[g[2:]] = v
        dims_by = {k: [d if isinstance(d, Poly) else P_(d) for d in v[1]] for k, v in tensors.items() if v[1] is not None}
        begin_mem, begin_alive = st.ghost['begin']
        outname = cf.out
        obid = st.ghost['T:' + outname][0] if outname and 'T:' + outname in st.ghost else None
        if outname and obid is None: raise Unsupported('output tensor not registered')
        # ---- frame: nothing but the output changes
        for bid, m0 in begin_mem.items():
            if bid == obid or bid not in st.mem or r.ex.records is not None and bid in r.ex.records.own: continue     # (checked where the records are read)
            b = st.blk[bid]
            if b.origin == 'alloca': continue
            m1 = st.mem[bid]
            if m1 is m0: continue
            if type(m0) is dict or type(m1) is dict:
                if m0 == m1: continue
                kind = 'frame' if b.origin != 'new' else 'state'
                note(kind, False, '%s is modified by the operation%s' % (b.name, tag)); continue
            # array: every element still has its value
            k = var(fresh('x')); s = st.clone(); n_el = exact_div_poly(b.size, const(b.esize or 4))
            s.assume(conj([ge(k), lt(k, n_el)]))
            try:
                v1 = ex._read(s, m1, st.blk[bid], k, ('f', 'float'), None)
                ok = v1 == ('ld', b.name, k, 'float')
            except Unsupported: ok = False
            note('frame', ok, 'tensor %s is left unchanged%s' % (b.name, tag))
        for bid, al in begin_alive.items():
            if al and not st.alive.get(bid) and bid in st.blk: note('frame', False, '%s is released by the operation%s' % (st.blk[bid].name, tag))
        note('frame', True, 'inputs, parameters, configuration and globals unchanged%s' % tag)
        # ---- heap: blocks allocated by the operation and still alive at its end
        for bid, b in st.blk.items():
            if bid not in begin_mem and st.alive.get(bid) and b.origin in ('new', 'new[]', 'malloc') and not cf.iopost and cf.out != 'res' and cf.scenario != 'ctor':
                note('leak', False, 'memory allocated by the operation is not released: %s%s' % (b.name, tag))
        if cf.io:
            if cf.iopost:
                for bid, b in st.blk.items():
                    if b.origin == 'FILE': note('value', not st.alive.get(bid), 'the file is closed%s' % tag)
                cf.iopost(r, cf, st, note, tag); continue
            if not post_io(r, cf, st, note, tag): continue
        if getattr(cf, 'equality', None): post_equality(r, cf, st, note, tag)
        # ---- reported values
        outs = st.ghost.get('outs', ())
        if cf.outs == 'returned':
            d = dict(outs); note('value', d.get('returned') == d.get('dest'), 'the destination is returned%s' % tag)
        elif cf.outs is not None:
            note('value', len(outs) == len(cf.outs), 'number of reported values%s' % tag)
            for (nm, got), (nm2, want) in zip(outs, cf.outs):
                if isinstance(got, Poly): note('value', nm == nm2 and prove(st.facts, eq(got, want), 2), '%s = %s (code: %s)%s' % (nm2, show(want), show(got), tag))
                else:
                    ok = got[0] == 'ptr' and got[1] == obid and nm == nm2 and prove(st.facts, eq(got[2], 4*want), 2)
                    note('value', ok, '%s addresses element %s (code: %s)%s' % (nm2, show(want), show(got[2]) if got[0] == 'ptr' else got[0], tag))
        # ---- output contents
        for cellvars in (getattr(cf, 'cellvars', None),) if not hasattr(cf, 'cellsets') else cf.cellsets:
            if cf.spec is None or not (funct or pure): break
            s = st.clone()
            if cellvars:
                x, fs, extra = cellvars()
                for d, xi in zip(cf.dims, x):
                    if xi != ZERO and not (free_atoms(xi) & free_atoms(conj(fs))): s.assume(conj([ge(xi), lt(xi, d)]))
                for g in fs: s.assume(g)
                goal = cf.spec(x, extra)
            else:
                x = []
                for i, d in enumerate(cf.dims):
                    if P_(d) == ONE: x.append(ZERO)
                    else:
                        v = var('x%d' % i); x.append(v); s.assume(conj([ge(v), lt(v, P_(d))]))
                goal = cf.spec(x)
            idx = ZERO
            for d, xi in zip(cf.dims, x): idx = idx*P_(d) + xi
            b = s.blk[obid]
            if b.tag is None or b.tag[0] != 'dims': 
                b = sx.Blk(b.id, b.name, b.size, b.kind, b.origin, b.esize, b.ety, b.ro, ('dims', tuple(cf.dims))); s.blk[obid] = b
            if isinstance(st.ghost.get('R:' + outname), Poly): idx = idx + exact_div_poly(st.ghost['R:' + outname], const(4))
            if b.kind == 'lazy': s.blk[obid] = b = sx.Blk(b.id, b.name, b.size, 'array', b.origin, 4, ('f', 'float'), False, b.tag)
            n_el = ONE
            for d in cf.dims: n_el = n_el*P_(d)
            note('value', prove(s.facts, eq(b.size, 4*n_el), 2), 'size of %s is %s elements%s' % (outname, show(n_el), tag))
            got = ex._read(s, s.mem[obid], b, idx, ('f', 'float'), None)
            if outname in arrays_in(got): got = real.simp(s.facts, got)
            loose = [y for y in free_syms(got) if y.startswith('acc') and y not in bound_syms(got)]
            if loose: raise Unsupported('value depends on an unsummarised accumulator')
            if funct:
                ok, why = real.equal(s.facts, got, goal, dims_by)
                if cf.xmax:
                    w = real.overflow(got, cf.xmax)
                    note('range', w is None, 'no quotient of %s overflows for inputs of magnitude up to %d%s' % (outname, cf.xmax, tag), why=w)
                note('post', ok, 'every element of %s has the specified value%s' % (outname, tag), why=None if ok else '; '.join(why)[:900])
            arrs = arrays_in(got); allowed = arrays_in(goal) | {a for a in tensors if a != outname} | {'f:' + k for k in ('x',)}
            dirty = [a for a in arrs if a == outname and a not in arrays_in(goal)]
            und = [y for y in arrs if y.startswith(('undef', 'global:'))] + [y for y in free_syms(got) if y.startswith(('undef', 'opaque'))]
            note('pure', not dirty and not und, 'the output depends only on inputs, parameters and configuration%s' % tag,
                 why='depends on %s' % ', '.join(dirty + und) if dirty or und else None)
    if getattr(cf, 'iofinal', None): cf.iofinal(r, cf, note)
    # ---- after destruction everything is released
    for o in r.outs:
        if o[0] == 'ret':
            lk = [b.name for bid, b in o[1].blk.items() if o[1].alive.get(bid) and b.origin in ('new', 'new[]', 'malloc')]
            note('leak', not lk, 'all memory is released after destruction' if not lk else 'not released after destruction: ' + ', '.join(lk))
