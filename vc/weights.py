"""Contract of the weight file reader (C19).

The file is magic, name, number of layers, that many records, end marker.  The loop over the records is cut at its head:
the state there is arbitrary but for the invariant, the body runs once, and every way out of it is checked.

Invariant at the head of iteration k: 0 <= k <= N, the read position P is where record k begins, K kernel tensors and B bias
tensors belong to records 0..k-1, and every integer the loop carries is its initial value plus k, K or B (which one is found
from the code and then proved).  The body must, for a well-formed record, leave the position at the record's end, add exactly
the tensors of the record to K and B, give kernel tensor K and bias tensors B, B+1, .. the record's values and leave
everything else as it is; for any other record it must return non-zero.  Induction over k is the lemma."""
from .core import *
from . import core, files, sx
from .sx import Unsupported, DeadPath, Blk, Base, State

L = files.LEN; LIM = 1 << 29; MAXNAME = 100
TYPES = ('Conv', 'BatchNormalization', 'Gemm', 'MatMul', 'Transpose', 'Add')
A, B, C, D, GH, GW = (var(n) for n in ('KO', 'KI', 'KH', 'KW', 'GH', 'GW'))
M = [var('m%d' % i) for i in range(4)]
def u32(p): return apoly(('ild', 'file.u32', P_(p)))
def text(p, s): return conj([eq(files.u8(p + i), const(c)) for i, c in enumerate(s.encode())])
def lets(st): return [f for f in st.facts if isinstance(f, tuple) and f[0] == 'all']

def newline(st, p):
    """('at', n): the first newline at or after p is byte n-1, within the limit; ('none', why); None: not decided"""
    fs = st.facts; j = atom(('v', 'j_nl')); jp = Poly({(j,): 1})
    cands = []
    for f in lets(st):
        for g in conjuncts(f[2]):
            if isinstance(g, tuple) and g[0] == 'le' and g[1].coeffs_in(f[1]).get(1) == ONE:
                n = ONE - g[1].coeffs_in(f[1]).get(0, ZERO)
                s = {f[1]: jp + 1}; h = list(fs) + conjuncts(subst(f[3], s)) + [ge(jp), le(jp, n - 2)]
                if prove(h, neg(eq(files.u8(p + jp), const(10))), 2): cands.append(n)
    for n in [ZERO, ONE] + cands:
        if n == ZERO:
            if prove(fs, ge(p, L), 2): return 'none', 'the file ends'
            continue
        last = eq(files.u8(p + n - 1), const(10))
        if prove(fs, conj([ge(n, ONE), last]), 2):
            if prove(fs, le(n, const(MAXNAME)), 2): return 'at', n
            if prove(fs, gt(n, const(MAXNAME)), 2): return 'none', 'the name is too long'
            continue
        if prove(fs, disj([le(n), neg(last)]), 2):
            if prove(fs, ge(p + n, L), 2): return 'none', 'the file ends in a name'
            if prove(fs, ge(n, const(MAXNAME)), 2): return 'none', 'the name is too long'
        elif prove(fs, ge(n, const(MAXNAME + 1)), 2): return 'none', 'the name is too long'
    return None

class Open(Exception):
    """the path does not decide this"""
    def __init__(self, f, what): self.f = f; self.what = what

class Records:
    def __init__(self, r, kernel):
        self.r = r; self.ex = r.ex; self.kernel = kernel; self.phis = set(); self.used = {'k': set(), 'b': set()}; self.cut = None; self.own = set()
        ex = r.ex; ex.records = self
        ex.externs['@vh_inputs'] = self.inputs; ex.externs['@vh_drop_inputs'] = self.drop
        self.accepted = False
    # ---- the caller's tensors: one representative kernel tensor of each shape, four bias tensors
    def inputs(self, ex, st, av, ins):
        from .scen import cstr
        t = cstr(ex, st, av[0]); fn = ex.mod.functions['@_ZL2mkPKcjjjjj']
        ts = [('b%d' % i, 1, (M[i], ZERO, ZERO, ZERO)) for i in range(4)] if t == 'b' else \
             [('k', 4, (A, B, C, D)) if self.kernel != 3 else ('k', 3, (A, B, D, ZERO)), ('g', 2, (GH, GW, ZERO, ZERO))]
        before = set(st.blk); states = [st]
        for nm, nd, dims in ts:
            nxt = []
            for s in states:
                b = ex.new_block(s, 'name', len(nm) + 1, 'cells', 'caller')
                for i, c in enumerate(nm + '\0'): ex.set_cell(s, b.id, i, 1, const(ord(c)))
                for o in ex.call_function(s, fn, [('ptr', b.id, ZERO), const(nd)] + list(dims)):
                    if o[0] != 'ret': raise Unsupported('tensor construction')
                    o[1].ghost['R_' + nm] = o[2]; nxt.append(o[1])
            states = nxt
        for s in states:
            b = ex.new_block(s, 'the table of %s tensors' % ('kernel' if t == 'k' else 'bias'), const(1 << 40), 'table', 'caller', tag=t)
            self.own |= {x for x in s.blk if x not in before}
            if ins.res: s.env[ins.res] = ('ptr', b.id, ZERO)
        return ('multi', states, [])
    def drop(self, ex, st, av, ins):
        for b in self.own:
            if b in st.blk: st.alive[b] = False
        return None
    def table(self, st, b, off, ins):
        """the tensor in a table"""
        if st.ghost.get('phase') != 'body': raise Unsupported('a tensor is taken from the table outside the loop over the records')
        e = exact_div_poly(off, const(8))
        if e is None: raise Unsupported('misaligned access to a table')
        ph = [a for a in self.phis if a in free_atoms(e)]; c = e - (Poly({(ph[0],): 1}) if ph else ZERO)
        if len(ph) != 1 or not c.is_const() or not 0 <= c.cval() <= 3:
            self.ex.record(st, 'post', False, ins, 'the tensor taken is the next one of its kind (code: entry %s)' % show(e)); raise DeadPath()
        self.used[b.tag].add(ph[0]); c = int(c.cval())
        try: ty, q = self.type(st)
        except Open as o: ty = None
        if ty is None: raise Unsupported('a tensor is taken before the type of the layer is known')
        if b.tag == 'k':
            ok = c == 0 and (ty in ('Gemm', 'MatMul', 'Transpose') or ty == 'Conv' and self.kernel)
            if not ok: self.ex.record(st, 'post', False, ins, 'a layer of type %s%s takes no kernel tensor %d' % (ty, '' if self.kernel else ' without weights', c)); raise DeadPath()
            return st.ghost['R_k' if ty == 'Conv' else 'R_g']
        try: w = self.counts(st, ty, q, c + 1)
        except Open as o: raise Unsupported('a bias tensor is taken before %s is known' % o.what)
        w = [x for x in w if x != ZERO]
        if len(w) <= c:
            self.ex.record(st, 'post', False, ins, 'a layer of type %s takes the next bias tensor only for a list that is not empty' % ty); raise DeadPath()
        st.assume(eq(M[c], w[c])); return st.ghost['R_b%d' % c]
    # ---- the specification of a record at the current position
    def known(self, st, f, what):
        if prove(st.facts, f, 2): return True
        if prove(st.facts, neg(f), 2): return False
        raise Open(f, what)
    def type(self, st):
        """(type, position after the type name)"""
        if 'rectype' in st.ghost: return st.ghost['rectype']
        p = st.ghost['P']; q = p
        for i in range(2):
            n = newline(st, q)
            if n is None: raise Open(None, 'the %s name' % ('layer', 'type')[i])
            if n[0] == 'none': return None, n[1]
            q0, n0 = q, n[1]; q = q + n0
        und = None
        for t in TYPES:
            f = conj([text(q0, t), eq(n0, const(len(t) + 1))])
            try:
                if self.known(st, f, 'the type'): st.ghost['rectype'] = (t, q); return t, q
            except Open as o: und = o
        if und: raise und
        return None, 'unknown type'
    def word(self, st, pos):
        """the name of a word of the file that describes the kernel tensor"""
        if st.ghost.get('phase') != 'body': return None
        try: ty, q = self.type(st)
        except Open: return None
        if ty is None: return None
        o = pos - q
        if not o.is_const() or not 0 <= o.cval() <= 12: return None
        if ty == 'Conv':
            if not self.kernel: st.assume(disj([eq(u32(q + 4*i)) for i in range(4)])); return None
            return {0: A, 4: B, 8: C if self.kernel == 4 else ONE, 12: D}.get(o.cval())
        if ty in ('Gemm', 'MatMul', 'Transpose'): return {0: ONE, 4: GH, 8: GW}.get(o.cval())
        return None
    def lists(self, ty, q):
        """(kernel data position or None, number of its values, position of the first count, number of lists)"""
        if ty == 'Conv': n = A*B*(C if self.kernel == 4 else ONE)*D if self.kernel else ZERO; return q + 16, n, q + 16 + 4*n, 1
        if ty == 'BatchNormalization': return None, ZERO, q, 4
        if ty == 'Add': return None, ZERO, q, 1
        return q + 12, GH*GW, q + 12 + 4*GH*GW, 1
    def counts(self, st, ty, q, need=9):
        """the lengths of the record's lists (as far as needed to have `need` that are not empty)"""
        _, _, q, n = self.lists(ty, q); out = []
        for i in range(n):
            w = u32(q)
            if self.known(st, eq(w), 'the length of list %d' % i): out.append(ZERO); q = q + 4
            else: out.append(w); q = q + 4 + 4*w
            if len([x for x in out if x != ZERO]) >= need: break
        self.end = q; return out
    def walk(self, st):
        """('bad', why) or ('ok', end, dK, [lengths of the lists that are not empty], [(tensor, dims, data position)])"""
        ty, q = self.type(st)
        if ty is None: return 'bad', q
        try: ws = self.counts(st, ty, q)
        except Open as o:
            if self.cut_short(st, ty, q): return 'bad', 'the file ends in the record'
            raise
        end = self.end
        if not prove(st.facts, le(end, L), 2):
            if prove(list(st.facts) + [le(end, L)], False, 2): return 'bad', 'the file ends in the record'
            raise Open(le(end, L), 'the completeness of the record')
        dp, n, c, k = self.lists(ty, q); out = []
        if n != ZERO: out.append(('k' if ty == 'Conv' else 'g', ((A, B, C, D) if self.kernel == 4 else (A, B, D)) if ty == 'Conv' else (GH, GW), dp))
        i = 0
        for w in ws:
            if w != ZERO: out.append(('b%d' % i, (w,), c + 4)); i += 1
            c = c + 4 + 4*w
        return 'ok', end, 0 if n == ZERO else 1, i, out
    def cut_short(self, st, ty, q):
        """the file ends before the record does, whatever the lengths are that the path does not decide"""
        _, _, c, n = self.lists(ty, q)
        for i in range(n):
            if prove(st.facts, gt(c + 4, L), 2): return True
            w = u32(c)
            if prove(st.facts, eq(w), 2): c = c + 4
            else:
                c = c + 4 + 4*w
                if prove(st.facts, gt(c, L), 2): return True
        return False
    def header(self, st):
        """('bad', why) or ('ok', position of the number of layers)"""
        m = conj([le(const(3), L), text(ZERO, 'FD\n')])
        if not self.known(st, m, 'the magic number'): return 'bad', 'wrong magic number'
        n = newline(st, const(3))
        if n is None: raise Open(None, 'the name of the file')
        if n[0] == 'none': return 'bad', n[1]
        p = 3 + n[1]
        if not self.known(st, le(p + 4, L), 'the number of layers'): return 'bad', 'the file ends in the number of layers'
        return 'ok', p
    # ---- the cut
    def wants(self, fn, lp):
        """the loop over the records: the first loop that contains others"""
        return self.cut is None or self.cut == (fn.name, lp.header)
    def nested(self, fn, lp):
        ex = self.ex; seen = set()
        def loops(f):
            if f is None or f.is_decl or f.name in seen: return False
            seen.add(f.name); sx.find_loops(f)
            if f._loops: return True
            return any(calls(b) for b in f.blocks.values())
        def calls(b):
            return any(i.op == 'call' and i.a[0][0] == 'global' and i.a[0][1] not in ex.externs and loops(ex.mod.functions.get(i.a[0][1])) for i in b.instrs)
        return any(c for c in lp.children) or any(calls(fn.blocks[b]) for b in lp.blocks)
    def run(self, st, fn, lp, prev, init):
        """None: not the loop over the records"""
        ex = self.ex
        if ex.probe or 'FILE' not in st.ghost or st.ghost.get('phase') or not self.wants(fn, lp) or not self.nested(fn, lp): return None
        self.cut = (fn.name, lp.header); hdr = fn.blocks[lp.header]
        line = next((i.line for i in hdr.instrs if i.line), 0); li = ex_line(line)
        def note(s, ok, text, kind='post'): ex.record(s, kind, bool(ok), li, text)
        try: h = self.header(st)
        except Open as o: note(st, False, 'the records are read only after %s is checked' % o.what); raise DeadPath()
        if h[0] == 'bad': note(st, False, 'a file is rejected: %s' % h[1]); raise DeadPath()
        N = u32(h[1]); F = st.ghost['FILE']
        note(st, prove(st.facts, eq(ex.files.pos(st, F), h[1] + 4), 2), 'the first record begins after the number of layers')
        lost = {}; carried = {}; arrays = set()
        def head():
            s = st.clone(); sym = {}
            def fresh_(v0, w):
                a = atom(('v', fresh('rec'))); p = Poly({(a,): 1}); s.assume(conj([ge(p), lt(p, const(min(1 << w, (1 << 31) - 16)))])); self.phis.add(a); return p
            for ph in hdr.phis:
                v0 = init[ph.res]
                if isinstance(v0, Poly): v = fresh_(v0, ph.ty[1]); sym[ph.res] = (v0, v)
                elif v0[0] == 'ptr' and s.blk[v0[1]].kind == 'table':
                    p = fresh_(ZERO, 31); v = ('ptr', v0[1], v0[2] + 8*p); sym[ph.res] = (ZERO, p, v0)
                elif v0[0] == 'undef': v = ('opaque', 'carried')
                else: raise Unsupported('loop-carried value')
                s.env[ph.res] = v
            P = var(fresh('P')); s.assume(conj([ge(P), le(P, L)])); ex.files.setpos(ex, s, F, P); s.ghost['P'] = P
            for (b, o), (sz, v0) in carried.items(): p = fresh_(v0, 8*sz); sym[(b, o)] = (v0, p); ex.set_cell(s, b, o, sz, p)
            for (b, o), sz in lost.items(): ex.set_cell(s, b, o, sz, sx.LOST)
            for b in arrays: s.mem[b] = Base('lost')
            s.ghost['phase'] = 'body'; s.ghost.pop('rectype', None); return s, sym
        def changed(o):
            """what an iteration leaves changed, besides the position and the tensors"""
            out = []
            for b in st.blk:
                if b == F or not st.alive.get(b): continue
                m0, m1 = self.m0.get(b), o[1].mem.get(b)
                if type(m0) is dict:
                    for off in set(m0) | set(m1):
                        if m0.get(off) != m1.get(off): out.append((b, off, m0.get(off), m1.get(off)))
                elif m1 is not m0 and b not in self.own: out.append((b, None, None, None))
            return out
        n0 = len(ex.obls); ls0 = ex.loops_summarised
        for attempt in range(8):
            real = attempt >= 2 or attempt == 1 and not again
            del ex.obls[n0:]; ex.loops_summarised = ls0; self.phis.clear(); self.used = {'k': set(), 'b': set()}
            s, sym = head(); self.m0 = dict(s.mem); again = False
            outs = ex.run_from(s, fn, lp.header, lp) if attempt else self.trial(s, fn, lp)
            for o in outs:
                if o[0] != 'latch': continue
                for b, off, c0, c1 in changed(o):
                    if st.blk[b].origin != 'alloca': raise Unsupported('%s changes in the loop over the records' % st.blk[b].name)
                    if off is None:
                        if b not in arrays: arrays.add(b); again = True
                        continue
                    key = (b, off)
                    if key in lost: continue
                    c = c0 or c1; v1 = c1 and c1[1]
                    d = isinstance(c0 and c0[1], Poly) and isinstance(v1, Poly) and v1 - c0[1]
                    if key not in carried and c0 and isinstance(d, Poly) and d.is_const(): carried[key] = (c0[0], st.mem[b][off][1]); again = True
                    elif key not in carried or not (isinstance(d, Poly) and d.is_const()): carried.pop(key, None); lost[key] = c[0]; again = True
            if attempt and not again: break
        else: raise Unsupported('the state of the loop over the records does not stabilise')
        k, K, Bn = (var(fresh(n)) for n in ('k', 'nk', 'nb'))
        latches = [o for o in outs if o[0] == 'latch']
        # ---- what the carried integers are
        rows = []
        for o in latches:
            for s1 in self.cases(o[1], note):
                try: w = self.walk(s1)
                except Open as x: note(s1, False, 'an iteration is completed only for a well-formed record: %s is not checked' % x.what); continue
                if w[0] == 'bad': note(s1, False, 'a malformed record is rejected: %s' % w[1]); continue
                nx = {}
                for ph in hdr.phis:
                    v = next(ex.val(o[1], vv, ph.ty) for vv, b in ph.a if b == o[2])
                    nx[ph.res] = v if isinstance(v, Poly) else exact_div_poly(v[2] - sym[ph.res][2][2], const(8)) if v[0] == 'ptr' and v[1] == sym[ph.res][2][1] else None
                for key in carried: nx[key] = o[1].mem[key[0]][key[1]][1]
                rows.append((s1, w, {x: self.tidy(s1, v) - sym[x][1] if isinstance(v, Poly) else None for x, v in nx.items()}))
        role = {}; eqs = []
        for x, sm in sym.items():
            for nm, val, f in (('layers', k, lambda w: 1), ('kernel tensors', K, lambda w: w[2]), ('bias tensors', Bn, lambda w: w[3])):
                for sg in (1, -1):
                    if all(d[x] is not None and d[x] == const(sg*f(w)) for _, w, d in rows): role.setdefault(x, (nm, sm[0] + sg*val))
            if x not in role:
                bad = [(s1, w, d) for s1, w, d in rows if d[x] is None or not d[x].is_const()] or rows
                note(rows[0][0] if rows else st, not rows, 'every counter of the loop counts layers, kernel tensors or bias tensors (code: %s)' % '; '.join(sorted({'%s after %s, which has %d and %d' % (show(d[x]) if d[x] is not None else '?', 'a record', w[2], w[3]) for s1, w, d in rows}))[:300])
            else: eqs.append(eq(sm[1], role[x][1]))
        for t, nm in (('k', 'kernel tensors'), ('b', 'bias tensors')):
            for a in self.used[t]:
                x = next(x for x, sm in sym.items() if Poly({(a,): 1}) == sm[1])
                note(st, x in role and role[x][0] == nm and sym[x][0] == ZERO, 'the table of %s is indexed by the number of %s read so far' % (nm, nm))
                if len(sym[x]) == 3: note(st, sym[x][2][2] == ZERO, 'the table is walked from its first entry')
        inv = conj(eqs + [ge(k), le(k, N), ge(K), ge(Bn)])
        note(st, prove(list(st.facts) + [eq(x, y) for x, y in ()], le(ZERO, N), 1), 'the invariant holds before the first record')
        for s1, w, d in rows:
            s1.assume(inv)
            note(s1, prove(s1.facts, lt(k, N), 2), 'a record is read only while fewer than the stated number of layers have been read', 'termination')
            note(s1, prove(s1.facts, eq(ex.files.pos(s1, F), w[1]), 2), 'the position after a record is its end')
            note(s1, s1.alive.get(F), 'the file stays open')
            for b in s1.blk:
                if b not in st.blk and s1.alive.get(b) and s1.blk[b].origin in ('new', 'new[]', 'malloc'): note(s1, False, 'memory allocated for a record is released: %s' % s1.blk[b].name, 'leak')
            for b in st.blk:
                if st.alive.get(b) and not s1.alive.get(b): note(s1, False, '%s is released by the loop' % st.blk[b].name, 'free')
            self.contents(s1, w, note)
        note(st, len(rows) > 0, 'some record is accepted', 'vacuity')
        res = []
        for o in outs:
            if o[0] == 'latch': continue
            s1 = o[1]
            if not feasible(s1.facts, True): continue
            s1.assume(inv)
            if o[0] == 'edge' and prove(s1.facts, eq(k, N), 2) and ex.files.pos(s1, F) == s1.ghost['P'] and all(s1.mem.get(b) is self.m0.get(b) for b in self.own): s1.ghost['phase'] = 'after'
            elif not prove(s1.facts, lt(k, N), 2): s1.ghost['phase'] = 'odd'
            res.append(o)
        return res
    def trial(self, s, fn, lp):
        self.ex.probe += 1
        try: return self.ex.run_from(s, fn, lp.header, lp)
        finally: self.ex.probe -= 1
    def tidy(self, s, v):
        from .iospecs import tidy
        return tidy(s.facts, v)
    def cases(self, s, note, depth=0):
        """the state, split by what the record's description leaves undecided"""
        try: self.walk(s); return [s]
        except Open as o:
            if o.f is None or depth > 5: return [s]
            out = []
            for f in (o.f, neg(o.f)):
                t = s.clone(); t.assume(f)
                if feasible(t.facts, True): out += self.cases(t, note, depth + 1)
            return out
    def contents(self, s, w, note):
        """the tensors of the record have its values, all others are unchanged"""
        ex = self.ex; touched = {nm: (dims, dp) for nm, dims, dp in w[4]}
        for g, v in sorted(s.ghost.items()):
            if not g.startswith('T:'): continue
            nm = g[2:]; bid = v[0]; m = s.mem[bid]
            if nm not in touched: note(s, m is self.m0[bid], 'tensor %s, which is not the record\'s, is unchanged' % nm, 'frame'); continue
            dims, dp = touched[nm]; t = s.clone(); x = []; idx = ZERO
            for i, d in enumerate(dims):
                v = var('x%d' % i); x.append(v); t.assume(conj([ge(v), lt(v, d)])); idx = idx*d + v
            got = ex._read(t, m, t.blk[bid], idx, ('f', 'float'), None)
            from . import real
            ok, why = real.equal(t.facts, self.tidy(t, got), ('ld', 'file.f32', dp + 4*idx, 'float'), {})
            note(s, ok, 'every element of %s tensor %s is the record\'s value, in row-major order%s' % ('kernel' if nm in 'kg' else 'bias', nm, '' if ok else ' -- ' + '; '.join(why)[:600]))
        for b in self.own:
            if s.blk[b].kind == 'cells' and s.mem.get(b) is not self.m0.get(b) and s.mem.get(b) != self.m0.get(b): note(s, False, '%s is modified' % s.blk[b].name, 'frame')
def ex_line(n):
    from .ir import Instr
    return Instr('loop', line=n)

def post(r, cf, st, note, tag):
    rec = r.ex.records; ret = dict(st.ghost.get('outs', ())).get('ret')
    if not isinstance(ret, Poly): note('post', False, 'the result is not an integer%s' % tag); return
    if 'absent' in st.ghost: note('post', prove(st.facts, neg(eq(ret)), 2), 'a missing file is rejected%s' % tag); return
    def rejected(why): note('post', prove(st.facts, neg(eq(ret)), 2), 'the result is not zero: %s%s' % (why, tag))
    ph = st.ghost.get('phase')
    try:
        if ph == 'after':
            p = st.ghost['P']
            if rec.known(st, conj([le(p + 4, L), text(p, 'end\n')]), 'the end marker'):
                note('post', prove(st.facts, eq(ret), 2), 'a well-formed file is accepted%s' % tag); rec.accepted = True
            else: rejected('wrong end marker')
            return
        if ph == 'odd': note('post', False, 'the reader stops before or after the stated number of layers%s' % tag); return
        w = rec.header(st) if ph is None else rec.walk(st)
        if w[0] == 'bad': rejected(w[1])
        else: note('post', False, 'the reader returns (%s) although the %s is well-formed%s' % (show(ret), 'header' if ph is None else 'record', tag))
    except Open as o:
        note('post', False, 'the reader returns (%s), %s is not decided%s' % (show(ret), o.what, tag))
def final(r, cf, note):
    note('vacuity', r.ex.records.accepted, 'some file is accepted')
