"""Contracts of the MNIST, PGM, float image and text readers and writers (C21-C23)."""
from .core import *
from . import core, files, specs, sx, real
from .specs import Config, io, text
from .scen import LIM

L = files.LEN
def cfg(prop, key, scenario, gen, post, bind, facts, present=True, **kw):
    cf = io(prop, key, scenario, gen, present, False, bind, facts, **kw); cf.iopost = post; return cf
def outs(st): return dict(st.ghost.get('outs', ()))
def byte(x, i):
    """byte i of the 32-bit value x"""
    return mk_div(x, const(1 << (8*i))) - 256*mk_div(x, const(1 << (8*i + 8)))
def rev(x): return sum((byte(x, i)*(1 << (24 - 8*i)) for i in range(4)), ZERO)
def be(o): return files.be32(const(o))
def elem(r, st, p, i, ty):
    """element i of the array the pointer addresses"""
    b = st.blk[p[1]]; rt = ty
    if b.kind == 'cells': return r.ex.load(st, ('ptr', p[1], p[2] + i*r.ex.mod.size(ty)), ty, Line)
    b = r.ex.as_array(st, b.id, r.ex.mod.size(ty), ty)
    o = exact_div_poly(p[2], const(b.esize))
    return r.ex._read(st, st.mem[b.id], b, o + i, ty, None)
from .ir import Instr
Line = Instr('spec', line=0)
def tidy(facts, t):
    """without the case distinctions the facts decide"""
    m = {}
    for a in free_atoms(t):
        if core.atom_of(a)[0] == 'iite':
            p = Poly({(a,): 1}); q = sx.simp_iite(list(facts), p)
            if q != p: m[a] = q
    return subst(t, m) if m else t
def live(st, p): return p[0] == 'ptr' and st.alive.get(p[1])

# ---- endianness
v = var('v')
cf = Config('endian', 'C21', 'endian', {'value': v}, [ge(v), lt(v, const(1 << 32))], None, None, None, outs=[('ret', rev(v))])
cf.io = dict(gen='endian', present=None, accept=False); 
def post_endian(r, cf, st, note, tag):
    g = outs(st).get('ret'); note('value', isinstance(g, Poly) and prove(st.facts, eq(g, rev(v)), 2), 'the result has the four bytes in reverse order (code: %s)%s' % (show(g), tag))
cf.iopost = post_endian
# ---- MNIST labels
req = var('req')
U32 = [ge(req), le(req, const(LIM))]
def count(st, note, tag, magic):
    """(returned count, or None when the file is rejected)"""
    g = outs(st).get('ret')
    if not isinstance(g, Poly): note('post', False, 'the result is not an integer%s' % tag); return None
    facts = st.facts
    if not prove(facts, eq(be(0), const(magic)), 2) or not prove(facts, ge(L, const(4)), 2):
        ok = prove(list(facts) + [eq(be(0), const(magic)), ge(L, const(4))], False, 2)
        note('post', ok and prove(facts, eq(g), 2), 'a missing file or one with a wrong magic number yields 0%s' % tag); return None
    m = be(4)
    ok = prove(facts, disj([conj([eq(g, req), le(req, m)]), conj([eq(g, m), le(m, req)])]), 2)
    note('post', ok, 'min(requested, provided) entries are read (code: %s)%s' % (show(g), tag)); return g
def post_labels(r, cf, st, note, tag):
    if 'absent' in st.ghost: note('post', isinstance(outs(st).get('ret'), Poly) and prove(st.facts, eq(outs(st)['ret']), 2), 'a missing file yields 0%s' % tag); return
    g = count(st, note, tag, 2049)
    if g is None: return
    arr = st.ghost.get('arrays', ())
    if not arr: note('post', prove(st.facts, eq(g), 2), 'labels are returned%s' % tag); return
    s = st.clone(); k = var('x'); s.assume(conj([ge(k), lt(k, g)])); p = arr[0][1]
    note('post', live(s, p) and prove(s.facts, le(g, s.blk[p[1]].size - p[2]), 2), 'the returned array holds every label%s' % tag)
    got = elem(r, s, p, k, ('i', 8)); got = r.ex.exact_u(s, r.ex.ival(got), 8)
    note('post', prove(s.facts, eq(got, files.u8(8 + k)), 2), 'label i is byte 8+i of the file (code: %s)%s' % (show(got)[:100], tag))
complete = disj([neg(eq(be(0), const(2049))), conj([le(8 + be(4), L), le(be(4), const(LIM))])])
for present in (True, False):
    cfg('C21', 'mnistlab%s' % ('' if present else '_absent'), 'mnistlab', 'mnistlab', post_labels, {'count': req}, U32 + [complete, disj([lt(L, const(4)), neg(eq(be(0), const(2049))), ge(L, const(8))])], present)
# ---- means
def accepted(st, note, tag, cond, ret0=0):
    """the file is accepted exactly under cond; True when accepted"""
    g = outs(st).get('ret')
    if not isinstance(g, Poly): note('post', False, 'the result is not an integer%s' % tag); return False
    if 'absent' in st.ghost: note('post', prove(st.facts, neg(eq(g)), 2), 'a missing file is rejected%s' % tag); return False
    if prove(st.facts, cond, 2):
        note('post', prove(st.facts, eq(g, P_(ret0)), 2), 'a well-formed file is accepted%s' % tag); return True
    ok = prove(list(st.facts) + [cond], False, 2)
    note('post', ok and prove(st.facts, neg(eq(g)), 2), 'a file with a wrong magic number is rejected%s' % tag); return False
def magic(s): return conj([le(const(len(s)), L)] + text(ZERO, s))
def post_means(r, cf, st, note, tag):
    if not accepted(st, note, tag, magic('FD\n')): return
    p = st.ghost['arrays'][0][1]; pos = const(3)
    for i in range(3):
        got = elem(r, st, p, const(i), ('f', 'float')); want = files.numflt(pos); pos = files.numend(pos)
        note('post', real.equal(st.facts, got, want, {})[0], 'mean %d is the %s number of the file (code: %s)%s' % (i, ('first', 'second', 'third')[i], show(got)[:80], tag))
# ---- PGM reading
pad = var('pad'); lo, hi = ('ld', 'f:lo', ZERO, 'float'), ('ld', 'f:hi', ZERO, 'float')
def span(): return mk_op('abs', 'float', mk_op('sub', 'float', lo, hi))
def scaled(b): return mk_op('add', 'float', mk_op('mul', 'float', mk_op('div', 'float', ('i2f', 'float', b), fc('float', 255.0)), span()), lo)
E1 = files.lineend(const(3)); E2 = files.numend(E1); E3 = files.numend(E2); P0 = files.numend(E3) + 1
PW, PH = files.numint(E1), files.numint(E2)
def post_readpgm(r, cf, st, note, tag):
    if not accepted(st, note, tag, magic('P5\n')): return
    o = outs(st)
    note('value', prove(st.facts, eq(o.get('height', const(-1)), PH), 2) and prove(st.facts, eq(o.get('width', const(-1)), PW), 2), 'the extents of the image are reported%s' % tag)
    p = st.ghost['arrays'][0][1]; y, x = var('y'), var('x')
    n = (PH + 2*pad)*(PW + 2*pad)
    note('post', live(st, p) and prove(st.facts, le(4*n, st.blk[p[1]].size - p[2]), 2), 'the image has room for every pixel%s' % tag)
    for inside in (True, False):
        s = st.clone(); s.assume(conj([ge(y), ge(x), lt(y, PH + 2*pad), lt(x, PW + 2*pad)]))
        c = conj([ge(y, pad), lt(y, PH + pad), ge(x, pad), lt(x, PW + pad)]); s.assume(c if inside else neg(c))
        got = elem(r, s, p, y*(PW + 2*pad) + x, ('f', 'float'))
        want = scaled(files.u8(P0 + (y - pad)*PW + x - pad)) if inside else lo
        ok, why = real.equal(s.facts, tidy(s.facts, got), want, {})
        note('post', ok, 'every element %s has the specified value%s' % ('inside the image' if inside else 'of the border', tag), why=None if ok else '; '.join(why)[:6000])
PG = [ge(pad), le(pad, const(255)), ge(PW, ONE), ge(PH, ONE), le(PW + 2*pad, const(65535)), le(PH + 2*pad, const(65535)), le((PW + 2*pad)*(PH + 2*pad), const(LIM)), le(PW*PH, const(LIM)),
      disj([neg(magic('P5\n')), conj([lt(const(3), E1), le(E1, E2), le(E2, E3), le(E3, P0 - 1), le(P0 + PW*PH, L), lt(const(3), L)])])]
for present in (True, False):
    cfg('C23', 'means%s' % ('' if present else '_absent'), 'means', 'means', post_means, {}, [], present)
    cfg('C22', 'readpgm%s' % ('' if present else '_absent'), 'readpgm', 'readpgm', post_readpgm, {'padding': pad}, PG, present)

# ---- writers
def image(): return lambda y, x: ('ld', 'image', y*W + x, 'float')
H, W = var('height'), var('width')
EXT = [ge(H, ONE), ge(W, ONE), le(H, const(65535)), le(W, const(65535)), le(H*W, const(LIM))]
import re as _re
def writer(r, st, note, tag):
    """the output, or None; the result tells whether the file could be opened"""
    g = outs(st).get('ret')
    if 'absent' in st.ghost: note('post', isinstance(g, Poly) and prove(st.facts, neg(eq(g)), 2), 'a file that cannot be opened is reported%s' % tag); return None
    note('post', isinstance(g, Poly) and prove(st.facts, eq(g), 2), 'success is reported%s' % tag)
    if 'OUT' not in st.ghost: note('post', False, 'a file is written%s' % tag); return None
    F = r.files; ex = r.ex
    return (lambda w, i: F.output(st, w, i, ex)), (lambda i: F.sep(st, i, ex)), F.pos(st, st.ghost['OUTFILE'])
def number(st, note, rec, i, want, what, tag):
    k, v = rec('kind', const(i)), rec('int', const(i))
    note('post', k == const(files.NUM) and prove(st.facts, eq(v, want), 2), 'the header states the %s (code: %s)%s' % (what, show(v), tag))
def each(r, st, note, tag, first, kind, sepok, want, what):
    """the record of every element, in row order"""
    F = r.files; ex = r.ex; y, x = var('y'), var('x'); s = st.clone(); s.assume(conj([ge(y), ge(x), lt(y, H), lt(x, W)]))
    i = first + y*W + x
    k = F.output(s, 'kind', i, ex); v = F.output(s, 'flt' if kind == files.FLT else 'int', i, ex); t = F.sep(s, i + 1, ex)
    note('post', k == const(kind) and t is not None and sepok(t), '%s are written in row order, in the specified form%s' % (what, tag))
    ok, why = want(s, v, y, x)
    note('post', ok, 'every one of the %s has the specified value%s' % (what, tag), why=None if ok else '; '.join(map(str, why))[:600])
def post_writefloat(r, cf, st, note, tag):
    o = writer(r, st, note, tag)
    if o is None: return
    rec, sep, n = o
    note('post', prove(st.facts, eq(n, 2 + H*W), 2), 'two header numbers and one value for every element (code: %s)%s' % (show(n), tag))
    note('post', sep(ZERO) == 'FF\n', 'the file starts with its magic number%s' % tag)
    number(st, note, rec, 0, H, 'height', tag); number(st, note, rec, 1, W, 'width', tag)
    note('post', sep(ONE) == '\n' and sep(const(2)) == '\n', 'one header number per line%s' % tag)
    each(r, st, note, tag, const(2), files.FLT, lambda t: t == '\n', lambda s, v, y, x: real.equal(s.facts, v, core.mk_cast('double', ('ld', 'image', y*W + x, 'float'), 'float'), {}), 'values')
DIM = {'image': [H, W]}
def extreme(op):
    """the largest or smallest element"""
    ya, xa = atom(('v', 'ey')), atom(('v', 'ex')); yp, xp = Poly({(ya,): 1}), Poly({(xa,): 1}); el = ('ld', 'image', yp*W + xp, 'float')
    inner, outer = ('sym', fresh('eacc'), 'float'), ('sym', fresh('eacc'), 'float')
    t = ('fold', xa, conj([ge(xp), lt(xp, W)]), inner[1], mk_ite(('fc', 'olt', el, inner) if op == 'min' else ('fc', 'olt', inner, el), el, inner), outer, 'float')
    return ('fold', ya, conj([ge(yp), lt(yp, H)]), outer[1], t, ('ld', 'image', ZERO, 'float'), 'float')
def post_writepgm(r, cf, st, note, tag):
    o = writer(r, st, note, tag)
    if o is None: return
    rec, sep, n = o
    note('post', prove(st.facts, eq(n, 2 + H*W), 2), 'the extents and one byte for every pixel (code: %s)%s' % (show(n), tag))
    gap = r'(\s|#[^\n]*\n)'
    note('post', _re.fullmatch(r'P5\s%s*' % gap, sep(ZERO) or '') and _re.fullmatch(gap + '+', sep(ONE) or '') and _re.fullmatch(gap + r'+255\s', sep(const(2)) or ''), 'a PGM header with largest value 255%s' % tag)
    number(st, note, rec, 0, W, 'width', tag); number(st, note, rec, 1, H, 'height', tag)
    mn, mx = extreme('min'), extreme('max'); lo_, hi_ = ('sym', 'smallest', 'float'), ('sym', 'largest', 'float')
    def value(s, v, y, x):
        if not (isinstance(v, Poly) and len(v.m) == 1): return False, ['not a truncated number: %s' % show(v)[:300]]
        (mono, c), = v.m.items()
        if not (c == 1 and len(mono) == 1 and core.atom_of(mono[0])[:2] == ('fn', 'fptoui8')): return False, ['not a truncated number: %s' % show(v)[:300]]
        memo = {}
        def sub(t):
            if not isinstance(t, tuple): return t
            if t in memo: return memo[t]
            z = t
            if t and t[0] == 'fold':
                if real.equal(s.facts, t, mn, DIM)[0]: z = lo_
                elif real.equal(s.facts, t, mx, DIM)[0]: z = hi_
            else: z = tuple(sub(i) for i in t)
            memo[t] = z; return z
        g = sub(core.atom_of(mono[0])[2]); el = ('ld', 'image', y*W + x, 'float'); k = lambda n: fc('float', float(n))
        want = mk_op('mul', 'float', mk_op('div', 'float', mk_op('sub', 'float', el, lo_), mk_op('sub', 'float', hi_, lo_)), k(255))
        between = conj([('fc', 'ole', lo_, el), ('fc', 'ole', el, hi_)])
        ok, why = real.equal(s.facts, mk_ite(conj([between, ('fc', 'olt', lo_, hi_)]), g, want), want, {})
        one = k(1); safe = mk_ite(neg(between), one, mk_ite(('fc', 'ole', k(0), g), mk_ite(('fc', 'ole', g, k(255)), one, k(0)), k(0)))
        ok2, why2 = real.equal(s.facts, safe, one, {})
        note('ub', ok2, 'every pixel converted to a byte lies in [0, 255], also in a constant image%s' % tag, why=None if ok2 else '; '.join(map(str, why2))[:600])
        return ok, why
    each(r, st, note, tag, const(2), files.BYTE, lambda t: t == '', value, 'pixels')
for present in (True, False):
    cfg('C22', 'writefloat%s' % ('' if present else '_absent'), 'writefloat', 'writefloat', post_writefloat, {'height': H, 'width': W}, EXT, present)
    cfg('C22', 'writepgm%s' % ('' if present else '_absent'), 'writepgm', 'writepgm', post_writepgm, {'height': H, 'width': W}, EXT, present)

# ---- label lists
N_ = var('num'); Q0 = 29     # the class number follows the 28 characters of the file name and a blank
def lines_are(f):
    def setup(r): r.files.linefacts = f
    return setup
def vline(pos, e):
    q = pos + Q0; return [lt(q, files.numend(q)), le(files.numend(q), q + 4), le(files.numend(q), e)]
def linestart(k): return sx.mk_iter('file.lineend', ZERO, k)
def post_vlabels(r, cf, st, note, tag):
    g = outs(st).get('ret')
    if 'absent' in st.ghost: note('post', isinstance(g, Poly) and prove(st.facts, eq(g), 2), 'a missing file yields 0%s' % tag); return
    note('post', isinstance(g, Poly) and prove(st.facts, eq(g, N_), 2), 'n-1 entries yield n (code: %s)%s' % (show(g), tag))
    arr = st.ghost.get('arrays', ())
    if not arr: note('post', prove(st.facts, eq(N_, ONE), 2), 'the classes are returned%s' % tag); return
    s = st.clone(); k = var('x'); s.assume(conj([ge(k), lt(k, N_ - 1)])); p = arr[0][1]
    note('post', live(s, p) and prove(s.facts, le(4*(N_ - 1), s.blk[p[1]].size - p[2]), 2), 'the returned array holds every class%s' % tag)
    got = elem(r, s, p, k, ('i', 32))
    note('post', prove(s.facts, eq(got, files.numint(linestart(k) + Q0)), 2), 'entry i is the class number on line i (code: %s)%s' % (show(got)[:200], tag))
for present in (True, False):
    c_ = cfg('C23', 'vlabels%s' % ('' if present else '_absent'), 'vlabels', 'vlabels', post_vlabels, {'count': N_}, [ge(N_, ONE), le(N_, const(LIM)), eq(files.LINES, N_ - 1)], present)
    c_.setup = lines_are(vline)
# ---- tables of images and of labels: every iteration adds one entry, the address of a new block with the specified contents
def entries(check):
    """the invariant of the loop that fills a table, for the entry added in iteration k"""
    def family(ex, r):
        def f(st, pre, preblk, prenode, k, li):
            new = {b for b in st.blk if b not in preblk and st.alive.get(b) and st.blk[b].origin in ('new', 'new[]', 'malloc')}
            if not new: return set()
            kp = Poly({(k,): 1}); found = []
            for bid, pn in prenode.items():
                node = st.mem[bid]; ls = []
                while node is not pn and isinstance(node, sx.Layer): ls.append(node); node = node.parent
                if any(isinstance(l.val, tuple) and l.val[0] == 'ptr' for l in ls): found.append((bid, ls))
            if len(found) != 1 or len(found[0][1]) != 1 or len(new) != 1: return set()
            bid, (ly,) = found[0]; B = new.pop()
            ex.record(st, 'post', prove(st.facts, eq(ly.idx, kp), 2) and ly.val == ('ptr', B, ZERO) and not ly.vars, li, 'iteration i stores the address of a new block in entry i (code: entry %s)' % show(ly.idx))
            def note(kind, ok, text, why=None): ex.record(st, kind, bool(ok), li, text + ('' if ok or not why else ' -- ' + why[:1500]))
            check(r, st, ('ptr', B, ZERO), kp, note); return {bid, B}
        return f
    def setup(r): r.ex.family = family(r.ex, r)
    return setup
def table(st, g, note, tag):
    t = dict((n, (p, c)) for n, p, c in st.ghost.get('tables', ()))
    p, c = list(t.values())[0]
    if p[0] != 'ptr': note('post', p[0] == 'null' and prove(st.facts, eq(g), 2), 'the table is returned%s' % tag); return
    n = st.ghost.get('table:%d' % p[1], ZERO)
    note('post', live(st, p) and p[2] == ZERO and prove(st.facts, eq(n, g), 2), 'the table holds exactly the returned number of entries (code: %s)%s' % (show(n), tag))
IH, IW = be(8), be(12)
def entry_image(r, st, p, k, note):
    y, x = var('y'), var('x'); n = (IH + 2*pad)*(IW + 2*pad)
    note('post', prove(st.facts, le(4*n, st.blk[p[1]].size), 2), 'an image has room for every pixel')
    for inside in (True, False):
        s = st.clone(); s.assume(conj([ge(y), ge(x), lt(y, IH + 2*pad), lt(x, IW + 2*pad)]))
        c = conj([ge(y, pad), lt(y, IH + pad), ge(x, pad), lt(x, IW + pad)]); s.assume(c if inside else neg(c))
        got = elem(r, s, p, y*(IW + 2*pad) + x, ('f', 'float'))
        want = scaled(files.u8(16 + k*IH*IW + (y - pad)*IW + x - pad)) if inside else lo
        ok, why = real.equal(s.facts, tidy(s.facts, got), want, {})
        note('post', ok, 'every element of image i %s has the specified value' % ('inside the image' if inside else 'of the border'), '; '.join(why))
def post_images(r, cf, st, note, tag):
    if 'absent' in st.ghost: note('post', isinstance(outs(st).get('ret'), Poly) and prove(st.facts, eq(outs(st)['ret']), 2), 'a missing file yields 0%s' % tag); return
    g = count(st, note, tag, 2051)
    if g is not None: table(st, g, note, tag)
wellformed = disj([lt(L, const(4)), neg(eq(be(0), const(2051))), conj([ge(L, const(16)), ge(IH, ONE), ge(IW, ONE), le(16 + be(4)*IH*IW, L), le(IH*IW, const(1 << 20)), le(IH, const(1 << 20)), le(IW, const(1 << 20)), le((IW + 2*pad)*(IH + 2*pad), const(LIM)), le(be(4), const(LIM))])])
for present in (True, False):
    c_ = cfg('C21', 'mnistimg%s' % ('' if present else '_absent'), 'mnistimg', 'mnistimg', post_images, {'count': req, 'padding': pad, 'height': IH, 'width': IW}, U32 + [ge(pad), le(pad, const(255)), wellformed], present)
    c_.setup = entries(entry_image)
def entry_label(r, st, p, k, note):
    pos = linestart(k); end = files.lineend(pos); nl = eq(files.u8(end - 1), const(10))
    for c, n in ((nl, end - pos - 1), (neg(nl), end - pos)):
        s = st.clone(); s.assume(c)
        if not feasible(s.facts, True): continue
        note('post', prove(s.facts, lt(n, s.blk[p[1]].size), 2), 'label i has room for its text')
        note('post', prove(s.facts, eq(elem(r, s, p, n, ('i', 8)), ZERO), 2), 'label i is terminated after its last character')
        t = var('t'); s.assume(conj([ge(t), lt(t, n)])); got = elem(r, s, p, t, ('i', 8)); got = r.ex.exact_u(s, r.ex.ival(got), 8)
        note('post', prove(s.facts, eq(got, files.u8(pos + t)), 2), 'label i has the characters of line i (code: %s)' % show(got)[:200])
def post_labels_(r, cf, st, note, tag):
    g = outs(st).get('ret')
    if 'absent' in st.ghost: note('post', isinstance(g, Poly) and prove(st.facts, eq(g), 2), 'a missing file yields 0%s' % tag); return
    note('post', isinstance(g, Poly) and prove(st.facts, eq(g, files.LINES), 2), 'the number of lines is returned (code: %s)%s' % (show(g), tag))
    if isinstance(g, Poly): table(st, g, note, tag)
for present in (True, False):
    c_ = cfg('C23', 'labels%s' % ('' if present else '_absent'), 'labels', 'labels', post_labels_, {'count': N_}, [ge(N_, ONE), le(N_, const(LIM)), le(files.LINES, N_)], present)
    c_.setup = entries(entry_label)
# ---- weights: the loop over the records is cut at its head
from . import weights as wt
from .scen import subproducts, extents
def recs(kernel):
    def setup(r): wt.Records(r, kernel)
    return setup
for key, kernel, dims in (('weights_conv4', 4, (wt.A, wt.B, wt.C, wt.D)), ('weights_conv3', 3, (wt.A, wt.B, wt.D)), ('weights_noconv', None, (wt.A, wt.B, wt.C, wt.D))):
    c_ = cfg('C19', key, 'weights', 'weights', wt.post, {'kernels': 1, 'biases': 1}, extents(*dims) + extents(wt.GH, wt.GW) + sum((extents(m) for m in wt.M), []), True)
    c_.setup = recs(kernel); c_.iofinal = wt.final
c_ = cfg('C19', 'weights_absent', 'weights', 'weights', wt.post, {'kernels': 1, 'biases': 1}, extents(wt.A, wt.B, wt.C, wt.D) + extents(wt.GH, wt.GW) + sum((extents(m) for m in wt.M), []), False)
c_.setup = recs(4)
# ---- JPEG: on top of the assumed contract on libjpeg
from . import jpeg
JW, JH = jpeg.WIDTH, jpeg.HEIGHT
def post_jpeg(comp):
    def post(r, cf, st, note, tag):
        g = outs(st).get('ret')
        if 'absent' in st.ghost: note('post', isinstance(g, Poly) and prove(st.facts, neg(eq(g)), 2), 'a file that cannot be opened is reported%s' % tag); return
        if not (isinstance(g, Poly) and prove(st.facts, eq(g), 2)): note('post', False, 'a decodable file is read%s' % tag); return
        r.jpeg.final(st, note, tag); o = outs(st)
        note('value', prove(st.facts, eq(o.get('height', const(-1)), JH), 2) and prove(st.facts, eq(o.get('width', const(-1)), JW), 2), 'the extents of the image are reported%s' % tag)
        y, x = var('y'), var('x'); arr = {n: p for n, p, _ in st.ghost.get('arrays', ())}
        for k, color in enumerate(('blue', 'green', 'red')):
            p = arr['plane%d' % k]
            note('post', live(st, p) and prove(st.facts, le(4*JH*JW, st.blk[p[1]].size - p[2]), 2), 'the %s plane has room for every pixel%s' % (color, tag))
            s = st.clone(); s.assume(conj([ge(y), ge(x), lt(y, JH), lt(x, JW)]))
            got = elem(r, s, p, y*JW + x, ('f', 'float')); want = scaled(jpeg.sample((y*JW + x)*comp + (2 - k if comp == 3 else 0)))
            ok, why = real.equal(s.facts, tidy(s.facts, got), want, {})
            note('post', ok, 'every element of plane %d is the %s sample of its pixel, scaled%s' % (k, color, tag), why=None if ok else '; '.join(why)[:6000])
        ps = [arr['plane%d' % k][1] for k in range(3)]; note('post', len(set(ps)) == 3, 'the planes do not overlap%s' % tag)
    return post
JX = [ge(JW, ONE), ge(JH, ONE), le(JW, const(65535)), le(JH, const(65535)), le(JW*JH, const(LIM))]
def withjpeg(comp):
    def setup(r): r.jpeg = jpeg.Jpeg(r.ex, comp)
    return setup
for comp in (3, 1):
    c_ = cfg('C27', 'jpeg%d' % comp, 'readjpeg', 'jpeg', post_jpeg(comp), {}, JX, True); c_.setup = withjpeg(comp)
c_ = cfg('C27', 'jpeg_absent', 'readjpeg', 'jpeg', post_jpeg(3), {}, JX, False); c_.setup = withjpeg(3)
