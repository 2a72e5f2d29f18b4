"""Contracts on the C library's file and string functions, over a file with arbitrary contents.

The file is a byte sequence of symbolic length L.  Its contents are the ghost arrays file.u8 (bytes), file.u32
(little-endian words) and file.f32 (floats), all indexed by byte offset.  A FILE object holds the read position."""
import re
from .core import *
from . import core, sx
from .sx import Unsupported, Base, Layer, DeadPath, Blk

NUM, FLT, BYTE, INEXACT = 1, 2, 3, 4     # what a record of the output is
LEN = var('L'); LINES = var('lines')          # the length of the file, in bytes and in lines
FACTS = [ge(LEN), le(LEN, const(1 << 40))]
core.ARR_RANGE['file.u8'] = (0, 255); core.ARR_RANGE['file.u32'] = (0, (1 << 32) - 1)
def u8(o): return apoly(('ild', 'file.u8', P_(o)))
def u32(o): return apoly(('ild', 'file.u32', P_(o)))
def be32(o): return apoly(('ild', 'file.be32', P_(o)))        # the big-endian word there: reverse(u32)
core.ARR_RANGE['file.be32'] = (0, (1 << 32) - 1)
def reverse(x):
    """the 32-bit value with its four bytes reversed"""
    def byte(i): return mk_div(x, const(1 << (8*i))) - (256*mk_div(x, const(1 << (8*i + 8))) if i < 3 else ZERO)
    return sum((byte(i)*(1 << (24 - 8*i)) for i in range(4)), ZERO)
def big(r):
    """a byte-reversed word of the file is named be32, the word itself stays u32"""
    if not 4 <= len(r.m) <= 12: return r
    ws = {a for a in free_atoms(r) if core.atom_of(a)[:2] == ('ild', 'file.u32')}
    if len(ws) != 1: return r
    o = core.atom_of(ws.pop())[2]
    return be32(o) if r == reverse(u32(o)) else r
def f32(o): return ('ld', 'file.f32', P_(o), 'float')
# ghost functions on file positions (the C library's reading of the text there)
def lineend(p): return sx.apply_fn('file.lineend', p)         # the position after the first newline at or after p, or the end of the file
def strip(p):
    """white space before a number does not matter"""
    p = P_(p)
    if len(p.m) == 1:
        (mono, cf), = p.m.items()
        if cf == 1 and len(mono) == 1 and core.atom_of(mono[0])[:2] == ('ild', 'file.space'): return core.atom_of(mono[0])[2]
    return p
def space(p): return apoly(('ild', 'file.space', strip(p)))   # the position of the first character that is not white space
def numend(p): return apoly(('ild', 'file.numend', strip(p))) # the position after the number (and white space before it) at p
def numint(p): return apoly(('ild', 'file.int', strip(p)))    # its value as an integer
def numflt(p): return ('ld', 'file.flt', strip(p), 'float')   # its value as a float
core.ARR_RANGE['file.int'] = (0, (1 << 16) - 1)
def simplify(ex, st, p):
    """conditional positions under the current facts"""
    for mono in list(p.m):
        for a in mono:
            t = core.atom_of(a)
            if t[0] == 'iite':
                if prove(st.facts, t[1], 2): return simplify(ex, st, subst(p, {a: t[2]}))
                if prove(st.facts, neg(t[1]), 2): return simplify(ex, st, subst(p, {a: t[3]}))
    return p
def setres(st, ins, v):
    if ins.res: st.env[ins.res] = v

def fork(ex, st, f, hard=False):
    """[(state, truth)]"""
    d = ex.decide(st, f)
    if d is None and hard and not ex.probe:
        if prove(st.facts, f, 2): d = True
        elif prove(st.facts, neg(f), 2): d = False
    if d is not None: return [(st, d)]
    a, b = st.clone(), st.clone(); a.branch(f); b.branch(neg(f)); return [(a, True), (b, False)]

class Files:
    """externs; installed into an Executor"""
    def __init__(self, ex, present=True):
        self.ex = ex; self.present = present; ex.files = self
        E = ex.externs
        E['@__isoc23_strtol'] = E['@strtol'] = E['@strtoul'] = E['@__isoc23_strtoul'] = self.strtol
        for n in ('strlen', 'fopen', 'fclose', 'fread', 'getc', 'fgets', 'strcspn', 'atoi', 'strncpy', 'strcmp', 'strncmp', 'memcmp'): E['@' + n] = getattr(self, n)
        E['@__isoc99_fscanf'] = E['@__isoc23_fscanf'] = E['@fscanf'] = self.fscanf
        E['@_IO_getc'] = self.getc; E['@fgetc'] = self.getc
        for n in ('fprintf', 'fputc', 'fputs'): E['@' + n] = getattr(self, n)
        E['@_IO_putc'] = E['@putc'] = self.fputc
        ex.text_copy = self.text_copy; ex.named = big; ex.position = self.position
        self.seps = {'': 0}; self.sepname = ['']
    def stream(self, ex, st, p, ins, what):
        if p[0] == 'null':
            ex.record(st, 'null', False, ins, '%s on a null FILE' % what); raise DeadPath()
        if p[0] != 'ptr' or st.blk[p[1]].origin != 'FILE': raise Unsupported('%s on %s' % (what, p[0]))
        if not st.alive.get(p[1]): ex.record(st, 'free', False, ins, '%s on a closed FILE' % what); raise DeadPath()
        return p[1]
    def fopen(self, ex, st, av, ins):
        ex.assumptions.add('fopen yields null exactly for a file that cannot be opened')
        if self.present is False: setres(st, ins, ('null',)); st.ghost['absent'] = True; return None
        b = ex.new_block(st, 'FILE', 16, 'cells', 'FILE'); st.mem[b.id] = {0: (8, ZERO)}
        if self.literal(st, av[1])[:1] == 'w':
            o = {}
            for nm, t in (('kind', ('i', 32)), ('int', ('i', 32)), ('flt', ('f', 'double')), ('sep', ('i', 32))):
                x = ex.array_block(st, 'out.' + nm, const(1 << 40), t, 8 if t[0] == 'f' else 4, Base('undef'), 'stream'); o[nm] = x.id; st.alive[x.id] = True
            if 'OUT' in st.ghost: raise Unsupported('two files are written')
            st.ghost['OUT'] = tuple(sorted(o.items())); st.ghost['OUTFILE'] = b.id
            self.put(ex, st, 'sep', ZERO, ZERO, ins); setres(st, ins, ('ptr', b.id, ZERO)); return None
        for f in FACTS:
            if f not in st.facts: st.assume(f)
        st.ghost['FILE'] = b.id
        setres(st, ins, ('ptr', b.id, ZERO)); return None
    def fclose(self, ex, st, av, ins):
        b = self.stream(ex, st, av[0], ins, 'fclose'); st.alive[b] = False; setres(st, ins, ZERO); return None
    def pos(self, st, b): return st.mem[b][0][1]
    def setpos(self, ex, st, b, p): ex.set_cell(st, b, 0, 8, p)
    def fread(self, ex, st, av, ins):
        dst = av[0]; size = ex.exact_u(st, av[1], 64); n = ex.exact_u(st, av[2], 64)
        f = self.stream(ex, st, av[3], ins, 'fread'); pos = self.pos(st, f)
        ex.assumptions.add('fread copies min(count, rest of the file) whole elements and advances by what it copied')
        if not size.is_const(): raise Unsupported('fread with a symbolic element size')
        total = size*n; out = []
        small = dst[0] == 'ptr' and st.blk[dst[1]].kind == 'cells' and total.is_const() and total.cval() <= 4 and not (size == ONE)
        for s, full in [(st, True)] if ex.probe and ex.full_reads else fork(ex, st, le(pos + total, LEN), True):
            try:
                if full:
                    if total != ZERO: self.fill(ex, s, dst, size, n, pos, ins)
                    self.setpos(ex, s, f, pos + total); r = n
                elif small:
                    # the bytes that are there are stored, the rest of the object keeps its value
                    s.assume(le(pos, LEN)); o = dst[2].cval(); t = total.cval(); old = s.mem[dst[1]].get(o)
                    for g in range(t):
                        u = s.clone(); u.branch(eq(LEN, pos + g))
                        if not feasible(u.facts, True): continue
                        v = None
                        if g == 0: pass
                        elif old and old[0] == t and isinstance(old[1], Poly) and old[1].is_const():
                            v = const((old[1].cval() >> (8*g)) << (8*g))
                            for i in range(g): v = v + u8(pos + i)*(1 << (8*i))
                        else: self.fill(ex, u, dst, size, n, None, ins)
                        if v is not None: ex.set_cell(u, dst[1], o, t, v)
                        self.setpos(ex, u, f, LEN); setres(u, ins, const(g//size.cval())); out.append(u)
                    continue
                else:
                    s.assume(le(pos, LEN)); r = core.mk_div(LEN - pos, size) if n != ONE else ZERO; s.assume(lt(r, n))
                    self.fill(ex, s, dst, size, n, None, ins)
                    self.setpos(ex, s, f, LEN)
            except DeadPath: continue
            setres(s, ins, r); out.append(s)
        return ('multi', out, [])
    def fill(self, ex, st, dst, size, n, pos, ins):
        """pos None: unknown contents (a short read)"""
        b = ex.check_access(st, dst, 1, ins, True)
        if b is None or b.kind == 'opaque': raise Unsupported('fread into opaque memory')
        sz = size.cval()
        if b.kind == 'cells':
            if not (n.is_const() and dst[2].is_const()): raise Unsupported('fread of symbolic size into a small object')
            o = dst[2].cval(); k = n.cval()
            ok = o >= 0 and o + sz*k <= b.size.cval()
            ex.record(st, 'bounds', ok, ins, 'fread of %d bytes at offset %d of %s (%s bytes)' % (sz*k, o, b.name, show(b.size)))
            if not ok: raise DeadPath()
            for i in range(k):
                if pos is None: v = apoly(('ild', fresh('short'), ZERO)); core.ARR_RANGE[core.atom_of(next(iter(v.m))[0])[1]] = (0, (1 << (8*sz)) - 1)
                elif sz == 1: v = u8(pos + i)
                elif sz == 4: v = (ex.records.word(st, pos + 4*i) if ex.records else None) or u32(pos + 4*i)
                else: raise Unsupported('fread of %d byte elements' % sz)
                ex.set_cell(st, b.id, o + i*sz, sz, v)
            return
        if b.kind == 'lazy': b = ex.as_array(st, b.id, 4 if sz == 4 else 1, ('f', 'float') if sz == 4 else ('i', 8))
        es = b.esize; total = size*n
        cnt = exact_div_poly(total, const(es)); d0 = exact_div_poly(dst[2], const(es))
        if cnt is None or d0 is None: raise Unsupported('fread size is not a multiple of the element size')
        t = atom(('v', fresh('t'))); tp = Poly({(t,): 1})
        s2 = st.clone(); s2.assume(conj([ge(tp), lt(tp, cnt)]))
        loc = ex.bound(s2, b, d0 + tp, ins, 'fread')
        if b.ety == ('f', 'float'): v = f32(pos + 4*tp) if pos is not None else ('ld', fresh('short'), tp, 'float')
        elif b.ety == ('i', 8): v = u8(pos + tp) if pos is not None else apoly(('ild', self.rng(fresh('short'), 255), tp))
        elif b.ety == ('i', 32): v = u32(pos + 4*tp) if pos is not None else apoly(('ild', self.rng(fresh('short'), (1 << 32) - 1), tp))
        else: raise Unsupported('fread into %s' % (b.ety,))
        st.mem[b.id] = Layer(st.mem[b.id], (t,), conj([ge(tp), lt(tp, cnt)]), d0 + tp, v, loc[0] if loc else None, loc[1] if loc else None)
    def rng(self, a, hi): core.ARR_RANGE[a] = (0, hi); return a
    # ---- output: a sequence of converted values (numbers and bytes that are not constant) with the literal text between them
    def put(self, ex, st, what, i, v, ins):
        b = dict(st.ghost['OUT'])[what]; sz = 8 if what == 'flt' else 4
        st.mem[b] = Layer(st.mem[b], (), True, P_(i), v, None, None)
    def outstream(self, ex, st, p, ins, what):
        f = self.stream(ex, st, p, ins, what)
        if st.ghost.get('OUTFILE') != f: raise Unsupported('%s on a file opened for reading' % what)
        ex.assumptions.add('writing to an open file succeeds')
        return f
    def emit(self, ex, st, f, kind, v, ins, after=''):
        n = self.pos(st, f)
        self.put(ex, st, 'kind', n, const(kind), ins); self.put(ex, st, 'flt' if kind in (FLT, INEXACT) else 'int', n, v, ins)
        self.put(ex, st, 'sep', n + 1, const(self.sepid(after)), ins); self.setpos(ex, st, f, n + 1)
    def sepid(self, t):
        if t not in self.seps: self.seps[t] = len(self.sepname); self.sepname.append(t)
        return self.seps[t]
    def lit(self, ex, st, f, s, ins):
        if not s: return
        n = self.pos(st, f); b = st.blk[dict(st.ghost['OUT'])['sep']]
        v = ex._read(st, st.mem[b.id], b, n, ('i', 32), ins)
        if not (isinstance(v, Poly) and v.is_const() and 0 <= v.cval() < len(self.sepname)): raise Unsupported('text before a value that the loop writes')
        self.put(ex, st, 'sep', n, const(self.sepid(self.sepname[v.cval()] + s)), ins)
    def fprintf(self, ex, st, av, ins):
        if av[0][0] not in ('ptr', 'null'): setres(st, ins, ex.havoc(('i', 32))); return None      # stderr
        f = self.outstream(ex, st, av[0], ins, 'fprintf'); fmt = self.literal(st, av[1]); args = list(av[2:]); i = 0; cur = ''; rec = None
        def flush():
            if rec: self.emit(ex, st, f, rec[0], rec[1], ins, cur)
            else: self.lit(ex, st, f, cur, ins)
        while i < len(fmt):
            c = fmt[i]
            if c != '%': cur += c; i += 1; continue
            if fmt[i + 1] == '%': cur += '%'; i += 2; continue
            j = i + 1
            while fmt[j] in '0123456789.hl': j += 1
            mod, spec = fmt[i + 1:j], fmt[j]; a = args.pop(0); i = j + 1
            if spec in 'uidc' and mod in ('', 'h', 'hh', 'l', 'll'):
                w = 64 if mod[:1] == 'l' else 32; a = ex.ival(a)
                a = ex.exact_u(st, a, w) if spec in 'uc' else ex.exact_s(st, a, w)
                if spec == 'c': a = a if prove(st.facts, conj([ge(a), lt(a, const(256))]), 2) else a - 256*mk_div(a, const(256))
                if a.is_const(): cur += str(a.cval()) if spec != 'c' else chr(a.cval()); continue
                flush(); cur = ''; rec = (NUM if spec != 'c' else BYTE, a)
            elif spec in 'aefg':
                m = re.match(r'^\.(\d+)$', mod); p = int(m.group(1)) if m else None
                exact = (spec == 'a' and mod == '') or (spec == 'e' and p is not None and p >= 8) or (spec == 'g' and p is not None and p >= 9)
                flush(); cur = ''; rec = (FLT if exact else INEXACT, ex.fval(a, ('f', 'double')))
            elif spec == 's' and mod == '' and a[0] == 'ptr' and st.blk[a[1]].ro: cur += self.literal(st, a)
            else: raise Unsupported('fprintf format %r' % fmt)
        flush(); setres(st, ins, ex.havoc(('i', 32))); return None
    def fputs(self, ex, st, av, ins):
        f = self.outstream(ex, st, av[1], ins, 'fputs'); self.lit(ex, st, f, self.literal(st, av[0]), ins); setres(st, ins, ONE); return None
    def fputc(self, ex, st, av, ins):
        f = self.outstream(ex, st, av[1], ins, 'fputc'); a = ex.exact_u(st, ex.ival(av[0]), 32)
        if not prove(st.facts, conj([ge(a), lt(a, const(256))]), 2): a = a - 256*mk_div(a, const(256))
        if a.is_const(): self.lit(ex, st, f, chr(a.cval()), ins)
        else: self.emit(ex, st, f, BYTE, a, ins)
        setres(st, ins, a); return None
    def output(self, st, what, i, ex):
        b = st.blk[dict(st.ghost['OUT'])[what]]
        return ex._read(st, st.mem[b.id], b, P_(i), b.ety, None)
    def sep(self, st, i, ex):
        v = self.output(st, 'sep', i, ex)
        return self.sepname[v.cval()] if isinstance(v, Poly) and v.is_const() else None
    # ---- text
    def fgets(self, ex, st, av, ins):
        buf, f = av[0], self.stream(ex, st, av[2], ins, 'fgets'); n = ex.exact_u(st, av[1], 32); pos = self.pos(st, f); out = []
        if not n.is_const(): raise Unsupported('fgets with a symbolic size')
        ex.assumptions.add('fgets reads one line (lines are shorter than the buffers they are read into, which the properties require)')
        k = self.lineno(pos)
        if ex.probe and ex.eof_exits:
            a, b = st.clone(), st.clone(); a.branch(lt(pos, LEN)); b.branch(neg(lt(pos, LEN))); cases = [(a, True), (b, False)]
        elif ex.probe: cases = [(st, True)]
        elif k is not None:
            # the k-th line begins before the end of the file exactly when the file has more than k lines
            st.assume(ge(LINES)); st.assume(disj([conj([ge(LINES, ONE), ge(LEN, ONE)]), conj([eq(LINES), eq(LEN)])])); cases = fork(ex, st, lt(k, LINES))
        else: cases = fork(ex, st, lt(pos, LEN))
        for s, ok in cases:
            if not ok: setres(s, ins, ('null',)); out.append(s); continue
            e = lineend(pos); s.assume(conj([lt(pos, e), le(e, LEN), lt(e - pos, n)]))
            for g in self.linefacts(pos, e): s.assume(g)
            try: self.fill_line(ex, s, buf, pos, e - pos, n, ins)
            except DeadPath: continue
            self.setpos(ex, s, f, e); setres(s, ins, buf); out.append(s)
        return ('multi', out, [])
    linefacts = staticmethod(lambda pos, e: [])
    def position(self, f):
        """line k begins before the end of the file exactly when the file has more than k lines"""
        if not isinstance(f, tuple): return f
        if f[0] in ('and', 'or'): return (conj if f[0] == 'and' else disj)([self.position(x) for x in f[1]])
        if f[0] == 'not': return neg(self.position(f[1]))
        if f[0] == 'le':
            for p, w in ((f[1] + LEN - 1, lambda k: lt(k, LINES)), (LEN - f[1], lambda k: le(LINES, k))):
                if f == (lt(p, LEN) if p == f[1] + LEN - 1 else le(LEN, p)):
                    k = self.lineno(p) if p != ZERO else None
                    if k is not None: return w(k)
        return f
    def lineno(self, pos):
        """k when pos is the beginning of line k"""
        if pos == ZERO: return ZERO
        if len(pos.m) == 1:
            (mono, cf), = pos.m.items()
            if cf == 1 and len(mono) == 1:
                t = core.atom_of(mono[0])
                if t[0] == 'iter' and t[1] == 'file.lineend' and t[2] == ZERO: return t[3]
                if t[0] == 'ild' and t[1] == 'file.lineend':
                    k = self.lineno(t[2])
                    if k is not None: return k + 1
        return None
    def text_copy(self, st, dst, src, n, ins):
        """bytes of a line copied into a small object: which text they are is remembered for atoi"""
        ln = self.line(st, src)
        if ln is None: return False
        pos, length, o = ln; ex = self.ex; sb, db = st.blk[src[1]], st.blk[dst[1]]; d = dst[2].cval()
        ex.oblige(st, 'bounds', conj([ge(src[2]), le(src[2] + n, sb.size)]), ins, 'memcpy reads %d bytes of %s' % (n, sb.name))
        ok = d >= 0 and d + n <= db.size.cval()
        ex.record(st, 'bounds', ok, ins, 'memcpy writes %d bytes at offset %d of %s (%s bytes)' % (n, d, db.name, show(db.size)))
        if not ok: raise DeadPath()
        for i in range(n): ex.set_cell(st, db.id, d + i, 1, apoly(('ild', self.rng(fresh('text'), 255), ZERO)))
        st.ghost['text:%d' % db.id] = (st.mem[db.id], pos + o, n, d)
        return True
    def fill_line(self, ex, st, dst, pos, ln, n, ins):
        b = ex.check_access(st, dst, 1, ins, True)
        if b is None or b.kind != 'array' or b.ety != ('i', 8): raise Unsupported('fgets into %s' % (b and b.kind))
        d0 = dst[2]
        ex.oblige(st, 'bounds', conj([ge(d0), le(d0 + n, b.size)]), ins, 'fgets of up to %s bytes into %s' % (show(n), b.name))
        t = atom(('v', fresh('t'))); tp = Poly({(t,): 1})
        node = Layer(st.mem[b.id], (t,), conj([ge(tp), lt(tp, ln)]), d0 + tp, u8(pos + tp), None, None)
        node = Layer(node, (), True, d0 + ln, ZERO, None, None)
        st.mem[b.id] = node; st.ghost['line:%d' % b.id] = (node, pos, ln, d0)
    def line(self, st, p):
        """(position, length) of the line a buffer holds"""
        if p[0] != 'ptr': return None
        g = st.ghost.get('line:%d' % p[1])
        if g is None or st.mem.get(p[1]) is not g[0]: return None
        return g[1], g[2], p[2] - g[3]
    def fscanf(self, ex, st, av, ins):
        f = self.stream(ex, st, av[0], ins, 'fscanf'); pos = simplify(ex, st, self.pos(st, f)); fmt = self.literal(st, av[1]); args = list(av[2:]); i = 0; n = 0
        ex.assumptions.add('the text read with fscanf is well formed (numbers where numbers are expected), as the properties require')
        while i < len(fmt):
            c = fmt[i]
            if c in ' \n\t': pos = space(pos); i += 1; continue
            if c != '%': raise Unsupported('fscanf format %r' % fmt)
            j = i + 1
            while fmt[j] in 'hl': j += 1
            spec = fmt[i + 1:j + 1]; p = args.pop(0)
            if spec in ('hhu', 'hu', 'u', 'hhd', 'hd', 'd', 'lu', 'ld'):
                sz = {'hhu': 1, 'hhd': 1, 'hu': 2, 'hd': 2, 'u': 4, 'd': 4, 'lu': 8, 'ld': 8}[spec]
                v = numint(pos); ex.store(st, p, ex.exact_u(st, v, 8*sz), ('i', 8*sz), ins)
            elif spec in ('a', 'f', 'e', 'g'): ex.store(st, p, numflt(pos), ('f', 'float'), ins)
            else: raise Unsupported('fscanf format %r' % fmt)
            pos = numend(pos); i = j + 1; n += 1
        st.assume(le(pos, LEN)); self.setpos(ex, st, f, pos); setres(st, ins, const(n)); return None
    def literal(self, st, p):
        if p[0] != 'ptr' or not p[2].is_const(): raise Unsupported('format string')
        o = p[2].cval(); out = []
        m = st.mem[p[1]]
        while True:
            if type(m) is not dict: raise Unsupported('format string')
            c = m[o][1].cval()
            if c == 0: return ''.join(out)
            out.append(chr(c % 256)); o += 1
    def getc(self, ex, st, av, ins):
        f = self.stream(ex, st, av[0], ins, 'getc'); pos = simplify(ex, st, self.pos(st, f)) if not ex.probe else self.pos(st, f); out = []
        for s, ok in [(st, True)] if ex.probe else fork(ex, st, lt(pos, LEN)):   # the classification pass follows the success path; the inductive pass takes both
            if ok: setres(s, ins, u8(pos)); self.setpos(ex, s, f, pos + 1)
            else: setres(s, ins, const(-1))
            out.append(s)
        return ('multi', out, [])
    # ---- strings
    def byte(self, ex, st, p, i, ins):
        v = ex.load(st, ('ptr', p[1], p[2] + i), ('i', 8), ins)
        if isinstance(v, tuple) and v[0] == 'b8': v = sx.mk_iite(v[1], ONE, ZERO)
        v = ex.ival(v) if not isinstance(v, Poly) else v
        if v.is_const(): return const(v.cval() % 256)
        return ex.exact_u(st, v, 8)
    def strcmp(self, ex, st, av, ins, n=None):
        p, q = av[0], av[1]
        for x in (p, q):
            if x[0] != 'ptr': raise Unsupported('string comparison of %s' % x[0])
        if not st.blk[q[1]].ro: p, q = q, p
        if not st.blk[q[1]].ro: raise Unsupported('comparison of two variable strings')
        ln = self.line(st, p)
        if ln is not None and n is None and ln[2] == ZERO:
            # a line equals a literal that ends in its only newline exactly when the file has these bytes there
            lit = self.literal(st, q).encode('latin1'); pos = ln[0]
            if lit.endswith(b'\n') and b'\n' not in lit[:-1] and b'\0' not in lit:
                is_ = conj([le(pos + len(lit), LEN)] + [eq(u8(pos + i), const(c)) for i, c in enumerate(lit)]); out = []
                for s, same in fork(ex, st, is_):
                    if same:
                        s.assume(eq(lineend(pos), pos + len(lit))); setres(s, ins, ZERO); f = s.ghost['FILE']
                        if self.pos(s, f) == lineend(pos): self.setpos(ex, s, f, pos + len(lit))
                    else: setres(s, ins, self.differ(s))
                    out.append(s)
                return ('multi', out, [])
        if ex.records and n is None:
            r = self.names_equal(ex, st, p, self.literal(st, q), ins)
            if r is not None: return r
        out = []; eqs = []; i = 0
        cur = st
        # byte by byte; a difference ends the comparison, so later bytes are only read when the earlier ones agree
        while True:
            if n is not None and i >= n: break
            c = self.byte(ex, cur, q, i, ins).cval(); d = self.byte(ex, cur, p, i, ins)
            e = eq(d, const(c)); eqs.append(e)
            nxt = None
            for s, same in fork(ex, cur, e):
                if same: nxt = s
                else: setres(s, ins, self.differ(s)); out.append(s)
            if nxt is None: return ('multi', out, [])
            cur = nxt; i += 1
            if c == 0: break
        setres(cur, ins, ZERO)
        # all unequal outcomes are one: some byte differs
        if len(out) > 1:
            s = st.clone(); s.branch(neg(conj(eqs))); setres(s, ins, self.differ(s)); out = [s]
        return ('multi', out + [cur], [])
    def names_equal(self, ex, st, p, lit, ins):
        """the buffer holds n-1 bytes of the file and a terminator; no byte of a name is NUL: it equals lit exactly when n-1 is lit's length and the bytes are lit's"""
        def shape(i, v):
            t = core.atom_of(next(iter(v.m))[0]) if len(v.m) == 1 and list(v.m.values()) == [1] and len(next(iter(v.m))) == 1 else None
            if not t or t[0] != 'iite' or t[2] != ZERO or t[1][0] != 'eq' or len(t[3].m) != 1: return None
            u = core.atom_of(next(iter(t[3].m))[0]) if len(next(iter(t[3].m))) == 1 else None
            return (t[1], u[2]) if u and u[:2] == ('ild', 'file.u8') and t[3] == u8(u[2]) else None
        d = shape(0, self.byte(ex, st, p, 0, ins))
        if d is None: return None
        e = d[0][1]; pos = d[1]
        if not any(len(m) == 1 and abs(c) == 1 for m, c in e.m.items()): return None
        for n in (e + 1, ONE - e):
            if all(len(m) == 0 or c > 0 for m, c in n.m.items()): break
        else: return None
        for i in range(1, len(lit) + 1):
            s = st.clone(); s.assume(ge(n - 1, const(i))); x = shape(i, self.byte(ex, s, p, i, ins))
            if x is None or x[1] != pos + i or x[0] != eq(n - 1 - i): return None
        ex.assumptions.add('names in the weight file contain no NUL byte, as the properties require')
        out = []
        for s, same in fork(ex, st, conj([eq(n, const(len(lit) + 1))] + [eq(u8(pos + i), const(ord(c))) for i, c in enumerate(lit)]), True):
            setres(s, ins, ZERO if same else self.differ(s)); out.append(s)
        return ('multi', out, [])
    def differ(self, st):
        r = var(fresh('cmp')); st.assume(conj([ge(r, const(-255)), le(r, const(255)), neg(eq(r, ZERO))])); return r
    def strncmp(self, ex, st, av, ins):
        n = ex.exact_u(st, av[2], 64)
        if not n.is_const(): raise Unsupported('strncmp length')
        return self.strcmp(ex, st, av, ins, n.cval())
    def strcspn(self, ex, st, av, ins):
        ln = self.line(st, av[0])
        if ln is None or self.literal(st, av[1]) != '\n' or ln[2] != ZERO: raise Unsupported('strcspn')
        pos, n, _ = ln
        ex.assumptions.add('lines contain no NUL character')
        setres(st, ins, sx.mk_iite(eq(u8(pos + n - 1), const(10)), n - 1, n)); return None
    def strncpy(self, ex, st, av, ins):
        """copies n bytes, all of them before the end of the source string"""
        ln = self.line(st, av[1]); n = ex.exact_u(st, av[2], 64)
        if ln is None or not prove(st.facts, le(n, ln[1] - ln[2]), 2): raise Unsupported('strncpy')
        ex.memcpy(st, av[0], av[1], n, ins); setres(st, ins, av[0]); return None
    def atoi(self, ex, st, av, ins):
        p = av[0]; ex.assumptions.add('atoi yields the value of the digits at the start of its argument, which ends in a character that is no digit')
        if p[0] != 'ptr': raise Unsupported('atoi of %s' % p[0])
        ln = self.line(st, p); g = st.ghost.get('text:%d' % p[1])
        if ln is not None: q = ln[0] + ln[2]; ok = le(numend(q), ln[0] + ln[1])
        elif g is not None and st.mem.get(p[1]) is g[0] and p[2] == const(g[3]):
            q = g[1]; ok = lt(numend(q) - q, const(g[2])); z = g[0].get(g[3] + g[2])
            if z is not None and z[0] == 1 and isinstance(z[1], Poly) and z[1] == ZERO: ok = le(numend(q) - q, const(g[2]))      # a terminator follows the text
        else: raise Unsupported('atoi')
        ex.oblige(st, 'bounds', conj([ok, lt(q, numend(q))]), ins, 'the number ends inside the copied text')
        setres(st, ins, numint(q)); return None
    def strtol(self, ex, st, av, ins):
        if av[1][0] != 'null' or not isinstance(av[2], Poly) or av[2] != const(10): raise Unsupported('strtol')
        return self.atoi(ex, st, av, ins)
    def strlen(self, ex, st, av, ins):
        ln = self.line(st, av[0])
        if ln is None: raise Unsupported('strlen')
        ex.assumptions.add('lines contain no NUL character')
        setres(st, ins, ln[1] - ln[2]); return None
    def memcmp(self, ex, st, av, ins):
        n = ex.exact_u(st, av[2], 64)
        if not n.is_const(): raise Unsupported('memcmp length')
        p, q = av[0], av[1]
        es = [eq(self.byte(ex, st, p, i, ins), self.byte(ex, st, q, i, ins)) for i in range(n.cval())]
        out = []
        for s, same in fork(ex, st, conj(es)): setres(s, ins, ZERO if same else self.differ(s)); out.append(s)
        return ('multi', out, [])
