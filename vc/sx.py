"""Symbolic executor / verification-condition generator over the parsed LLVM IR.

Loops are never unrolled (except when the trip count is a literal <= UNROLL): each loop gets a
summary -- closed forms for the induction variables, fold terms for accumulators, guarded region
updates for array writes -- obtained from one symbolic iteration.  The side conditions of the
summary rule (no wrap of induction variables, monotone exit conditions, disjointness of the
writes of different iterations, termination) are obligations discharged by the prover.
"""
import re
from .core import *
from . import core, ir

UNROLL = 20
import os
DEBUG = bool(os.environ.get('VC_DEBUG'))

class Unsupported(Exception):
    """a construct outside the verifier's reach (a tool limit, never evidence of a defect)"""

class Blk:
    __slots__ = ('id', 'name', 'size', 'kind', 'esize', 'ety', 'origin', 'ro', 'tag')
    def __init__(self, id, name, size, kind, origin, esize=None, ety=None, ro=False, tag=None):
        self.id = id; self.name = name; self.size = size; self.kind = kind; self.origin = origin
        self.esize = esize; self.ety = ety; self.ro = ro; self.tag = tag

# array contents
class Base:
    __slots__ = ('kind', 'arr', 'ety')
    def __init__(self, kind, arr=None, ety=None):
        self.kind = kind; self.arr = arr; self.ety = ety
class Layer:
    __slots__ = ('parent', 'vars', 'dom', 'idx', 'val', 'dims', 'digs')
    def __init__(self, parent, vars, dom, idx, val, dims, digs):
        self.parent = parent; self.vars = vars; self.dom = dom; self.idx = idx; self.val = val
        self.dims = dims; self.digs = digs
class LoopPrev:
    __slots__ = ('parent', 'k', 'templates', 'uid', 'loop', 'reads')
    def __init__(self, parent, k, templates, uid, loop):
        self.parent = parent; self.k = k; self.templates = templates; self.uid = uid; self.loop = loop
        self.reads = []
LOST = ('lost',)
class EarlyExit(Unsupported): pass
class NoForm(Unsupported): pass
class NeedProbe(Exception): pass
class NeedTemplates(Exception):
    def __init__(self, templates): self.templates = templates
class NeedCells(Exception):
    def __init__(self, cells): self.cells = cells

class State:
    __slots__ = ('env', 'facts', 'pc', 'mem', 'blk', 'alive', 'ghost', 'events')
    def __init__(self):
        self.env = {}; self.facts = (); self.pc = (); self.mem = {}; self.blk = {}; self.alive = {}; self.ghost = {}
        self.events = ()
    def clone(self):
        s = State()
        s.env = dict(self.env); s.facts = self.facts; s.pc = self.pc
        s.mem = dict(self.mem); s.blk = dict(self.blk); s.alive = dict(self.alive); s.ghost = dict(self.ghost)
        s.events = self.events
        return s
    def assume(self, f):
        if f is True: return
        for g in conjuncts(f):
            if g not in self.facts: self.facts = self.facts + (g,)
    def branch(self, f):
        if f is True: return
        self.assume(f)
        self.pc = self.pc + (f,)

MINMAX = re.compile(r'@_ZSt3(min|max)I([htjmyacsilxfd])ERKT_S2_S2_$')
FLT = ('c', 'ld', 'op', 'call', 'cast', 'i2f', 'ite', 'fold', 'sym', 'macc')
def join(x, y):
    x = [g for f in x for g in conjuncts(f)]; y = [g for f in y for g in conjuncts(f)]
    if len(x) == 1 and neg(x[0]) in y: y = [g for g in y if g != neg(x[0])]
    elif len(y) == 1 and neg(y[0]) in x: x = [g for g in x if g != neg(y[0])]
    elif len(x) == 1:
        y = [g for g in y if not (x[0][0] == 'or' and any(neg(d) == g for d in x[0][1]))]
        n = neg(x[0])
        if n[0] == 'and' and all(g in y for g in n[1]): y = [g for g in y if g not in n[1]]
    return disj([conj(x), conj(y)])

class Obl:
    __slots__ = ('kind', 'fn', 'line', 'text', 'ok', 'facts', 'goal', 'via')
    def __init__(self, kind, fn, line, text, ok, facts=None, goal=None, via=''):
        self.kind = kind; self.fn = fn; self.line = line; self.text = text; self.ok = ok
        self.facts = facts; self.goal = goal; self.via = via
    def where(self): return '%s:%s' % (short(self.fn), self.line)

def short(n):
    m = re.findall(r'\d+([A-Za-z_]\w*?)(?=\d|E|C1|C2|D0|D1|D2)', n)
    return n.lstrip('@')

class Loop:
    def __init__(self, header): self.header = header; self.blocks = set(); self.children = []; self.parent = None

def find_loops(fn):
    if hasattr(fn, '_loops'): return fn._loops
    blocks = fn.blocks; order = fn.order; entry = fn.entry
    # dominators (iterative)
    rpo = []; seen = set()
    def dfs(b):
        st = [(b, iter(blocks[b].succs))]; seen.add(b)
        while st:
            x, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(blocks[s].succs))); break
            else:
                rpo.append(x); st.pop()
    dfs(entry); rpo.reverse()
    idx = {b: i for i, b in enumerate(rpo)}
    dom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in blocks[b].preds:
                if p in dom:
                    if new is None: new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while idx[x] > idx[y]: x = dom[x]
                            while idx[y] > idx[x]: y = dom[y]
                        new = x
            if dom.get(b) != new: dom[b] = new; ch = True
    def dominates(a, b):
        while True:
            if a == b: return True
            if b == entry: return False
            b = dom[b]
    loops = {}
    for b in rpo:
        for s in blocks[b].succs:
            if s in idx and dominates(s, b):
                L = loops.setdefault(s, Loop(s))
                L.blocks.add(s)
                st = [b]
                while st:
                    x = st.pop()
                    if x not in L.blocks:
                        L.blocks.add(x)
                        st += [p for p in blocks[x].preds if p in idx]
            elif s in idx and idx[s] <= idx[b]:
                fn._loops = None
                raise Unsupported('irreducible control flow in ' + fn.name)
    ls = sorted(loops.values(), key=lambda l: len(l.blocks))
    for i, l in enumerate(ls):
        for m in ls[i+1:]:
            if l.header in m.blocks and l is not m:
                l.parent = m; m.children.append(l); break
    fn._loops = loops
    # blocks from which the function can return (others only end the process)
    live = set(); st = [b for b in blocks if blocks[b].instrs and blocks[b].instrs[-1].op == 'ret']
    while st:
        x = st.pop()
        if x in live: continue
        live.add(x); st += blocks[x].preds
    fn._live = live; fn._rpo = idx
    return loops

OSTREAM = re.compile(r'^@"?(_ZStls|_ZNSols|_ZNSolsE|_ZSt4endl|_ZNSt8ios_base4Init|_ZStlsI|_ZNSo|_ZSt16__ostream_insert|_ZStlsISt11char_traits|_ZSt5flush)')
STRING = re.compile(r'^@_ZNK?St7__cxx1112basic_string')
MATH = {}
for base in 'exp tanh pow sqrt fabs log sin cos floor ceil fmax fmin exp2 log2 cosh sinh tan round trunc'.split():
    MATH['@%s' % base] = (base, 'double'); MATH['@%sf' % base] = (base, 'float'); MATH['@%sl' % base] = (base, 'x86_fp80')
    for suf, ty in (('f32', 'float'), ('f64', 'double'), ('f80', 'x86_fp80')):
        MATH['@llvm.%s.%s' % ({'fmax': 'maxnum', 'fmin': 'minnum'}.get(base, base), suf)] = (base, ty)

class Executor:
    text_copy = None; family = None; named = None; eof_exits = False; full_reads = False; position = None; records = None; files = None; nomid = ()
    def __init__(self, mod, contracts=None):
        self.mod = mod; self.obls = []; self.probe = 0; self.nblk = 0
        self.contracts = contracts or {}
        self.gblk = {}          # global name -> block id
        self.fnstack = []
        self.loopuid = 0
        self.functions_executed = {}
        self.loops_summarised = 0
        self.assumptions = set()
        self.prevreads = []      # stack of lists for LoopPrev re-checks
        self.strict = True
        self.externs = {}
        self.die_ok = False
        self.depth = 0
        self.math_used = set()
        self.contract_calls = {}

    # ------------------------------------------------------------ obligations
    def oblige(self, st, kind, goal, ins=None, text='', effort=2):
        if self.probe:
            return True
        ok = prove(st.facts, goal, effort)
        fn = self.fnstack[-1].name if self.fnstack else '?'
        self.obls.append(Obl(kind, fn, ins.line if ins is not None else 0, text or show(goal), ok,
                             None if ok else st.facts, None if ok else goal))
        if not ok: st.assume(goal)
        return ok
    def record(self, st, kind, ok, ins=None, text=''):
        if self.probe: return ok
        fn = self.fnstack[-1].name if self.fnstack else '?'
        self.obls.append(Obl(kind, fn, ins.line if ins is not None else 0, text, ok, None if ok else st.facts, None))
        return ok

    # ------------------------------------------------------------ memory blocks
    def new_block(self, st, name, size, kind, origin, **kw):
        self.nblk += 1
        b = Blk(self.nblk, name, P_(size), kind, origin, **kw)
        st.blk[b.id] = b; st.alive[b.id] = True
        if kind == 'cells': st.mem[b.id] = {}
        elif kind == 'lazy': st.mem[b.id] = Base('undef')
        return b
    def array_block(self, st, name, n, ety, esize, base, origin='param', ro=False):
        b = self.new_block(st, name, P_(n)*esize, 'array', origin, esize=esize, ety=ety, ro=ro)
        st.mem[b.id] = base
        return b
    def set_cell(self, st, bid, off, size, val):
        c = dict(st.mem[bid])
        for o in [o for o in c if o < off+size and off < o + c[o][0]]:
            del c[o]
        c[off] = (size, val)
        st.mem[bid] = c
    def get_cell(self, st, bid, off, size):
        return st.mem[bid].get(off)

    # ------------------------------------------------------------ integer helpers
    def exact_u(self, st, p, w):
        if p.is_const(): return const(p.cval() % (1 << w))
        if any(v % (1 << w) == 0 for v in p.m.values()): return self.exact_u(st, Poly({k: v for k, v in p.m.items() if v % (1 << w)}), w)
        if self.in_range(st, p, 0, 1 << w, 1 if self.probe else 2): return p
        if not self.probe and len(p.m) == 1:
            (mono, cf), = p.m.items()
            if cf > 1 and cf & (cf-1) == 0 and cf < 1 << w:
                # a left shift that drops high bits
                q = Poly({mono: 1}); hi = (1 << w) // cf
                if prove(st.facts, conj([ge(q), lt(q, const(1 << w))]), 1): return const(cf)*(q - const(hi)*mk_div(q, const(hi)))
        return mk_wrap(w, False, p)
    def in_range(self, st, p, lo, hi, effort):
        g = conj([ge(p, const(lo)), lt(p, const(hi))])
        if p.degree() >= 2 and lo <= 0:
            if prove(st.facts, g, 0): return True
            if self.digit_range(st, p, hi): return True
        return prove(st.facts, g, effort)
    def digit_range(self, st, p, hi):
        """0 <= p < hi because p is a mixed-radix number over the extents of some tensor"""
        pa = set(a for k in p.m if len(k) > 1 for a in k)
        tried = []
        for b in list(st.blk.values()):
            if b.kind != 'array' or b.esize != 4 or not st.alive.get(b.id): continue
            for dims in self.dims_cands(st, b)[:1]:
                if len(dims) < 2 or dims in tried: continue
                tried.append(dims)
                tail = set()
                for d in dims[1:]: tail |= d.atoms()
                if not pa & tail: continue
                n = ONE
                for d in dims: n = n*d
                # quick reject: the least significant digit must have lower degree than p
                g = digits(p, dims, st.facts, 1)
                if g is not None and prove(st.facts, lt(n, const(hi)), 1): return True
        return False
    def exact_s(self, st, p, w):
        if p.is_const(): return mk_wrap(w, True, p)
        h = 1 << (w-1)
        if self.in_range(st, p, -h, h, 1 if self.probe else 2): return p
        return mk_wrap(w, True, p)
    def cmp_int(self, st, pred, w, a, b):
        if pred in ('eq', 'ne'):
            if (a-b).is_const():
                r = (a-b).cval() % (1 << w) == 0
            elif self.probe and not self._rng(st, a, w, False) and not self._rng(st, a, w, True) or \
                 self.probe and not self._rng(st, b, w, False) and not self._rng(st, b, w, True):
                r = ('raw', 'eq', w, a, b)
            elif self._rng(st, a, w, False) and self._rng(st, b, w, False): r = eq(a, b)
            elif self._rng(st, a, w, True) and self._rng(st, b, w, True): r = eq(a, b)
            else: r = eq(self.exact_u(st, a, w), self.exact_u(st, b, w))
            return r if pred == 'eq' else neg(r)
        signed = pred[0] == 's'
        if self.probe and not (self._rng(st, a, w, signed) and self._rng(st, b, w, signed)):
            base = {'gt': 'lt', 'ge': 'le', 'lt': 'lt', 'le': 'le'}[pred[1:]]
            x, y = (b, a) if pred[1:] in ('gt', 'ge') else (a, b)
            if x.is_const(): x = mk_wrap(w, signed, x)
            if y.is_const(): y = mk_wrap(w, signed, y)
            return ('raw', pred[0]+base, w, x, y)
        f = self.exact_s if signed else self.exact_u
        a = f(st, a, w); b = f(st, b, w)
        return {'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[pred[1:]](a, b)
    def _rng(self, st, p, w, signed):
        lo, hi = (-(1 << (w-1)), 1 << (w-1)) if signed else (0, 1 << w)
        if p.is_const(): return lo <= p.cval() < hi
        return self.in_range(st, p, lo, hi, 1)

    # ------------------------------------------------------------ values
    def val(self, st, v, ty):
        k = v[0]
        if k == 'reg':
            if v[1] not in st.env: raise Unsupported('undefined register %s' % v[1])
            return st.env[v[1]]
        if k == 'int':
            if v[1] == 1: return bool(v[2] & 1)
            return const(v[2])
        if k == 'fp': return ('c', v[1], float(v[2]))
        if k == 'null': return ('null',)
        if k == 'global':
            if v[1] in self.mod.functions: return ('fnp', v[1])
            g = self.mod.globals.get(v[1])
            if g and g[0] == 'alias': return ('fnp', g[1])
            return ('ptr', self.global_block(st, v[1]), ZERO)
        if k == 'cgep':
            base = self.val(st, v[2][0][1], ('ptr',))
            return self.gep(st, v[1], base, [(t, x) for t, x in v[2][1:]])
        if k == 'undef': return ('undef',)
        if k == 'zero':
            return self.zero(ty)
        if k == 'agg':
            return ('agg', tuple(self.val(st, x, t) for t, x in v[1]))
        raise Unsupported('value %s' % (v,))
    def zero(self, ty):
        t = self.mod.resolve(ty)
        if t[0] == 'i': return False if t[1] == 1 else ZERO
        if t[0] == 'f': return ('c', t[1], 0.0)
        if t[0] == 'ptr': return ('null',)
        if t[0] == 'struct': return ('agg', tuple(self.zero(x) for x in t[1]))
        raise Unsupported('zero of %s' % (t,))
    def global_block(self, st, name):
        if name in self.gblk:
            bid = self.gblk[name]
            if bid in st.blk: return bid
        g = self.mod.globals.get(name)
        self.nblk += 1
        if g is None or g[1] is None:
            b = Blk(self.nblk, name, const(1 << 20), 'opaque', 'global')
        else:
            kind, t, init, ext = g
            try: size = self.mod.size(t)
            except Exception: size = 1 << 20
            rt = self.mod.resolve(t) if t else None
            if init is None or ext and init is None:
                b = Blk(self.nblk, name, const(size), 'opaque', 'global')
            else:
                b = Blk(self.nblk, name, const(size), 'cells', 'global', ro=(kind == 'constant'), tag=name)
        bid = b.id
        self.gblk[name] = bid
        st.blk[bid] = b; st.alive[bid] = True
        if b.kind == 'cells':
            cells = {}
            kind, t, init, ext = g
            if kind == 'constant':
                self._init_cells(st, cells, 0, t, init)
            else:
                self._havoc_cells(cells, 0, t, name)
            st.mem[bid] = cells
        else: st.mem[bid] = {}
        return bid
    def _init_cells(self, st, cells, off, t, v):
        rt = self.mod.resolve(t)
        if v[0] == 'cstr':
            for i, c in enumerate(v[1]): cells[off+i] = (1, const(c))
        elif v[0] == 'agg':
            o = off
            if rt[0] == 'struct':
                for j, (tt, x) in enumerate(v[1]):
                    fo, ft = self.mod.field_off(t, j)
                    self._init_cells(st, cells, off+fo, tt, x)
            else:
                sz = self.mod.size(rt[2])
                for j, (tt, x) in enumerate(v[1]): self._init_cells(st, cells, off+j*sz, tt, x)
        elif v[0] == 'zero' and rt[0] in ('struct', 'arr'):
            if rt[0] == 'struct':
                for j in range(len(rt[1])):
                    fo, ft = self.mod.field_off(t, j); self._init_cells(st, cells, off+fo, ft, v)
            else:
                if rt[1] > 4096: return
                sz = self.mod.size(rt[2])
                for j in range(rt[1]): self._init_cells(st, cells, off+j*sz, rt[2], v)
        else:
            cells[off] = (self.mod.size(rt), self.val(st, v, rt))
    def _havoc_cells(self, cells, off, t, name):
        """a mutable global may hold anything at entry (any earlier history)"""
        rt = self.mod.resolve(t)
        if rt[0] == 'struct':
            for j in range(len(rt[1])):
                fo, ft = self.mod.field_off(t, j); self._havoc_cells(cells, off+fo, ft, name)
        elif rt[0] == 'arr':
            sz = self.mod.size(rt[2])
            for j in range(min(rt[1], 4096)): self._havoc_cells(cells, off+j*sz, rt[2], name)
        elif rt[0] == 'i':
            a = 'global:%s+%d' % (name, off)
            core.ARR_RANGE[a] = (0, (1 << rt[1])-1)
            cells[off] = (self.mod.size(rt), apoly(('ild', a, ZERO)) if rt[1] > 1 else ('ba', a))
        elif rt[0] == 'f': cells[off] = (self.mod.size(rt), ('ld', 'global:%s+%d' % (name, off), ZERO, rt[1]))
        else: cells[off] = (8, ('opaque', name))

    def gep(self, st, ty, base, idx):
        if base[0] in ('null',): 
            return base if all(self.val(st, v, t) == ZERO for t, v in idx) else ('badptr',)
        if base[0] in ('opaque', 'undef', 'badptr', 'fnp'): return base
        off = base[2]
        t = ty
        for n, (it, iv) in enumerate(idx):
            x = self.val(st, iv, it)
            if not isinstance(x, Poly): raise Unsupported('gep index')
            if it[0] == 'i' and it[1] < 64: x = self.exact_s(st, x, it[1])
            if n == 0:
                off = off + x*self.mod.size(t)
            else:
                rt = self.mod.resolve(t)
                if rt[0] == 'struct':
                    fo, t = self.mod.field_off(t, x.cval()); off = off + fo
                else:
                    t = rt[2]; off = off + x*self.mod.size(t)
        return ('ptr', base[1], off)

    # ------------------------------------------------------------ arrays
    def tensor_dims(self, st, bid):
        out = []
        for k, c in st.mem.items():
            if type(c) is dict and c:
                d = c.get(16)
                if d and isinstance(d[1], tuple) and d[1][0] == 'ptr' and d[1][1] == bid and d[1][2] == ZERO:
                    s = c.get(8)
                    if s and isinstance(s[1], tuple) and s[1][0] == 'ptr' and type(st.mem.get(s[1][1])) is dict:
                        sh = st.mem[s[1][1]]; dims = []
                        for o in sorted(sh):
                            if isinstance(sh[o][1], Poly): dims.append(sh[o][1])
                        if dims and dims not in out: out.append(dims)
        return out
    def dims_cands(self, st, b):
        n = self.alen(b)
        out = []
        hints = self.tensor_dims(st, b.id)
        if b.tag and isinstance(b.tag, tuple) and b.tag[0] == 'dims': hints = hints + [list(b.tag[1])]
        for dims in hints:
            pr = ONE
            for d in dims: pr = pr*d
            if pr != n: continue
            m = len(dims)
            comps = []
            for mask in range(1 << (m-1)):
                cur = [dims[0]]
                for i in range(1, m):
                    if mask >> (i-1) & 1: cur[-1] = cur[-1]*dims[i]
                    else: cur.append(dims[i])
                comps.append(cur)
            comps.sort(key=lambda c: -len(c))
            for c in comps:
                if c not in out: out.append(c)
        if [n] not in out: out.append([n])
        return out
    def alen(self, b):
        n = exact_div_poly(b.size, const(b.esize))
        if n is None: raise Unsupported('array length of %s not a multiple of the element size' % b.name)
        return n
    def locate(self, st, b, idx, dims=None, effort=1):
        """(dims, digits) with every digit proved in range, or None"""
        for d in ([dims] if dims else self.dims_cands(st, b)):
            g = digits(idx, d, st.facts, effort)
            if g is not None: return d, g
        return None
    def locate_div(self, st, b, idx):
        """digits with div/mod terms (for flat indices into structured arrays)"""
        return None

    def as_array(self, st, bid, esize, ety):
        b = st.blk[bid]
        if b.kind == 'lazy':
            nb = Blk(b.id, b.name, b.size, 'array', b.origin, esize, ety, b.ro, b.tag)
            st.blk[bid] = nb
            return nb
        return b

    def check_access(self, st, p, size, ins, write):
        """null / liveness obligations; returns block id or None"""
        if p[0] in ('null', 'badptr', 'undef'):
            self.record(st, 'null', False, ins, 'access through a null or undefined pointer')
            raise DeadPath()
        if p[0] == 'opaque':
            return None
        if p[0] != 'ptr': raise Unsupported('pointer %s' % (p,))
        b = st.blk[p[1]]
        if not st.alive.get(b.id):
            self.record(st, 'free', False, ins, 'access to released memory ' + b.name)
            raise DeadPath()
        if write and b.ro:
            self.record(st, 'frame', False, ins, 'write to constant memory ' + b.name)
        return b

    def load(self, st, p, ty, ins):
        rt = self.mod.resolve(ty)
        size = self.mod.size(rt)
        b = self.check_access(st, p, size, ins, False)
        if b is None or b.kind == 'opaque': return ('opaque', 'mem')
        off = p[2]
        if b.kind == 'table': return self.records.table(st, b, off, ins)
        if b.kind == 'cells':
            if not off.is_const():
                # small table with symbolic index: case split
                return self.load_cells_sym(st, b, off, size, rt, ins)
            o = off.cval()
            ok = 0 <= o and (not b.size.is_const() or o + size <= b.size.cval())
            self.record(st, 'bounds', ok, ins, 'load of %d bytes at offset %d of %s (%s bytes)' % (size, o, b.name, show(b.size)))
            if not ok: raise DeadPath()
            c = st.mem[b.id].get(o)
            if c is None or c[0] != size:
                if c is None and not any(o2 < o+size and o < o2+c2[0] for o2, c2 in st.mem[b.id].items()):
                    self.record(st, 'uninit', False, ins, 'read of uninitialised memory: %s+%d' % (b.name, o))
                    return self.havoc(rt)
                return self.load_bytes(st, b, o, size, rt)
            if c[1] == LOST: raise Unsupported('scratch memory of another iteration is read')
            return self.coerce(c[1], rt)
        esize = size; ety = rt[1] if rt[0] == 'f' else rt[0]
        b = self.as_array(st, b.id, esize, rt)
        if b.kind == 'array' and b.esize != esize: raise Unsupported('mixed element sizes in %s' % b.name)
        idx = exact_div_poly(off, const(esize))
        if idx is None: raise Unsupported('misaligned access')
        loc = self.bound(st, b, idx, ins, 'load')
        v = self.read(st, b, idx, loc, rt, ins)
        return v
    def load_bytes(self, st, b, o, size, rt):
        """assemble a little-endian integer from byte cells"""
        if rt[0] == 'i' and rt[1] > 8:
            r = ZERO
            for i in range(size):
                c = st.mem[b.id].get(o+i)
                if c is None or c[0] != 1 or not isinstance(c[1], Poly): raise Unsupported('partial cell read in %s' % b.name)
                r = r + c[1]*(1 << (8*i))
            return r
        raise Unsupported('partial cell read in %s' % b.name)
    def load_cells_sym(self, st, b, off, size, rt, ins):
        cells = st.mem[b.id]
        ok = self.oblige(st, 'bounds', conj([ge(off), le(off + size, b.size)]), ins, 'load in bounds of %s' % b.name)
        offs = [o for o in sorted(cells) if cells[o][0] == size]
        if rt[0] == 'i' and rt[1] > 1 or rt[0] == 'f':
            r = None
            for o in reversed(offs):
                v = self.coerce(cells[o][1], rt)
                if r is None: r = v
                else:
                    c = eq(off, const(o))
                    if prove(st.facts, neg(c), 1): continue
                    if prove(st.facts, c, 1): r = v; break
                    r = mk_iite(c, v, r) if rt[0] == 'i' else mk_ite(c, v, r)
            if r is not None and len(offs)*size == b.size.cval(): return r
        if rt[0] == 'ptr':
            for o in offs:
                if prove(st.facts, eq(off, const(o)), 1): return cells[o][1]
            if not self.probe or True:
                vs = [cells[o][1] for o in offs]
                if self.probe and vs: return vs[0]
        raise Unsupported('symbolic index into %s' % b.name)
    def havoc(self, rt):
        if rt[0] == 'i':
            if rt[1] == 1: return ('ba', fresh('undef'))
            a = fresh('undef'); core.ARR_RANGE[a] = (0, (1 << rt[1])-1)
            return apoly(('ild', a, ZERO))
        if rt[0] == 'f': return ('sym', fresh('undef'), rt[1])
        return ('undef',)
    def coerce(self, v, rt):
        if rt[0] == 'i' and rt[1] == 8 and (isinstance(v, bool) or (isinstance(v, tuple) and v[0] in ('le','eq','not','and','or','fc','ba'))):
            return ('b8', v)
        return v
    def bound(self, st, b, idx, ins, what):
        loc = self.locate(st, b, idx)
        if self.probe: return loc
        if loc is not None:
            self.record(st, 'bounds', True, ins, '%s %s[%s]: digits %s in range of %s' % (what, b.name, show(idx), [show(x) for x in loc[1]], [show(x) for x in loc[0]]))
            return loc
        n = self.alen(b)
        self.oblige(st, 'bounds', conj([ge(idx), lt(idx, n)]), ins, '%s %s[%s] within %s elements' % (what, b.name, show(idx), show(n)))
        return None

    def read(self, st, b, idx, loc, rt, ins=None):
        return self._read(st, st.mem[b.id], b, idx, rt, ins)
    def _read(self, st, node, b, idx, rt, ins):
        pend = []     # (cond, val) from top
        while True:
            if isinstance(node, Base):
                if node.kind == 'zero':
                    v = self.zero(rt)
                elif node.kind == 'lost': raise Unsupported('scratch memory of another iteration is read')
                elif node.kind == 'undef':
                    if not self.probe:
                        # reading uninitialised storage is only reachable when no pending condition covers it
                        cover = disj([c for c, _ in pend])
                        ok = prove(st.facts, cover, 1) if cover is not False else False
                        self.record(st, 'uninit', ok, ins, 'element of %s read before it is written' % b.name)
                    v = self.havoc(rt)
                else:
                    ety = node.ety
                    if rt[0] == 'f': v = ('ld', node.arr, idx, rt[1])
                    elif rt[0] == 'i':
                        if rt[1] == 1: v = ('ba', node.arr, idx)
                        else: v = apoly(('ild', node.arr, idx))
                    else: raise Unsupported('pointer array read ' + b.name)
                break
            if isinstance(node, LoopPrev):
                r = self.read_prev(st, node, b, idx, rt, node.templates or ())
                if not any(x[1] == idx and x[2] == st.facts for x in node.reads):
                    node.reads.append((b, idx, st.facts, rt, r))
                if r is None: node = node.parent; continue
                v = r; break
            m = self.match(st, b, node.vars, node.dims, node.digs, node.idx, node.dom, idx)
            if m is None:
                if self.probe: v = self.havoc(rt); break
                raise Unsupported('cannot relate read %s[%s] to write %s[%s]' % (b.name, show(idx), b.name, show(node.idx)))
            cond, s = m
            if cond is False: node = node.parent; continue
            if cond is not True:
                if prove(st.facts, neg(cond), 1): node = node.parent; continue
                if prove(st.facts, cond, 1): cond = True
            val = subst(node.val, s) if s else node.val
            if cond is True: v = val; break
            pend.append((cond, val)); node = node.parent
        for c, x in reversed(pend):
            if rt[0] == 'f': v = mk_ite(c, x, v)
            elif rt[0] == 'i' and rt[1] > 1: v = mk_iite(c, x, v)
            else: raise Unsupported('conditional pointer value')
        return v

    def match(self, st, b, vars, dims, digs, lidx, dom, idx, idims=None, idigs=None):
        """solve lidx(vars) == idx.  Returns (condition, substitution) or None."""
        eqs = None
        if digs is not None and dims is not None:
            t = idigs if idims == dims and idigs is not None else digits(idx, dims, st.facts, 1)
            if t is None:
                t = self.div_digits(st, idx, dims)
            if t is not None: eqs = [(d, x) for d, x in zip(digs, t)]
        if eqs is None:
            if digs is not None and len(vars) > 1:
                # structured write, unstructured read
                return None
            eqs = [(lidx, idx)]
        left = list(vars); s = {}
        eqs = self.split_eqs(st, eqs, set(vars), dom)
        eqs = [d - x for d, x in eqs]
        progress = True
        while left and progress:
            progress = False
            for e in eqs:
                e2 = subst(e, s)
                for v in list(left):
                    co = e2.coeffs_in(v)
                    if set(co) <= {0, 1} and 1 in co and co[1].is_const() and abs(co[1].cval()) == 1:
                        rest = co.get(0, ZERO)
                        sol = -rest if co[1].cval() == 1 else rest
                        if free_atoms(sol) & set(left): continue
                        if v in free_atoms(rest): continue
                        s = {k: subst(x, {v: sol}) for k, x in s.items()}
                        s[v] = sol; left.remove(v); progress = True
                        break
                if progress: break
        if left:
            for v in list(left):
                d2 = subst(dom, s)
                vp = Poly({(v,): 1})
                if prove(list(st.facts) + [d2], eq(vp), 1):
                    s[v] = ZERO; left.remove(v)
            if left:
                if prove(list(st.facts) + conjuncts(dom), disj([neg(eq(e)) for e in eqs]), 2): return False, {}
                return None
        conds = [eq(subst(e, s)) for e in eqs]
        c = conj(conds + [subst(dom, s)])
        return c, s

    def split_eqs(self, st, eqs, vars, dom):
        """c*q1 + r1 == c*q2 + r2 with both remainders in [0,c): two equations"""
        out = []
        todo = list(eqs); n = 0
        while todo:
            d, x = todo.pop(0); n += 1
            diff = d - x; done = False
            if n < 12:
              for v in vars & diff.atoms():
                c = diff.coeffs_in(v).get(1)
                if c is None or (c.is_const() and abs(c.cval()) == 1): continue
                if set(diff.coeffs_in(v)) > {0, 1}: continue
                if c.is_const():
                    c = const(abs(c.cval())); leads = [()]
                    def dm(p):
                        q = {}; r = {}
                        for k, w in p.m.items():
                            if w % c.cval() == 0: q[k] = w//c.cval()
                            elif k == ():
                                q[k] = w//c.cval(); r[k] = w % c.cval()
                            else: r[k] = w
                        return Poly({k: w for k, w in q.items() if w}), Poly(r)
                else:
                    leads = lead_candidates(c)
                    dm = None
                for lead in leads:
                    if dm is None or not c.is_const(): f = lambda p: poly_divmod(p, c, lead)
                    else: f = dm
                    fs = list(st.facts) + conjuncts(dom)
                    if False in fs: continue
                    off = const(d.m.get((), 0))
                    for o in ([ZERO] if off == ZERO or c.is_const() else [ZERO, off]):
                        q1, r1 = f(d - o); q2, r2 = f(x - o)
                        if core._inrange(r1, c, fs, 1) and core._inrange(r2, c, fs, 1):
                            todo += [(q1, q2), (r1, r2)]; done = True; break
                    if done: break
                if done: break
            if not done: out.append((d, x))
        return out
    def div_digits(self, st, idx, dims):
        """digits using explicit div terms; needs idx within the array"""
        out = []
        p = idx
        for d in reversed(dims[1:]):
            if d == ONE: out.append(ZERO); continue
            done = False
            for lead in (lead_candidates(d) if not d.is_const() else []):
                q, r = poly_divmod(p, d, lead)
                if core._inrange(r, d, st.facts, 1):
                    out.append(r); p = q; done = True; break
            if done: continue
            best = None
            for lead in (lead_candidates(d) if not d.is_const() else []):
                best = poly_divmod(p, d, lead); break
            q, r = best if best else (ZERO, p)
            if not prove(st.facts, conj([ge(r), ge(d, ONE)]), 1):
                q, r = ZERO, p
                if not prove(st.facts, conj([ge(r), ge(d, ONE)]), 1): return None
            dv = mk_div(r, d)
            out.append(r - d*dv); p = q + dv
        if not core._inrange(p, dims[0], st.facts, 2): return None
        out.append(p)
        out = out[::-1]
        for x, d in zip(out, dims):      # proved above / definition of division
            if not x.is_const(): st.assume(conj([ge(x), lt(x, d)]))
        return out

    def read_prev(self, st, node, b, idx, rt, templates):
        """value of b[idx] at the start of iteration node.k; None if it is the pre-loop value"""
        kid = node.k
        k = Poly({(kid,): 1})
        carried = False
        j = atom(('v', fresh('j')))
        jp = Poly({(j,): 1})
        for T in templates:
            vars, dom, lidx, dims, digs = T
            ren = {v: Poly({(atom(('v', fresh('t'))),): 1}) for v in vars}
            nv = [next(iter(ren[v].m))[0] for v in vars]
            dep = kid in free_atoms(lidx)
            s0 = dict(ren); s0[kid] = jp
            l2 = subst(lidx, s0); d2 = subst(dom, s0)
            g2 = [subst(x, s0) for x in digs] if digs is not None else None
            extra = [ge(jp), lt(jp, k)]
            if dep:
                m = self.match(st, b, nv + [j], dims, g2, l2, conj([d2] + extra), idx)
                if m is None:
                    raise Unsupported('loop-carried access %s[%s] vs write [%s]' % (b.name, show(idx), show(lidx)))
                cond, s = m
                if cond is False or prove(st.facts, neg(cond), 1): continue
                # same iteration index cannot be excluded: a real loop-carried dependence
                raise Unsupported('loop-carried dependence on %s[%s]' % (b.name, show(idx)))
            m = self.match(st, b, nv, dims, g2, l2, conj([d2]), idx)
            if m is not None:
                cond, s = m
                if cond is False or prove(st.facts, neg(conj([cond, ge(k, ONE)])), 1): continue
            carried = True
        if not carried: return None
        if rt[0] != 'f': raise Unsupported('loop-carried integer cell in %s' % b.name)
        return ('macc', node.uid, b.id, idx, rt[1])

    def store(self, st, p, v, ty, ins):
        rt = self.mod.resolve(ty)
        size = self.mod.size(rt)
        b = self.check_access(st, p, size, ins, True)
        if b is None or b.kind == 'opaque':
            if b is not None and b.origin == 'global':
                self.record(st, 'frame', False, ins, 'write to global ' + b.name)
            return
        off = p[2]
        if b.kind == 'table': self.record(st, 'frame', False, ins, 'write to ' + b.name); return
        if b.kind == 'cells':
            if not off.is_const(): return self.store_cells_sym(st, b, off, size, v, rt, ins)
            o = off.cval()
            ok = 0 <= o and (not b.size.is_const() or o + size <= b.size.cval())
            self.record(st, 'bounds', ok, ins, 'store of %d bytes at offset %d of %s (%s bytes)' % (size, o, b.name, show(b.size)))
            if not ok: raise DeadPath()
            self.set_cell(st, b.id, o, size, v)
            return
        b = self.as_array(st, b.id, size, rt)
        if b.esize != size: raise Unsupported('mixed element sizes in %s' % b.name)
        idx = exact_div_poly(off, const(size))
        if idx is None: raise Unsupported('misaligned store')
        loc = self.bound(st, b, idx, ins, 'store')
        if isinstance(v, tuple) and v[0] == 'b8': v = mk_iite(v[1], ONE, ZERO)
        if isinstance(v, tuple) and v[0] in ('ptr', 'null', 'fnp') and (self.family is None or rt[0] != 'ptr'): raise Unsupported('pointer stored in array ' + b.name)
        if rt[0] == 'i' and isinstance(v, Poly): v = self.exact_u(st, v, rt[1])
        st.mem[b.id] = Layer(st.mem[b.id], (), True, idx, v, loc[0] if loc else None, loc[1] if loc else None)
    def store_cells_sym(self, st, b, off, size, v, rt, ins):
        raise Unsupported('store at symbolic offset of %s' % b.name)

    def memcpy(self, st, dst, src, n, ins, move=False):
        if n == ZERO: return
        if dst[0] == 'opaque' or src[0] == 'opaque': raise Unsupported('memcpy of opaque memory')
        db = self.check_access(st, dst, 1, ins, True); sb = self.check_access(st, src, 1, ins, False)
        if db is None or sb is None or 'opaque' in (db.kind, sb.kind): raise Unsupported('memcpy of opaque memory')
        if db.kind == 'cells' and sb.kind == 'cells':
            if not (n.is_const() and dst[2].is_const() and src[2].is_const()): raise Unsupported('symbolic memcpy between small objects')
            so, do, nn = src[2].cval(), dst[2].cval(), n.cval()
            ok = so + nn <= sb.size.cval() and do + nn <= db.size.cval()
            self.record(st, 'bounds', so + nn <= sb.size.cval(), ins, 'memcpy reads %d bytes at offset %d of %s (%s bytes)' % (nn, so, sb.name, show(sb.size)))
            self.record(st, 'bounds', do + nn <= db.size.cval(), ins, 'memcpy writes %d bytes at offset %d of %s (%s bytes)' % (nn, do, db.name, show(db.size)))
            cells = st.mem[sb.id]
            items = [(o, c) for o, c in cells.items() if so <= o and o + c[0] <= so+nn]
            if any(o < so < o+c[0] or o < so+nn < o+c[0] for o, c in cells.items()): raise Unsupported('memcpy splits a cell')
            covered = sum(c[0] for o, c in items)
            new = dict(st.mem[db.id])
            for o in [o for o in new if o < do+nn and do < o+new[o][0]]: del new[o]
            for o, c in items: new[do + o - so] = c
            st.mem[db.id] = new
            return
        es = None
        for b in (db, sb):
            if b.kind == 'array': es = b.esize; ety = b.ety
        if es is None: raise Unsupported('memcpy between untyped arrays')
        db = self.as_array(st, db.id, es, ety); sb = self.as_array(st, sb.id, es, ety)
        if db.kind == 'cells' and es == 1 and n.is_const() and dst[2].is_const() and self.text_copy and self.text_copy(st, dst, src, n.cval(), ins): return
        if 'cells' in (db.kind, sb.kind):
            if n.is_const() and n.cval() <= 16*es and n.cval() % es == 0:
                for i in range(n.cval()//es):
                    v = self.load(st, ('ptr', src[1], src[2] + i*es), ety, ins)
                    self.store(st, ('ptr', dst[1], dst[2] + i*es), v, ety, ins)
                return
            raise Unsupported('memcpy between small object and array')
        cnt = exact_div_poly(n, const(es)); d0 = exact_div_poly(dst[2], const(es)); s0 = exact_div_poly(src[2], const(es))
        if cnt is None or d0 is None or s0 is None or db.esize != sb.esize: raise Unsupported('memcpy size not a multiple of the element size')
        t = atom(('v', fresh('t'))); tp = Poly({(t,): 1})
        s2 = st.clone(); s2.assume(conj([ge(tp), lt(tp, cnt)]))
        self.bound(s2, sb, s0 + tp, ins, 'memcpy read')
        loc = self.bound(s2, db, d0 + tp, ins, 'memcpy write')
        if db.id == sb.id and d0 == s0:
            self.assumptions.add('memcpy of a range onto itself leaves it unchanged'); return
        if db.id == sb.id and not move:
            self.record(st, 'bounds', False, ins, 'memcpy within one array may overlap')
        v = self._read(s2, st.mem[sb.id], sb, s0 + tp, ety, ins)
        if db.ro: pass
        st.mem[db.id] = Layer(st.mem[db.id], (t,), conj([ge(tp), lt(tp, cnt)]), d0 + tp, v, loc[0] if loc else None, loc[1] if loc else None)

    def memset(self, st, dst, byte, n, ins):
        if n == ZERO: return
        b = self.check_access(st, dst, 1, ins, True)
        if b is None or b.kind == 'opaque': return
        if not (isinstance(byte, Poly) and byte.is_const()): raise Unsupported('memset with symbolic byte')
        if byte != ZERO and b.kind != 'cells': raise Unsupported('memset with non-zero byte')
        if b.kind == 'cells':
            if not (n.is_const() and dst[2].is_const()): raise Unsupported('symbolic memset of small object')
            do, nn = dst[2].cval(), n.cval()
            ok = do + nn <= b.size.cval()
            self.record(st, 'bounds', ok, ins, 'memset %d bytes at %d of %s' % (nn, do, b.name))
            new = dict(st.mem[b.id])
            for o in [o for o in new if o < do+nn and do < o+new[o][0]]: del new[o]
            if b.tag and b.tag[0] == 'esize': step = b.tag[1]
            else: step = 4 if nn % 4 == 0 and do % 4 == 0 else 1
            for o in range(do, do+nn, step): new[o] = (step, ('zerobytes',) if False else ZERO)
            if byte != ZERO: raise Unsupported('memset with non-zero byte')
            st.mem[b.id] = new
            return
        if b.kind == 'lazy' or isinstance(st.mem[b.id], Base) and st.mem[b.id].kind == 'undef':
            self.oblige(st, 'bounds', conj([ge(dst[2]), le(dst[2] + n, b.size)]), ins, 'memset within %s' % b.name)
            if dst[2] == ZERO and (n == b.size or prove(st.facts, eq(n, b.size), 1)):
                st.mem[b.id] = Base('zero'); return
            if b.kind == 'lazy': raise Unsupported('partial memset of untyped memory')
        es = b.esize
        cnt = exact_div_poly(n, const(es)); d0 = exact_div_poly(dst[2], const(es))
        if cnt is None or d0 is None: raise Unsupported('memset size')
        t = atom(('v', fresh('t'))); tp = Poly({(t,): 1})
        s2 = st.clone(); s2.assume(conj([ge(tp), lt(tp, cnt)]))
        loc = self.bound(s2, b, d0 + tp, ins, 'memset')
        st.mem[b.id] = Layer(st.mem[b.id], (t,), conj([ge(tp), lt(tp, cnt)]), d0 + tp, self.zero(b.ety), loc[0] if loc else None, loc[1] if loc else None)

    # ------------------------------------------------------------ running code
    def call_function(self, st, fn, args):
        """execute fn's body; list of ('ret', st, val) / ('exit', st, code)"""
        if self.depth > 60: raise Unsupported('call depth (recursion?)')
        if any(f is fn for f in self.fnstack) : raise Unsupported('recursion in ' + fn.name)
        saved = st.env
        st.env = {}
        for (t, nm), a in zip(fn.params, args): st.env[nm] = a
        self.fnstack.append(fn); self.depth += 1
        try:
            if not self.probe: self.functions_executed[fn.name] = self.functions_executed.get(fn.name, 0)+1
            find_loops(fn)
            before = set(st.blk)
            outs = self.run(st, fn, fn.entry, None, None)
        finally:
            self.fnstack.pop(); self.depth -= 1
        res = []
        for o in outs:
            if o[0] == 'edge': raise Unsupported('stray edge')
            s = o[1]
            s.env = dict(saved)
            for bid in list(s.blk):
                if bid not in before and s.blk[bid].origin == 'alloca':
                    del s.blk[bid]; s.mem.pop(bid, None); s.alive.pop(bid, None)
            res.append(o)
        return res

    def merge(self, a, b):
        """one state for two paths that meet, when only scalar values differ"""
        if a.mem.keys() != b.mem.keys() or a.blk.keys() != b.blk.keys() or a.alive != b.alive or a.events != b.events or a.ghost != b.ghost: return None
        for k, m in a.mem.items():
            m2 = b.mem[k]
            if m is not m2 and not (type(m) is dict and type(m2) is dict and m == m2): return None
        for k, x in a.blk.items():
            if x is not b.blk[k]: return None
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n] == b.pc[n]: n += 1
        ea, eb = list(a.pc[n:]), list(b.pc[n:])
        if not ea or not eb: return None
        c = ea[0] if neg(ea[0]) == eb[0] else conj(ea)
        env = {}
        for k, v in a.env.items():
            if k not in b.env: continue
            w = b.env[k]
            if v is w or v == w: env[k] = v; continue
            if isinstance(v, Poly) and isinstance(w, Poly): env[k] = mk_iite(c, v, w); continue
            if isinstance(v, tuple) and isinstance(w, tuple) and v and w and v[0] in FLT and w[0] in FLT: env[k] = mk_ite(c, v, w); continue
            return None
        f = 0
        while f < len(a.facts) and f < len(b.facts) and a.facts[f] == b.facts[f]: f += 1
        s = a.clone(); s.env = env
        fa, fb = list(a.facts[f:]), list(b.facts[f:])
        s.facts = a.facts[:f]
        for g in fa:
            if g in fb: s.facts += (g,)
        g = join([x for x in fa if x not in s.facts], [x for x in fb if x not in s.facts])
        if g is not True: s.facts += tuple(conjuncts(g))
        g = join(ea, eb)
        s.pc = a.pc[:n] + ((g,) if g is not True else ())
        return s

    def run(self, st, fn, bb, prev, loop):
        """execute from block bb inside region `loop` (None: whole function)"""
        outs = []
        work = [(st, bb, prev, 0)]
        loops = fn._loops
        steps = 0
        while work:
            steps += 1
            if steps > 4000: raise Unsupported('too many paths in ' + fn.name)
            w = max(range(len(work)), key=lambda j: (work[j][3] != 0, -fn._rpo.get(work[j][1], 1 << 30), j)) if len(work) > 1 else 0
            st, bb, prev, pos = work.pop(w)
            if pos == 0 and prev is not None:
                if loop is not None and bb == loop.header and prev in loop.blocks:
                    outs.append(('latch', st, prev, bb)); continue
                if loop is not None and bb not in loop.blocks:
                    if bb in fn._live: outs.append(('edge', st, prev, bb))
                    else: outs.extend(self.run(st, fn, bb, prev, None))
                    continue
                L = loops.get(bb)
                if L is not None and L is not loop and not (prev in L.blocks):
                    for o in self.exec_loop(st, fn, L, prev):
                        if o[0] == 'edge': work.append((o[1], o[3], o[2], 0))
                        else: outs.append(o)
                    continue
                self.do_phis(st, fn, bb, prev)
                for j in range(len(work)-1, -1, -1):
                    if work[j][1] == bb and work[j][3] == 0 and work[j][2] is not None:
                        s2 = work[j][0].clone()
                        try: self.do_phis(s2, fn, bb, work[j][2])
                        except DeadPath: continue
                        m = self.merge(st, s2)
                        if m is not None: st = m; del work[j]
            elif pos == 0 and bb in loops and (loop is None or loop.header != bb):
                raise Unsupported('entry block is a loop header')
            blk = fn.blocks[bb]
            n = len(blk.instrs)
            i = pos
            try:
                while i < n:
                    ins = blk.instrs[i]
                    r = self.step(st, fn, ins, bb)
                    if r is None: i += 1; continue
                    k = r[0]
                    if k == 'goto': work.append((st, r[1], bb, 0)); break
                    if k == 'ret': outs.append(('ret', st, r[1])); break
                    if k == 'exit': outs.append(('exit', st, r[1])); break
                    if k == 'dead': break
                    if k == 'fork':
                        for s2, tgt in r[1]: work.append((s2, tgt, bb, 0))
                        break
                    if k == 'multi':      # several states continue after this instruction
                        for s2 in r[1]: work.append((s2, bb, prev, i+1))
                        outs.extend(r[2])
                        break
                    raise Unsupported('step ' + k)
                else:
                    raise Unsupported('fell off block')
            except DeadPath:
                pass
        return outs

    def do_phis(self, st, fn, bb, prev):
        vals = []
        for ph in fn.blocks[bb].phis:
            for v, b in ph.a:
                if b == prev: vals.append((ph.res, self.val(st, v, ph.ty))); break
            else: raise Unsupported('phi without edge')
        for r, v in vals: st.env[r] = v

    def boolval(self, v):
        if isinstance(v, bool): return v
        if isinstance(v, tuple):
            if v[0] == 'undef': return ('ba', fresh('undef'))
            if v[0] == 'b8': return v[1]
            if v[0] == 'opaque': return ('ba', fresh('opaque'))
        return v

    def decide(self, st, f):
        """True / False / None"""
        if f is True or f is False: return f
        if f in st.facts: return True
        if neg(f) in st.facts: return False
        if has_raw(f): return None
        if prove(st.facts, f, 1): return True
        if prove(st.facts, neg(f), 1): return False
        return None

    def step(self, st, fn, ins, bb):
        op = ins.op
        env = st.env
        if op == 'br':
            if len(ins.a) == 1: return ('goto', ins.a[0])
            c = self.boolval(self.val(st, ins.a[0], ('i', 1)))
            d = self.decide(st, c)
            if d is True: st.branch(c) if c is not True else None; return ('goto', ins.a[1])
            if d is False: st.branch(neg(c)) if c is not False else None; return ('goto', ins.a[2])
            s2 = st.clone(); st.branch(c); s2.branch(neg(c))
            return ('fork', [(st, ins.a[1]), (s2, ins.a[2])])
        if op == 'switch':
            t, v, d, cs = ins.a
            x = self.val(st, v, t)
            forks = []; negs = []
            for c, tgt in cs:
                f = self.cmp_int(st, 'eq', t[1], x, const(c[2]))
                r = self.decide(st, f)
                if r is True: return ('goto', tgt)
                if r is False: continue
                s2 = st.clone(); s2.branch(conj(negs + [f])); forks.append((s2, tgt)); negs.append(neg(f))
            s2 = st.clone(); s2.branch(conj(negs)); forks.append((s2, d))
            return ('fork', forks)
        if op == 'ret': return ('ret', None if ins.a is None else self.val(st, ins.a, ins.ty))
        if op == 'unreachable':
            self.record(st, 'ub', False, ins, 'unreachable code reached')
            return ('dead',)
        if op == 'load':
            env[ins.res] = self.load(st, self.val(st, ins.a[0], ('ptr',)), ins.ty, ins); return None
        if op == 'store':
            v = self.val(st, ins.a[0], ins.ty)
            self.store(st, self.val(st, ins.a[1], ('ptr',)), v, ins.ty, ins); return None
        if op == 'alloca':
            n = self.val(st, ins.a[0], ('i', 64))
            sz = self.mod.size(ins.ty)
            ar = self.mod.resolve(ins.ty)
            text = ar[0] == 'arr' and self.mod.resolve(ar[2]) == ('i', 8) and sz > 16     # character buffers are byte arrays
            if n.is_const() and n.cval()*sz <= 1024 and not text:
                b = self.new_block(st, 'stack:%s' % (ins.res or '?'), n.cval()*sz, 'cells', 'alloca')
            else:
                rt = self.mod.resolve(ins.ty)
                self.nblk += 1
                nn = n*sz
                if rt[0] == 'arr': 
                    while rt[0] == 'arr': rt = self.mod.resolve(rt[2])
                es = self.mod.size(rt)
                b = Blk(self.nblk, 'stack:%s' % ins.res, nn, 'array', 'alloca', es, rt)
                st.blk[b.id] = b; st.alive[b.id] = True; st.mem[b.id] = Base('undef')
            env[ins.res] = ('ptr', b.id, ZERO); return None
        if op == 'getelementptr':
            base = self.val(st, ins.a[0], ('ptr',))
            if base[0] == 'null' : self.record(st, 'null', all(self.val(st, v, t) == ZERO for t, v in ins.a[1]), ins, 'member access through a null pointer')
            env[ins.res] = self.gep(st, ins.ty, base, ins.a[1]); return None
        if op in ir.BIN:
            env[ins.res] = self.binop(st, op, ins); return None
        if op == 'fneg':
            env[ins.res] = mk_op('neg', ins.ty[1], self.fval(self.val(st, ins.a[0], ins.ty), ins.ty)); return None
        if op == 'icmp':
            pr, a, b = ins.a
            x = self.val(st, a, ins.ty); y = self.val(st, b, ins.ty)
            if ins.ty[0] == 'ptr': env[ins.res] = self.cmp_ptr(st, pr, x, y)
            elif ins.ty == ('i', 1):
                x, y = self.boolval(x), self.boolval(y)
                e = disj([conj([x, y]), conj([neg(x), neg(y)])])
                env[ins.res] = e if pr == 'eq' else neg(e)
            else:
                if isinstance(x, tuple) and x[0] == 'b8' and isinstance(y, Poly) and y.is_const():
                    # comparison of a stored bool
                    e = (x[1] if y.cval() == 1 else neg(x[1]) if y.cval() == 0 else False)
                    if pr in ('eq', 'ne'): env[ins.res] = e if pr == 'eq' else neg(e); return None
                x = self.ival(x); y = self.ival(y)
                env[ins.res] = self.cmp_int(st, pr, ins.ty[1], x, y)
            return None
        if op == 'fcmp':
            pr, a, b = ins.a
            env[ins.res] = mk_fc(pr, self.fval(self.val(st, a, ins.ty), ins.ty), self.fval(self.val(st, b, ins.ty), ins.ty)); return None
        if op == 'select':
            c = self.boolval(self.val(st, ins.a[0], ('i', 1)))
            a = self.val(st, ins.a[1], ins.ty); b = self.val(st, ins.a[2], ins.ty)
            d = self.decide(st, c) if not (ins.ty[0] == 'f') else (c if isinstance(c, bool) else None)
            if d is True: env[ins.res] = a; return None
            if d is False: env[ins.res] = b; return None
            if ins.ty == ('i', 1):
                a, b = self.boolval(a), self.boolval(b)
                env[ins.res] = disj([conj([c, a]), conj([neg(c), b])]); return None
            if ins.ty[0] == 'f': env[ins.res] = mk_ite(c, self.fval(a, ins.ty), self.fval(b, ins.ty)); return None
            if a == b: env[ins.res] = a; return None
            s2 = st.clone(); st.branch(c); s2.branch(neg(c))
            st.env[ins.res] = a; s2.env[ins.res] = b
            return ('multi', [st, s2], [])
        if op == 'freeze':
            env[ins.res] = self.val(st, ins.a[0], ins.ty); return None
        if op in ir.CAST:
            env[ins.res] = self.cast(st, op, ins); return None
        if op == 'extractvalue':
            v = self.val(st, ins.a[0], ins.ty)
            for k in ins.a[1]:
                if v[0] != 'agg': raise Unsupported('extractvalue')
                v = v[1][k]
            env[ins.res] = v; return None
        if op == 'insertvalue':
            v = self.val(st, ins.a[0], ins.ty); w = self.val(st, ins.a[2], ins.a[1])
            rt = self.mod.resolve(ins.ty)
            if v[0] == 'undef': v = ('agg', tuple(('undef',) for _ in rt[1]))
            l = list(v[1]); l[ins.a[3][0]] = w
            if len(ins.a[3]) > 1: raise Unsupported('insertvalue nested')
            env[ins.res] = ('agg', tuple(l)); return None
        if op == 'call':
            return self.call(st, fn, ins)
        raise Unsupported('instruction %s' % (ins.text[:100],))

    def ival(self, x):
        if isinstance(x, Poly): return x
        if isinstance(x, tuple) and x[0] == 'b8': return mk_iite(x[1], ONE, ZERO)
        if isinstance(x, bool): return ONE if x else ZERO
        if isinstance(x, tuple) and x[0] == 'undef': return self.havoc(('i', 32))
        raise Unsupported('integer value %s' % (str(x)[:60],))
    def fval(self, x, ty=None):
        if isinstance(x, Poly):
            if x == ZERO: return ('c', ty[1] if ty else 'float', 0.0)
            raise Unsupported('integer bits used as float')
        if x[0] == 'undef': return ('sym', fresh('undef'), ty[1])
        if x[0] == 'opaque': raise Unsupported('opaque float')
        return x

    def cmp_ptr(self, st, pr, x, y):
        if x[0] == 'opaque' or y[0] == 'opaque': 
            if 'ptrcond' in x or 'ptrcond' in y: pass
            return ('ba', fresh('ptrcmp'))
        def nul(p): return p[0] == 'null'
        if pr in ('eq', 'ne'):
            r = None
            if x[0] == 'maybe' or y[0] == 'maybe':
                m, o = (x, y) if x[0] == 'maybe' else (y, x)
                if nul(o): r = m[1]
            elif nul(x) and nul(y): r = True
            elif nul(x) or nul(y): r = False
            elif x[0] == 'ptr' and y[0] == 'ptr':
                if x[1] != y[1]: r = False
                else: r = self.cmp_int(st, 'eq', 64, x[2], y[2])
            elif x[0] == 'fnp' and y[0] == 'fnp': r = x[1] == y[1]
            if r is None: raise Unsupported('pointer comparison')
            return r if pr == 'eq' else neg(r)
        if x[0] == 'ptr' and y[0] == 'ptr' and x[1] == y[1]:
            return self.cmp_int(st, pr, 64, x[2], y[2])
        raise Unsupported('pointer order comparison')

    def binop(self, st, op, ins):
        a, b, fl = ins.a
        x = self.val(st, a, ins.ty); y = self.val(st, b, ins.ty)
        t = ins.ty
        if op[0] == 'f':
            return mk_op(op[1:], t[1], self.fval(x, t), self.fval(y, t))
        if t == ('i', 1):
            x, y = self.boolval(x), self.boolval(y)
            if op == 'and': return conj([x, y])
            if op == 'or': return disj([x, y])
            if op == 'xor': return disj([conj([x, neg(y)]), conj([neg(x), y])])
            raise Unsupported('i1 ' + op)
        if t[0] == 'vec': raise Unsupported('vector code')
        w = t[1]
        if op in ('and', 'or', 'xor') and (isinstance(x, tuple) or isinstance(y, tuple)):
            if isinstance(x, tuple) and x[0] == 'b8' and isinstance(y, Poly) and y == ONE and op == 'and': return x
        x, y = self.ival(x), self.ival(y)
        if op in ('add', 'sub', 'mul'):
            r = x+y if op == 'add' else x-y if op == 'sub' else x*y
            if 'nsw' in fl and not r.is_const():
                self.oblige(st, 'overflow', conj([ge(r, const(-(1 << (w-1)))), lt(r, const(1 << (w-1)))]), ins, 'signed %s does not overflow: %s' % (op, show(r)))
            if r.is_const() and not fl: r = const(((r.cval() + (1 << (w-1))) % (1 << w)) - (1 << (w-1)))
            return r
        if op in ('udiv', 'urem'):
            x = self.exact_u(st, x, w); y = self.exact_u(st, y, w)
            self.oblige(st, 'div0', ge(y, ONE), ins, 'divisor %s non-zero' % show(y))
            q = mk_div(x, y)
            return q if op == 'udiv' else x - y*q
        if op in ('sdiv', 'srem'):
            x = self.exact_s(st, x, w); y = self.exact_s(st, y, w)
            self.oblige(st, 'div0', ne(y, ZERO), ins, 'divisor %s non-zero' % show(y))
            if prove(st.facts, conj([ge(x), ge(y, ONE)]), 1):
                q = mk_div(x, y)
                return q if op == 'sdiv' else x - y*q
            if y.is_const() and y.cval() > 0:
                q = mk_iite(ge(x), mk_div(x, y), -mk_div(-x, y))
                return q if op == 'sdiv' else x - y*q
            raise Unsupported('signed division of possibly negative values')
        if op == 'shl' and y.is_const():
            if 'nsw' in fl: self.oblige(st, 'overflow', lt(x*(1 << y.cval()), const(1 << (w-1))), ins, 'shift does not overflow')
            return x*(1 << y.cval())
        if op == 'lshr' and y.is_const():
            return self.small_divs(st, mk_div(self.exact_u(st, x, w), const(1 << y.cval())))
        if op == 'ashr' and y.is_const():
            x = self.exact_s(st, x, w)
            if prove(st.facts, ge(x), 1): return mk_div(x, const(1 << y.cval()))
        if x.is_const() and y.is_const() and op in ('and', 'or', 'xor'):
            m = (1 << w)-1; u, v = x.cval() & m, y.cval() & m
            return const(u & v if op == 'and' else u | v if op == 'or' else u ^ v)
        if op == 'and':
            if x.is_const(): x, y = y, x
            if y.is_const():
                m = y.cval() & ((1 << w)-1)
                # contiguous mask: bits [lo, hi)
                lo = (m & -m).bit_length()-1 if m else 0
                mm = m >> lo
                if m == 0: return ZERO
                if mm & (mm+1) == 0:
                    hi = lo + mm.bit_length()
                    xu = self.exact_u(st, x, w)
                    # bits: floor(x/2^lo) mod 2^(hi-lo), times 2^lo
                    a0 = mk_div(xu, const(1 << lo))
                    r = a0 if hi >= w else a0 - (1 << (hi-lo))*mk_div(xu, const(1 << hi))
                    return self.small_divs(st, r)*(1 << lo)
        if op == 'or':
            # disjoint bit ranges: addition, if provably disjoint
            s = self.or_disjoint(st, x, y, w)
            if s is not None: return self.named(s) if w == 32 and self.named else s
        if op == 'xor' and y.is_const() and y.cval() % (1 << w) == (1 << w)-1:
            return const((1 << w)-1) - self.exact_u(st, x, w) if not isinstance(x, bool) else x
        return apoly(('fn', 'bit_%s_%d' % (op, w), self.exact_u(st, x, w), self.exact_u(st, y, w)))
    def small_divs(self, st, p):
        """quotients whose numerator is smaller than the denominator are zero"""
        if self.probe: return p
        for a in sorted(free_atoms(p)):
            t = atom_of(a)
            if t[0] == 'div' and t[2].is_const() and not any(atom_of(x)[0] == 'div' for x in free_atoms(t[1])) \
                    and prove(st.facts, conj([ge(t[1]), lt(t[1], t[2])]), 1): return self.small_divs(st, subst(p, {a: ZERO}))
        return p
    def or_disjoint(self, st, x, y, w):
        x = self.exact_u(st, x, w); y = self.exact_u(st, y, w)
        if x == ZERO: return y
        if y == ZERO: return x
        for a, b in ((x, y), (y, x)):
            g = 0
            for k, v in a.m.items(): g = gcd(g, v)
            low = g & -g
            if low > 1 and prove(st.facts, conj([ge(b), lt(b, const(low))]), 1): return x + y
        # general: compare bit supports of sums of aligned fields
        fa, fb = self.fields(st, x), self.fields(st, y)
        if fa is not None and fb is not None and all(h1 <= l2 or h2 <= l1 for l1, h1 in fa for l2, h2 in fb): return x + y
        return None
    def fields(self, st, p):
        """p as a sum of terms c*2^l*t with 0<=t<2^n: list of [l,l+n)"""
        out = []
        if p.is_const():
            c = p.cval(); return [(i, i+1) for i in range(64) if c >> i & 1]
        # group by power of two common factor
        best = {}
        for k, v in p.m.items():
            low = (abs(v) & -abs(v)).bit_length()-1
            best.setdefault(low, {})[k] = v >> low if v > 0 else -((-v) >> low)
        # try the whole polynomial as one field
        g = 0
        for v in p.m.values(): g = gcd(g, v)
        low = (g & -g).bit_length()-1
        q = Poly({k: v >> low for k, v in p.m.items()})
        for n in (1, 8, 16, 24, 32):
            if prove(st.facts, conj([ge(q), lt(q, const(1 << n))]), 1): return [(low, low+n)]
        return None

    def cast(self, st, op, ins):
        v, t = ins.a
        x = self.val(st, v, t)
        to = ins.ty
        if op in ('zext', 'sext'):
            if t == ('i', 1):
                x = self.boolval(x)
                if x is True: return ONE if op == 'zext' else const(-1)
                if x is False: return ZERO
                if to == ('i', 8) and op == 'zext': return ('b8', x)
                return mk_iite(x, ONE if op == 'zext' else const(-1), ZERO)
            if isinstance(x, tuple) and x[0] == 'b8': return mk_iite(x[1], ONE, ZERO)
            x = self.ival(x)
            if self.probe and not self._rng(st, x, t[1], op == 'sext'):
                return x      # probe pass: classification only
            return self.exact_u(st, x, t[1]) if op == 'zext' else self.exact_s(st, x, t[1])
        if op == 'trunc':
            if to == ('i', 1):
                if isinstance(x, tuple) and x[0] == 'b8': return x[1]
                x = self.ival(x)
                if x.is_const(): return bool(x.cval() & 1)
                if prove(st.facts, conj([ge(x), le(x, ONE)]), 1): return eq(x, ONE)
                xu = self.exact_u(st, x, t[1])
                return eq(xu - 2*mk_div(xu, const(2)), ONE)
            return self.ival(x)
        if op in ('fpext', 'fptrunc'):
            return mk_cast(to[1], self.fval(x, t), t[1])
        if op in ('uitofp', 'sitofp'):
            if t == ('i', 1): 
                x = self.boolval(x); return mk_ite(x, ('c', to[1], 1.0), ('c', to[1], 0.0))
            x = self.ival(x)
            x = self.exact_u(st, x, t[1]) if op == 'uitofp' else self.exact_s(st, x, t[1])
            if x.is_const() and (to[1] != 'float' or is_f32(float(x.cval()))): return ('c', to[1], float(x.cval()))
            return ('i2f', to[1], x)
        if op in ('fptoui', 'fptosi'):
            x = self.fval(x, t)
            w = to[1]
            nm = '%s%d' % (op, w)
            lo, hi = (0, (1 << w)-1) if op == 'fptoui' else (-(1 << (w-1)), (1 << (w-1))-1)
            core.FN_RANGE[nm] = (lo, hi)
            st.events = st.events + (('f2i', nm, x),)
            return apoly(('fn', nm, x))
        if op == 'bitcast': return x
        if op == 'ptrtoint':
            if x[0] == 'ptr': 
                return Poly({(atom(('fn', 'addr', const(x[1]))),): 1}) + x[2]
            if x[0] == 'null': return ZERO
            raise Unsupported('ptrtoint')
        raise Unsupported(op)

    # ------------------------------------------------------------ calls
    def call(self, st, fn, ins):
        callee, args = ins.a
        if callee[0] == 'global': name = callee[1]
        else:
            f = self.val(st, callee, ('ptr',))
            if f[0] in ('null', 'undef', 'badptr'):
                self.record(st, 'null', False, ins, 'call through a null pointer'); raise DeadPath()
            if f[0] != 'fnp': raise Unsupported('indirect call')
            name = f[1]
        if name.startswith('@llvm.'):
            return self.intrinsic(st, name, args, ins)
        av = [self.val(st, v, t) for t, v in args]
        g = self.mod.globals.get(name)
        if g and g[0] == 'alias': name = g[1]
        h = self.externs.get(name)
        if h is not None:
            return h(self, st, av, ins)
        mm = MINMAX.match(name)
        if mm: return self.minmax(st, mm.group(1), mm.group(2), av, ins)
        c = self.contracts.get(name)
        if c is not None:
            r = c(self, st, av, ins)
            if r is not NotImplemented:
                self.contract_calls[name] = self.contract_calls.get(name, 0)+1
                return r
        f = self.mod.functions.get(name)
        if STRING.match(name): return self.string_call(st, name, av, ins)
        if f is None or f.is_decl:
            return self.external(st, name, av, ins, f)
        outs = self.call_function(st, f, av)
        conts = []; other = []
        for o in outs:
            if o[0] == 'ret':
                s = o[1]
                if ins.res: s.env[ins.res] = o[2]
                conts.append(s)
            else: other.append(o)
        return ('multi', conts, other)

    def minmax(self, st, which, t, av, ins):
        """std::min and std::max: the result is used as a value, not as a name of one of the operands"""
        self.assumptions.add('the reference returned by std::min or std::max is only read, before its operands change')
        ty = ('f', 'float') if t == 'f' else ('f', 'double') if t == 'd' else ('i', {'h': 8, 't': 16, 'j': 32, 'm': 64, 'y': 64, 'a': 8, 'c': 8, 's': 16, 'i': 32, 'l': 64, 'x': 64}[t])
        a, b = self.load(st, av[0], ty, ins), self.load(st, av[1], ty, ins)
        x, y = (b, a) if which == 'min' else (a, b)            # the second operand when x < y
        if ty[0] == 'f':
            a, b, x, y = (self.fval(v, ty) for v in (a, b, x, y)); r = mk_ite(('fc', 'olt', x, y), b, a)
        else:
            c = self.cmp_int(st, ('u' if t in 'htjmy' else 's') + 'lt', ty[1], self.ival(x), self.ival(y)); d = self.decide(st, c)
            r = self.ival(b) if d is True else self.ival(a) if d is False else mk_iite(c, self.ival(b), self.ival(a))
        n = (4 if ty[1] == 'float' else 8) if ty[0] == 'f' else ty[1]//8
        blk = self.new_block(st, 'result of std::' + which, n, 'cells', 'alloca'); self.set_cell(st, blk.id, 0, n, r)
        st.env[ins.res] = ('ptr', blk.id, ZERO)
        return None
    def string_call(self, st, name, av, ins):
        """std::string is opaque: a constructor initialises the object, nothing else is visible"""
        if av and av[0][0] == 'ptr':
            b = st.blk[av[0][1]]
            if b.kind == 'cells' and av[0][2].is_const() and not ('basic_stringIcSt11char_traitsIcESaIcEED' in name):
                self.set_cell(st, b.id, av[0][2].cval(), 32, ('opaque', 'string'))
        if ins.res:
            st.env[ins.res] = ('opaque', 'string')
        self.assumptions.add('std::string is opaque (used for layer names only)')
        return None

    def intrinsic(self, st, name, args, ins):
        if name.startswith(('@llvm.dbg', '@llvm.lifetime', '@llvm.assume', '@llvm.experimental', '@llvm.stackrestore')): return None
        av = [self.val(st, v, t) for t, v in args]
        if name.startswith('@llvm.stacksave'): st.env[ins.res] = ('opaque', 'sp'); return None
        if name.startswith(('@llvm.memcpy', '@llvm.memmove')):
            self.memcpy(st, av[0], av[1], self.exact_u(st, av[2], 64), ins, 'memmove' in name); return None
        if name.startswith('@llvm.memset'):
            self.memset(st, av[0], av[1], self.exact_u(st, av[2], 64), ins); return None
        m = re.match(r'@llvm\.umul\.with\.overflow\.i(\d+)', name)
        if m:
            w = int(m.group(1)); p = self.exact_u(st, av[0], w)*self.exact_u(st, av[1], w)
            st.env[ins.res] = ('agg', (p, neg(lt(p, const(1 << w))))); return None
        m = re.match(r'@llvm\.(umax|umin|smax|smin)\.i(\d+)', name)
        if m:
            w = int(m.group(2)); a, b = av
            c = self.cmp_int(st, m.group(1)[0] + ('gt' if 'max' in m.group(1) else 'lt'), w, a, b)
            d = self.decide(st, c)
            if d is not None: st.env[ins.res] = a if d else b; return None
            s2 = st.clone(); st.branch(c); s2.branch(neg(c)); st.env[ins.res] = a; s2.env[ins.res] = b
            return ('multi', [st, s2], [])
        if name.startswith('@llvm.bswap'):
            w = int(name.split('.i')[-1]); x = self.exact_u(st, av[0], w); r = ZERO; n = w//8
            for i in range(n):
                byte = mk_div(x, const(1 << (8*i))) - 256*mk_div(x, const(1 << (8*i+8))) if i < n-1 else mk_div(x, const(1 << (8*i)))
                r = r + byte*(1 << (8*(n-1-i)))
            st.env[ins.res] = self.named(r) if w == 32 and self.named else r; return None
        if name.startswith('@llvm.fmuladd'):
            ty = ins.ty[1]
            st.env[ins.res] = mk_op('add', ty, mk_op('mul', ty, av[0], av[1]), av[2]); return None
        if name in MATH:
            return self.math(st, name, av, ins)
        if name.startswith('@llvm.trap'): self.record(st, 'ub', False, ins, 'trap'); raise DeadPath()
        raise Unsupported('intrinsic ' + name)
    def math(self, st, name, av, ins):
        base, ty = MATH[name]
        a = [self.fval(x, ('f', ty)) for x in av]
        if base == 'fabs':
            v = ('op', 'abs', ty, a[0])
        elif base in ('fmax', 'fmin'):
            v = ('op', base[1:], ty) + tuple(a)
        else:
            # double function of exactly widened floats stays as it is: its own symbol
            v = ('call', base, ty) + tuple(a)
            self.math_used.add(name[1:])
        st.env[ins.res] = v
        return None

    def external(self, st, name, av, ins, f):
        if name in MATH: return self.math(st, name, av, ins)
        if name in ('@_Znwm', '@_Znam', '@malloc'):
            return self.allocate(st, name, av[0], ins)
        if name in ('@_ZdlPv', '@_ZdaPv', '@_ZdlPvm', '@_ZdaPvm', '@free'):
            self.release(st, name, av[0], ins); return None
        if name in ('@exit', '@_Exit', '@_exit', '@quick_exit'):
            return ('exit', av[0])
        if name in ('@abort', '@_ZSt9terminatev', '@__assert_fail'):
            return ('exit', const(134))
        if OSTREAM.match(name):
            if ins.res: st.env[ins.res] = ('opaque', 'ostream')
            self.assumptions.add('iostream output has no effect on program state')
            return None
        if name in ('@printf', '@puts', '@putchar', '@fprintf_stderr'):
            if ins.res: st.env[ins.res] = self.havoc(('i', 32))
            return None
        raise Unsupported('external function ' + name)

    def allocate(self, st, name, size, ins):
        size = self.exact_u(st, size, 64)
        origin = {'@_Znwm': 'new', '@_Znam': 'new[]', '@malloc': 'malloc'}[name]
        if size.is_const() and size.cval() <= 512:
            b = self.new_block(st, '%s@%d' % (origin, ins.line), size, 'cells', origin)
        else:
            b = self.new_block(st, '%s@%d' % (origin, ins.line), size, 'lazy', origin)
        if ins.res: st.env[ins.res] = ('ptr', b.id, ZERO)
        self.assumptions.add('memory allocation succeeds (operator new/malloc never returns null)')
        return None
    def release(self, st, name, p, ins):
        if p[0] == 'null': return
        if p[0] != 'ptr':
            if p[0] == 'opaque': return
            self.record(st, 'free', False, ins, 'release of an undefined pointer'); return
        b = st.blk[p[1]]
        want = {'@_ZdlPv': 'new', '@_ZdlPvm': 'new', '@_ZdaPv': 'new[]', '@_ZdaPvm': 'new[]', '@free': 'malloc'}[name]
        ok = b.origin == want and p[2] == ZERO and bool(st.alive.get(b.id))
        why = '' if ok else (' (allocated with %s)' % b.origin if b.origin != want else ' (already released or inner pointer)')
        self.record(st, 'free', ok, ins, 'release of %s with %s%s' % (b.name, name[1:], why))
        st.alive[b.id] = False

    # ------------------------------------------------------------ loops
    def exec_loop(self, st, fn, L, prev):
        hdr = fn.blocks[L.header]
        init = {}
        for ph in hdr.phis:
            for v, b in ph.a:
                if b == prev: init[ph.res] = self.val(st, v, ph.ty)
        r = self.try_unroll(st, fn, L, prev, init)
        if r is not None: return r
        if self.records is not None:
            r = self.records.run(st, fn, L, prev, init)
            if r is not None: return r
        return self.summarise(st, fn, L, prev, init)

    def try_unroll(self, st, fn, L, prev, init):
        """complete unrolling when the exit test is decided literally in every iteration"""
        # cheap pre-check on the header test
        states = [(st.clone(), dict(init))]
        hdr = fn.blocks[L.header]
        t = hdr.instrs[-1]
        if t.op != 'br' or len(t.a) != 3: return None
        # evaluate header once on a throw-away state
        s = st.clone()
        for ph in hdr.phis: s.env[ph.res] = init[ph.res]
        try:
            self.probe += 1
            for ins in hdr.instrs[:-1]:
                if ins.op in ('call', 'load', 'store'): 
                    if ins.op != 'load': return None
                self.step(s, fn, ins, L.header)
            c = self.boolval(self.val(s, t.a[0], ('i', 1)))
        except (DeadPath, Unsupported):
            return None
        finally:
            self.probe -= 1
        if c is not True and c is not False: return None
        if c is True or c is False:
            # is it literal because phis are literal, or because of a bound of e.g. 0 iterations?
            if not any(isinstance(v, Poly) and v.is_const() for v in init.values()) and hdr.phis: 
                if c is (t.a[1] in L.blocks): return None
        # bound must be literal too: simulate integer phis if possible
        outs = []
        work = [(st.clone(), init, 0)]
        n0 = len(self.obls)
        while work:
            s, vals, it = work.pop()
            if it > UNROLL:
                del self.obls[n0:]
                return None
            for ph in hdr.phis: s.env[ph.res] = vals[ph.res]
            # decide the header test literally again
            res = self.run(s, fn, L.header, None, L) if False else self._run_header(s, fn, L)
            nl = [o for o in res if o[0] == 'latch']; ne_ = [o for o in res if o[0] != 'latch']
            if it == 0 and nl and any(o[0] == 'edge' for o in ne_):
                pass
            for o in ne_: outs.append(o)
            for o in nl:
                s2 = o[1]; nv = {}
                for ph in hdr.phis:
                    for v, b in ph.a:
                        if b == o[2]: nv[ph.res] = self.val(s2, v, ph.ty)
                # next header test must again be literal
                if not self._literal_header(s2, fn, L, nv):
                    del self.obls[n0:]
                    return None
                work.append((s2, nv, it+1))
        return outs
    def _literal_header(self, st, fn, L, vals):
        hdr = fn.blocks[L.header]; t = hdr.instrs[-1]
        s = st.clone()
        for ph in hdr.phis: s.env[ph.res] = vals[ph.res]
        self.probe += 1
        try:
            for ins in hdr.instrs[:-1]: self.step(s, fn, ins, L.header)
            c = self.boolval(self.val(s, t.a[0], ('i', 1)))
            return c is True or c is False
        except (DeadPath, Unsupported):
            return False
        finally: self.probe -= 1
    def _run_header(self, s, fn, L):
        # enter at the header without phi evaluation (already set)
        return self.run_from(s, fn, L.header, L)
    def run_from(self, st, fn, bb, loop):
        """run starting *inside* loop at its header, phis already set"""
        outs = []
        # execute header block instructions through run() by giving a pseudo prev=None
        return self.run(st, fn, bb, None, loop)

    def new_loopvar(self, base='k'):
        return atom(('v', fresh(base)))

    def summarise(self, st, fn, L, prev, init):
        n0 = len(self.obls); ls0 = self.loops_summarised
        try: return self.summarise1(st, fn, L, prev, init)
        except EarlyExit:
            if self.eof_exits or not self.position: raise
            if DEBUG: print('the loop may end with the file')
            del self.obls[n0:]; self.loops_summarised = ls0; self.eof_exits = True
            try: return self.summarise1(st, fn, L, prev, init)
            finally: self.eof_exits = False
        except NoForm:
            # the state after a short read has no closed form: guess that every read is complete (the inductive pass checks it)
            if self.full_reads or not self.position: raise
            del self.obls[n0:]; self.loops_summarised = ls0; self.full_reads = True
            try: return self.summarise1(st, fn, L, prev, init)
            finally: self.full_reads = False
    def summarise1(self, st, fn, L, prev, init):
        n0 = len(self.obls); ls0 = self.loops_summarised
        try:
            g = self.static_guess(st, fn, L, init, {})
            for attempt in range(5):
                try: return self.summarise2(st.clone(), fn, L, prev, init, g)
                except NeedTemplates as e:
                    del self.obls[n0:]; self.loops_summarised = ls0
                    g['templates'] = e.templates
                except NeedCells as e:
                    del self.obls[n0:]; self.loops_summarised = ls0
                    tp = g.get('templates')
                    g = self.static_guess(st, fn, L, init, {**g['cells'], **e.cells})
                    if tp: g['templates'] = tp
                except (EarlyExit, NoForm): raise
                except Unsupported as e:
                    if not g['cells']: raise
                    raise NeedProbe(str(e))
            raise NeedProbe('write templates do not stabilise')
        except NeedProbe as e:
            if DEBUG: print('need probe:', fn.name, L.header, e)
            del self.obls[n0:]; self.loops_summarised = ls0
        return self.summarise2(st, fn, L, prev, init, None)

    # ---- optimistic classification from the SSA form; everything guessed is checked afterwards
    def static_guess(self, pre, fn, L, init, cells):
        hdr = fn.blocks[L.header]
        defs = {}
        for bn in L.blocks:
            blk = fn.blocks[bn]
            for i in list(blk.phis) + list(blk.instrs):
                if i.res: defs[i.res] = i
        k = self.new_loopvar(); kp = Poly({(k,): 1})
        kinds = {}
        hphis = {p.res for p in hdr.phis}
        def ev(v, ty, depth=0):
            """value of an operand that does not depend on the loop (evaluated before it)"""
            if v[0] != 'reg' or v[1] not in defs:
                return self.val(pre, v, ty)
            if depth > 12: raise NeedProbe('deep')
            d = defs[v[1]]
            if v[1] in hphis: raise NeedProbe('phi operand')
            if d.op in ('load', 'getelementptr', 'zext', 'sext', 'trunc', 'add', 'mul', 'sub'):
                s = pre.clone()
                for tt, o in operands(d):
                    if o[0] == 'reg' and o[1] in defs: s.env[o[1]] = ev(o, tt, depth+1)
                self.probe += 1
                try: self.step(s, fn, d, L.header)
                finally: self.probe -= 1
                return s.env[d.res]
            raise NeedProbe('operand ' + d.op)
        for ph in hdr.phis:
            v0 = init[ph.res]
            nx = [v for v, b in ph.a if b in L.blocks]
            if len(nx) != 1: raise NeedProbe('several latches')
            nx = nx[0]
            if ph.ty[0] == 'f':
                if nx[0] == 'fp' and self.val(pre, nx, ph.ty) == v0: kinds[ph.res] = ('const', v0)
                elif nx == ('reg', ph.res): kinds[ph.res] = ('const', v0)
                else: kinds[ph.res] = ('facc?', v0)
                continue
            if nx == ('reg', ph.res) or nx[0] != 'reg':
                if nx[0] != 'reg' and self.val(pre, nx, ph.ty) != v0: raise NeedProbe('phi reset')
                kinds[ph.res] = ('const', v0); continue
            d = defs.get(nx[1])
            if d is None:
                if self.val(pre, nx, ph.ty) != v0: raise NeedProbe('phi set to outer value')
                kinds[ph.res] = ('const', v0); continue
            if ph.ty[0] == 'i' and ph.ty[1] > 1 and d.op in ('add', 'sub') and isinstance(v0, Poly):
                x, y, fl = d.a
                if x == ('reg', ph.res): kinds[ph.res] = ('iv', v0, ev(y, ph.ty) if d.op == 'add' else -ev(y, ph.ty))
                elif y == ('reg', ph.res) and d.op == 'add': kinds[ph.res] = ('iv', v0, ev(x, ph.ty))
                else: raise NeedProbe('increment')
                if not isinstance(kinds[ph.res][2], Poly): raise NeedProbe('increment')
                continue
            if ph.ty[0] == 'ptr' and d.op == 'getelementptr' and d.a[0] == ('reg', ph.res) and v0[0] == 'ptr':
                s = pre.clone(); s.env[ph.res] = v0
                for tt, o in operands(d):
                    if o[0] == 'reg' and o[1] in defs and o[1] != ph.res: s.env[o[1]] = ev(o, tt)
                self.probe += 1
                try: self.step(s, fn, d, L.header)
                finally: self.probe -= 1
                r = s.env[d.res]
                if r[0] != 'ptr' or r[1] != v0[1]: raise NeedProbe('pointer increment')
                kinds[ph.res] = ('piv', v0[1], v0[2], r[2] - v0[2]); continue
            raise NeedProbe('phi %s' % ph.res)
        # condition prefix
        exiting = {b for b in L.blocks if any(x not in L.blocks and x in fn._live for x in fn.blocks[b].succs)}
        reach = set(exiting); ch = True
        while ch:
            ch = False
            for b in L.blocks:
                if b not in reach and any(x in reach and x != L.header for x in fn.blocks[b].succs):
                    reach.add(b); ch = True
        loops = fn._loops
        for b in reach:
            if b != L.header and b in loops and loops[b] is not L: raise NeedProbe('exit after an inner loop')
        s = pre.clone(); accs = {}
        s.assume(ge(kp))
        for ph in hdr.phis: s.env[ph.res] = self.at_iter(kinds[ph.res], kp, ph, accs, ph.res)
        for key, (size, kd) in cells.items():
            kinds[key] = kd; self.set_cell(s, key[0], key[1], size, self.at_iter(kd, kp, None, accs, key, kd[1]))
        self.probe += 1
        try:
            outs = self.run_prefix(s, fn, L, reach)
        finally: self.probe -= 1
        npc = len(pre.pc)
        outs = [o for o in outs if o[0] in ('edge', 'ret')]
        return dict(k=k, kinds=kinds, cells=cells, exits=[conj(o[1].pc[npc:]) for o in outs], targets=[(o[2], o[3]) if o[0] == 'edge' else None for o in outs])

    def run_prefix(self, st, fn, L, reach):
        outs = []; work = [(st, L.header, None)]
        n = 0
        while work:
            n += 1
            if n > 200: raise NeedProbe('prefix too large')
            st, bb, prev = work.pop()
            if prev is not None:
                if bb not in L.blocks:
                    if bb in fn._live: outs.append(('edge', st, prev, bb))
                    continue
                if bb == L.header or bb not in reach: continue
                self.do_phis(st, fn, bb, prev)
            try:
                ins_ = fn.blocks[bb].instrs
                q = [(st, 0)]
                while q:
                    st, i = q.pop()
                    while i < len(ins_):
                        r = self.step(st, fn, ins_[i], bb)
                        if r is None: i += 1; continue
                        k = r[0]
                        if k == 'goto': work.append((st, r[1], bb))
                        elif k == 'fork':
                            for s2, tgt in r[1]: work.append((s2, tgt, bb))
                        elif k == 'multi':
                            for s2 in r[1]: q.append((s2, i+1))
                        elif k == 'ret': outs.append(('ret', st, r[1]))
                        break
            except DeadPath: pass
        return outs

    def summarise2(self, st, fn, L, prev, init, guess):
        hdr = fn.blocks[L.header]
        pre = st
        line = next((i.line for i in hdr.instrs if i.line), 0)
        li = ir.Instr('loop', line=line)
        cellphis = {}      # (bid, off) -> (size, init value)
        if guess is not None:
            for key, (size, kd) in guess['cells'].items():
                cellphis[key] = (size, kd[1])
                if kd[1] == LOST: self.set_cell(pre, key[0], key[1], size, LOST)
            return self.summarise3(pre, fn, L, prev, init, li, cellphis, guess['k'], guess['kinds'], {}, guess, True)
        for attempt in range(5):
            pr = self.probe_loop(pre, fn, L, init, cellphis)
            newc = {}
            for key, (size, v0) in pr['cells'].items():
                if key not in cellphis: newc[key] = (size, v0)
            if not newc: break
            cellphis.update(newc)
        else: raise Unsupported('memory loop state does not stabilise')
        k = self.new_loopvar(); kp = Poly({(k,): 1})
        # classification of loop-carried state
        sigma = {}; kinds = {}
        ptrs = {}
        def classify_ptr(key, v0, sym, nexts):
            """a pointer that moves by whole elements: the number of elements is an integer that starts at zero"""
            (a,) = free_atoms(sym[2]) & set(pr['ptrsym']); es = pr['ptrsym'][a]
            ns = [exact_div_poly(n[2] - v0[2], const(es)) for n in nexts]
            if any(n is None for n in ns): raise Unsupported('pointer increment')
            ptrs[key] = (v0, es, Poly({(a,): 1}), ns)
            classify(key, ZERO, Poly({(a,): 1}), ns)
            if kinds[key][0] == 'iv': kinds[key] = ('piv', v0[1], v0[2], const(es)*kinds[key][2])
        def classify(key, v0, sym, nexts):
            if isinstance(sym, Poly):
                a = next(iter(sym.m))[0]
                if any(not isinstance(n, Poly) for n in nexts):
                    kinds[key] = ('other',); return
                diffs = set(n - sym for n in nexts)
                if len(diffs) == 1:
                    d = diffs.pop()
                    if not (free_atoms(d) & pr['symatoms']) and not (free_syms(d) & pr['symnames']):
                        kinds[key] = ('iv', v0, d); sigma[a] = v0 + kp*d; return
                if all(n == v0 for n in nexts) : kinds[key] = ('iv', v0, ZERO); sigma[a] = v0; return
                if all(not (free_atoms(n) & pr['symatoms']) and prove(pre.facts, eq(n, v0), 1) for n in nexts):
                    kinds[key] = ('iv', v0, ZERO); sigma[a] = v0; return
                kinds[key] = ('opaque', v0, nexts)
        for ph in hdr.phis:
            v0 = init[ph.res]; sym = pr['phisym'][ph.res]
            nexts = [n[ph.res] for n in pr['next']]
            if isinstance(v0, tuple) and v0[0] in ('undef', 'lost') and ph.ty[0] == 'i':
                kinds[ph.res] = ('scratch', LOST)        # never read before it is set
            elif ph.ty[0] == 'i' and ph.ty[1] > 1:
                if not isinstance(sym, Poly): raise Unsupported('loop-carried value')
                classify(ph.res, v0, sym, nexts)
            elif ph.ty[0] == 'ptr':
                if sym[0] == 'ptr' and all(n[0] == 'ptr' and n[1] == sym[1] for n in nexts) and sym[2].m != v0[2].m:
                    classify_ptr(ph.res, v0, sym, nexts)
                elif all(n == v0 for n in nexts): kinds[ph.res] = ('const', v0)
                else: raise Unsupported('loop-carried pointer')
            elif ph.ty[0] == 'f': kinds[ph.res] = ('const', v0) if nexts and all(n == v0 for n in nexts) else ('facc', v0)
            else:
                if all(n == v0 or n == sym for n in nexts): kinds[ph.res] = ('const', v0)
                else: kinds[ph.res] = ('bacc', v0)
        for key, (size, v0) in cellphis.items():
            sym = pr['cellsym'][key]; nexts = [n[key] for n in pr['nextcell']]
            if isinstance(v0, Poly): classify(key, v0, sym, nexts)
            elif isinstance(v0, tuple) and v0[0] in ('c', 'ld', 'op', 'call', 'cast', 'i2f', 'ite', 'fold', 'sym', 'macc'):
                kinds[key] = ('facc', v0)
            elif v0 == LOST: kinds[key] = ('scratch', v0)
            elif all(n == v0 for n in nexts): kinds[key] = ('const', v0)
            elif isinstance(v0, tuple) and v0[0] == 'ptr' and sym[0] == 'ptr' and all(n[0] == 'ptr' and n[1] == v0[1] for n in nexts):
                classify_ptr(key, v0, sym, nexts)
            else: raise Unsupported('loop-carried memory cell %s' % (key,))
        for key in [key for key, kd in kinds.items() if kd[0] == 'opaque']:
            v0 = kinds[key][1]; sym = pr['phisym'].get(key) if not isinstance(key, tuple) else pr['cellsym'][key]
            nexts = [n[key] for n in (pr['next'] if not isinstance(key, tuple) else pr['nextcell'])]
            if key in ptrs: _, es, sym, nexts = ptrs[key]
            a = next(iter(sym.m))[0]
            new = any(core.atom_of(x)[0] == 'ild' and core.atom_of(x)[1].startswith('text!') for n in nexts if isinstance(n, Poly) for x in free_atoms(n))
            g = self.conditional(pre, v0, sym, nexts, pr, sigma, k) if not new else None
            if DEBUG: print('conditional', key, show(v0), [show(n) if isinstance(n, Poly) else n for n in nexts], [show(x) for x in pr['nextpc']], '->', g is not None and show(g))
            if g is not None:
                kinds[key] = ('cform', v0, g, k); sigma[a] = g
                if key in ptrs: p0 = ptrs[key][0]; kinds[key] = ('pcform', p0[1], p0[2] + const(es)*g, k)
            elif key in ptrs: raise Unsupported('pointer recurrence')
            elif isinstance(key, tuple) and all(isinstance(n, Poly) and not (free_atoms(n) & pr['symatoms']) for n in nexts):
                # every iteration overwrites the cell: nothing is known of it before and after one, reading it then is unsupported
                kinds[key] = ('scratch', LOST); self.set_cell(pre, key[0], key[1], cellphis[key][0], LOST)
        opaque = {key for key, kd in kinds.items() if kd[0] in ('opaque', 'other', 'bacc')}
        if opaque:
            return self.opaque_loop(pre, fn, L, prev, init, kinds, opaque, pr, li)
        return self.summarise3(pre, fn, L, prev, init, li, cellphis, k, kinds, sigma, pr, False)

    def conditional(self, pre, v0, sym, nexts, pr, sigma, k):
        """closed forms for state that is not affine in the iteration number; only a guess, the inductive pass checks it"""
        kp = Poly({(k,): 1}); a = next(iter(sym.m))[0]
        # the value set by the previous iteration
        subs = [subst(n, sigma) if isinstance(n, Poly) else None for n in nexts]
        if all(n is not None and not (free_atoms(n) & pr['symatoms']) and n == subs[0] for n in subs):
            return mk_iite(le(kp), v0, subst(subs[0], {k: kp - 1}))
        if any(n is None for n in subs): return None
        # a repeated function: state -> f(state)
        n0 = subs[0]
        if len(set(subs)) == 1 and len(n0.m) == 1:
            (mono, cf), = n0.m.items()
            if cf == 1 and len(mono) == 1:
                t = core.atom_of(mono[0])
                if t[0] == 'ild' and t[1].startswith('file.') and t[2] == sym: return apoly(('iter', t[1], P_(v0), kp))
        # steps of one size in the iterations of an interval
        cases = []
        for n, pc in zip(subs, pr['nextpc']):
            d = simp_iite(list(pre.facts) + [ge(kp)], n - sym)
            for c, x in split_iite(d):
                c = conj([subst(naive(pc), sigma), subst(c, sigma)])
                if not prove(list(pre.facts) + [ge(kp), c], False, 1): cases.append((c, subst(x, sigma)))
        if any(a in free_atoms(x) or (free_atoms(x) & pr['symatoms']) or k in free_atoms(x) for c, x in cases): return None
        steps = {x for c, x in cases if x != ZERO}
        if len(steps) != 1: return None
        step = steps.pop(); doms = [c for c, x in cases if x != ZERO]
        if len(doms) != 1: return None
        lo, hi, inv = [], [], []
        rest = [c for c, x in cases if x == ZERO]
        for f in conjuncts(doms[0]):
            if f is True or has_raw(f): continue
            if k not in free_atoms(f): inv.append(f); continue
            if not (isinstance(f, tuple) and f[0] == 'le'): return None
            co = f[1].coeffs_in(k); c1 = co.get(1, ZERO); r = co.get(0, ZERO)
            if set(co) - {0, 1} or not c1.is_const() or abs(c1.cval()) != 1: return None
            if c1.cval() > 0: hi.append(ONE - r)          # k <= -r
            else: lo.append(r)                            # k >= r
        # conditions that hold in every iteration do not delimit the interval
        every = [f for f in conjuncts(doms[0]) if all(f in conjuncts(c) for c in rest)]
        lo = [r for r in lo if le(r - kp) not in every] or [ZERO]
        hi = [r for r in hi if le(kp + 1 - r) not in every]
        inv = [f for f in inv if f not in every]
        lo = self.extreme(pre, lo, ge)
        if lo is None: return None
        if hi:
            hi = self.extreme(pre, hi, le)
            if hi is None: return None
            cnt = mk_iite(le(kp, lo), ZERO, mk_iite(le(kp, hi), kp - lo, hi - lo))
        else: cnt = mk_iite(le(kp, lo), ZERO, kp - lo)
        return v0 + mk_iite(conj(inv), step*cnt, ZERO)
    def extreme(self, pre, xs, rel):
        xs = list(dict.fromkeys(xs))
        for x in xs:
            if all(y == x or prove(pre.facts, rel(x, y), 1) for y in xs): return x
        return None

    def summarise3(self, pre, fn, L, prev, init, li, cellphis, k, kinds, sigma, pr, optimistic):
        hdr = fn.blocks[L.header]
        kp = Poly({(k,): 1})
        # continuation condition
        mid = None; first = len(self.obls); fresh0 = int(fresh('x').rsplit('!', 1)[1])
        if self.records is not None and L.header not in self.nomid:
            # leaving from the middle of an iteration: the other exits alone bound the loop
            main = {t[1] for t in pr['targets'] if t and t[0] == L.header}
            keep = [x for x, t in zip(pr['exits'], pr['targets']) if t and t[1] in main]
            if keep and len(keep) < len(pr['exits']):
                try:
                    mono, other = self.exactify(pre, self.cont_parts(dict(pr, exits=keep), sigma), k, li, pr)
                    if mono and not other: mid = main
                except Unsupported: pass
                if mid is None: del self.obls[first:]
        try:
            if mid is None: mono, other = self.exactify(pre, self.cont_parts(pr, sigma), k, li, pr)
        except Unsupported as e:
            if optimistic: raise NeedProbe(str(e))
            raise
        # other: data-dependent parts
        facts_k = [ge(kp)] + mono
        uid = self.loopuid = self.loopuid + 1
        cont = conj(mono + other)
        dom_k = conj([ge(kp), cont])
        # ---- real pass
        s = pre.clone()
        s.assume(dom_k)
        base_pc = len(s.pc)
        accs = {}
        for ph in hdr.phis:
            kd = kinds[ph.res]
            s.env[ph.res] = self.at_iter(kd, kp, ph, accs, ph.res)
        for key, (size, v0) in cellphis.items():
            self.set_cell(s, key[0], key[1], size, self.at_iter(kinds[key], kp, None, accs, key, v0))
        templ = {}
        if optimistic:
            for bid in pre.blk:
                if pre.alive.get(bid) and type(pre.mem.get(bid)) is not dict and pre.mem.get(bid) is not None:
                    templ[bid] = pr.get('templates', {}).get(bid)
                    s.mem[bid] = LoopPrev(s.mem[bid], k, templ[bid], uid, L)
        else:
          for bid, layers in pr['layers'].items():
              ts = []
              for ly in layers:
                d2 = subst(drop_raw(ly.dom), sigma)
                ts.append((ly.vars, d2, subst(ly.idx, sigma), [subst(x, sigma) for x in ly.dims] if ly.dims else None,
                           [subst(x, sigma) for x in ly.digs] if ly.digs else None))
              templ[bid] = ts
              s.mem[bid] = LoopPrev(s.mem[bid], k, ts, uid, L)
        prenode = {bid: s.mem[bid] for bid in templ}
        preblk = set(pre.blk)
        s0_facts = s.facts
        outs = self.run_from(s, fn, L.header, L)
        latches = [o for o in outs if o[0] == 'latch']
        self.check_guess(pre, hdr, kinds, cellphis, latches, k, prenode, optimistic)
        if not self.probe: self.loops_summarised += 1
        results = []
        for o in outs:
            if o[0] == 'exit' or o[0] == 'ret':
                if not prove(o[1].facts, False, 2): results.append(self.mid_exit(o, pre, k, cont, kinds))
            elif o[0] == 'edge' and mid is not None and o[3] not in mid:
                if not prove(o[1].facts, False, 2): results.append(o)
            elif o[0] == 'edge' and not other and not self.probe:
                if not prove(o[1].facts, False, 2):
                    if DEBUG:
                        print('EXIT facts:')
                        for ff in o[1].facts: print('    ', show(ff))
                    raise EarlyExit('unexpected loop exit')
        if not latches and not prove(s0_facts, False, 2):
            raise Unsupported('no iteration completes')
        # ---- combine
        conds = []
        for o in latches:
            conds.append(conj([f for f in o[1].pc[base_pc:] if not prove(s0_facts, f, 1)]))
        # heap allocated inside the iteration must be gone
        tables = set()
        for o in latches:
            if self.family and not self.probe: tables |= self.family(o[1], pre, preblk, prenode, k, li)
            for bid in o[1].blk:
                if bid in tables: continue
                if bid not in preblk and o[1].alive.get(bid) and o[1].blk[bid].origin in ('new', 'new[]', 'malloc'):
                    if not self.record(o[1], 'leak', False, li, 'memory allocated in every iteration is not released: ' + o[1].blk[bid].name): pass
            for bid in pre.blk:
                if pre.alive.get(bid) and not o[1].alive.get(bid): raise Unsupported('memory released inside a loop')
        # float accumulators
        final_acc = {}
        N = self.trip_count(pre, k, mono, other, li)
        Np = N
        env_dom = dom_k
        nsyms = set(a[1] for a in accs.values())
        prevs = {}
        for key, sym in accs.items():
            nexts = []
            for o in latches:
                if isinstance(key, tuple): v = o[1].mem[key[0]].get(key[1])[1]
                else:
                    ph = next(p for p in hdr.phis if p.res == key)
                    v = next(self.val(o[1], vv, ph.ty) for vv, b in ph.a if b == o[2])
                nexts.append(self.fval(v, ('f', sym[2])))
            F = nexts[-1]
            for c, v in list(zip(conds, nexts))[-2::-1]: F = mk_ite(c, v, F)
            v0 = kinds[key][1]
            if isinstance(v0, Poly): v0 = self.fval(v0, ('f', sym[2]))
            fs = free_syms(F) & nsyms
            if fs - {sym[1]}: raise Unsupported('accumulators depend on each other')
            if F == sym: final_acc[key] = v0
            elif sym[1] not in fs:
                if k not in free_atoms(F): last = F
                else: last = subst(F, {k: Np - 1})
                final_acc[key] = mk_ite(ge(Np, ONE), last, v0) if not prove(pre.facts, ge(Np, ONE), 1) else last
                self._last_facts = True
            else:
                dm = dom_k if not other else conj([ge(kp), lt(kp, Np)])
                final_acc[key] = ('fold', k, dm, sym[1], F, v0, sym[2])
            # the value at the start of iteration k, for everything else that uses it
            if F == sym: prevs[sym[1]] = lambda v0=v0: v0
            elif sym[1] not in fs: prevs[sym[1]] = lambda v0=v0, F=F: v0 if F == v0 else mk_ite(le(kp), v0, subst(F, {k: kp - 1}))
            else:
                def partial(v0=v0, F=F, dm=dm, sym=sym):
                    a2 = atom(('v', fresh('p'))); p2 = Poly({(a2,): 1}); n2 = fresh('acc')
                    return ('fold', a2, conj([subst(dm, {k: p2}), lt(p2, kp)]), n2, subst(replace_macc(F, sym, ('sym', n2, sym[2])), {k: p2}), v0, sym[2])
                prevs[sym[1]] = partial
        def use_prev(t):
            if not isinstance(t, tuple): return t
            for nm in free_syms(t) & set(prevs):
                if callable(prevs[nm]): prevs[nm] = prevs[nm]()
                t = replace_macc(t, next(y for y in accs.values() if y[1] == nm), prevs[nm])
            return t
        # memory
        newmem = {}
        for bid in prenode:
            if all(o[1].mem[bid] is prenode[bid] for o in latches): continue
            if bid in tables: newmem[bid] = Base('lost'); pre.blk[bid] = latches[0][1].blk[bid]; continue
            pre.blk[bid] = latches[0][1].blk[bid]
            chain = pre.mem[bid]
            merged = []
            for c, o in zip(conds, latches):
                node = o[1].mem[bid]; ls = []
                while node is not prenode[bid]:
                    if isinstance(node, (Base, LoopPrev)): raise Unsupported('array replaced in loop')
                    ls.append(node); node = node.parent
                ls.reverse()
                if prevs:
                    for i, ly in enumerate(ls):
                        l2 = Layer(ly.parent, ly.vars, use_prev(ly.dom), ly.idx, use_prev(ly.val), ly.dims, ly.digs)
                        ls[i] = l2
                    c = use_prev(c)
                merged.append((c, ls))
            try: chain = self.generalise(pre, chain, merged, k, dom_k if not other else conj([ge(kp), lt(kp, Np)]), Np, uid, bid)
            except Unsupported:
                # scratch memory: what the loop leaves there is not described, reading it is unsupported
                if pre.blk[bid].origin != 'alloca': raise
                chain = Base('lost')
            newmem[bid] = chain
        for o in latches:
            for bid in pre.blk:
                if bid in newmem or bid in prenode: continue
                if o[1].mem.get(bid) is not pre.mem.get(bid) and type(pre.mem.get(bid)) is not dict and o[1].blk[bid].kind == 'array':
                    raise Unsupported('write missed by the probe pass')
        # ---- exit
        f = pre.clone()
        f.mem.update(newmem)
        for bid in newmem: f.blk[bid] = latches[0][1].blk[bid] if latches else f.blk[bid]
        for bid in tables & set(newmem):
            if 'table:%d' % bid in f.ghost: raise Unsupported('a table is filled by two loops')
            f.ghost['table:%d' % bid] = Np
        f.assume(ge(Np))
        atN = subst(cont, {k: Np})
        prevf = subst(cont, {k: Np - 1})
        if not other:
            f.assume(neg(atN)); f.assume(disj([le(Np), prevf]))
        else:
            f.assume(disj([le(Np), subst(conj(mono), {k: Np-1})]))
            j = self.new_loopvar('j')
            jp = Poly({(j,): 1})
            f.facts = f.facts + (('all', j, conj([ge(jp), lt(jp, Np)]), subst(cont, {k: jp})),)
        if mid is not None and latches:
            # what every completed iteration established about the file, for the last one
            some = prove(pre.facts, ge(Np, ONE), 1)
            for g in latches[0][1].facts:
                if g in s0_facts or (isinstance(g, tuple) and g[0] == 'all') or any(g not in o[1].facts for o in latches[1:]): continue
                if not any(a[0] == 'v' and a[1] == 'L' for a in map(atom_of, free_atoms(g))) or any(int(n) > fresh0 for n in re.findall(r'!(\d+)', show(g)) if '!%s' % n != show(kp)[show(kp).rfind('!'):]): continue
                g = subst(g, {k: Np - 1}); f.assume(g if some else disj([le(Np), g]))
        for ph in hdr.phis: f.env[ph.res] = self.at_end(kinds[ph.res], Np, final_acc.get(ph.res))
        for key, (size, v0) in cellphis.items():
            self.set_cell(f, key[0], key[1], size, self.at_end(kinds[key], Np, final_acc.get(key)))
        npc = len(f.pc)
        ex = self.run_from(f, fn, L.header, L)
        for o in ex:
            if o[0] == 'latch':
                if not other and not self.probe and not prove(o[1].facts, False, 2):
                    self.record(pre, 'termination', False, li, 'the loop ends after %s iterations: its exit test is not decided there (a narrower counter may wrap)' % show(Np))
                    raise Unsupported('exit condition undecided after the loop')
                continue
            results.append(o)
        return results

    def check_guess(self, pre, hdr, kinds, cellphis, latches, k, prenode, optimistic):
        """the assumed form of the loop state and of earlier writes is what the iteration produces"""
        kp = Poly({(k,): 1})
        bad = NeedProbe if optimistic else Unsupported
        need = {}; cells = {}
        for o in latches:
            for ph in hdr.phis:
                kd = kinds[ph.res]
                nv = next(self.val(o[1], v, ph.ty) for v, b in ph.a if b == o[2])
                if kd[0] in ('facc?', 'facc', 'scratch'): continue
                if nv != self.at_iter(kd, kp + 1, ph, {}, ph.res):
                    want = self.at_iter(kd, kp + 1, ph, {}, ph.res)
                    if isinstance(nv, Poly) and isinstance(want, Poly) and prove(o[1].facts, eq(nv, want), 1): continue
                    if isinstance(nv, tuple) and isinstance(want, tuple) and nv[0] == want[0] == 'ptr' and nv[1] == want[1] and prove(o[1].facts, eq(nv[2], want[2]), 1): continue
                    if self.probe and not optimistic: continue
                    raise bad('loop variable %s' % ph.res)
            for bid in pre.blk:
                if not pre.alive.get(bid): continue
                m0, m1 = pre.mem.get(bid), o[1].mem.get(bid)
                if type(m0) is dict and m1 != m0:
                    for off in set(m0) | set(m1):
                        if (bid, off) in cellphis:
                            kd = kinds[(bid, off)]
                            if kd[0] in ('facc', 'facc?', 'scratch'): continue
                            want = self.at_iter(kd, kp + 1, None, {}, (bid, off), kd[1])
                            nv = m1[off][1]
                            if nv == want or self.probe: continue
                            if isinstance(nv, Poly) and isinstance(want, Poly) and prove(o[1].facts, eq(nv, want), 1): continue
                            raise bad('memory cell %s' % ((bid, off),))
                        if m0.get(off) != m1.get(off) and optimistic and m1.get(off) is not None and pre.blk[bid].origin == 'alloca':
                            c0, c1 = m0.get(off), m1[off]
                            v0, v1 = c0[1] if c0 else LOST, c1[1]
                            if c0 is not None and c0[0] != c1[0]: raise bad('memory cell changes its size')
                            if isinstance(v0, tuple) and v0[0] in ('c', 'ld', 'op', 'call', 'cast', 'i2f', 'ite', 'fold', 'sym', 'macc'): kd = ('facc', v0)
                            elif isinstance(v0, Poly) and isinstance(v1, Poly) and k not in free_atoms(v1 - v0) and (v1 - v0).is_const(): kd = ('iv', v0, v1 - v0)
                            else: kd = ('scratch', LOST)
                            if cells.get((bid, off), (c1[0], kd)) != (c1[0], kd): raise bad('memory cell %s+%d' % (pre.blk[bid].name, off))
                            cells[(bid, off)] = (c1[0], kd); continue
                        if m0.get(off) != m1.get(off): raise bad('memory cell %s+%d changes in the loop' % (pre.blk[bid].name, off))
            if cells: continue
            for bid, pn in prenode.items():
                node = o[1].mem.get(bid)
                if node is pn: continue
                ls = []
                while node is not pn:
                    if not isinstance(node, Layer): raise bad('array replaced in loop')
                    ls.append((node.vars, node.dom, node.idx, node.dims, node.digs)); node = node.parent
                if self.probe and not optimistic: continue
                for b, idx, facts, rt, res in pn.reads:
                    s = pre.clone(); s.facts = facts; s.blk[bid] = b
                    try: r = self.read_prev(s, pn, b, idx, rt, ls)
                    except Unsupported as e: raise bad(str(e))
                    if r != res:
                        if optimistic: need[bid] = ls; break
                        raise bad('loop-carried array element')
        if cells: raise NeedCells(cells)
        if need:
            for bid, pn in prenode.items():
                if bid not in need and pn.templates: need[bid] = pn.templates
            raise NeedTemplates(need)

    def mid_exit(self, o, pre, k, cont, kinds):
        """leaving the function / process from the middle of iteration k: state is not summarised"""
        if o[0] == 'exit':
            return o
        raise Unsupported('return from inside a loop with side effects')

    def at_iter(self, kd, kp, ph, accs, key, v0=None):
        t = kd[0]
        if t == 'iv': return kd[1] + kp*kd[2]
        if t == 'piv': return ('ptr', kd[1], kd[2] + kp*kd[3])
        if t in ('const', 'scratch'): return kd[1]
        if t == 'cform': return subst(kd[2], {kd[3]: kp})
        if t == 'pcform': return ('ptr', kd[1], subst(kd[2], {kd[3]: kp}))
        if t == 'facc' or t == 'facc?':
            ty = ph.ty[1] if ph is not None else (fty(v0) if not isinstance(v0, Poly) else 'float')
            s = ('sym', fresh('acc'), ty); accs[key] = s
            return s
        raise Unsupported('loop-carried ' + t)
    def at_end(self, kd, N, acc):
        t = kd[0]
        if t == 'iv': return kd[1] + N*kd[2]
        if t == 'piv': return ('ptr', kd[1], kd[2] + N*kd[3])
        if t in ('const', 'scratch'): return kd[1]
        if t == 'cform': return subst(kd[2], {kd[3]: N})
        if t == 'pcform': return ('ptr', kd[1], subst(kd[2], {kd[3]: N}))
        if t in ('facc', 'facc?'): return acc
        raise Unsupported('loop-carried ' + t)

    def probe_loop(self, pre, fn, L, init, cellphis):
        hdr = fn.blocks[L.header]
        s = pre.clone()
        phisym = {}; cellsym = {}; symatoms = set(); symnames = set(); ptrsym = {}
        def mk(v0, ty):
            if isinstance(v0, tuple) and v0[0] == 'undef' and ty is not None:
                if ty[0] == 'f': v0 = ('sym', 'u', ty[1])
                elif ty[0] == 'i' and ty[1] > 1: v0 = ZERO
            if isinstance(v0, Poly) and (ty is None or ty[0] == 'i'):
                a = atom(('v', fresh('phi'))); symatoms.add(a); return Poly({(a,): 1})
            if ty is not None and ty[0] == 'f' or (ty is None and isinstance(v0, tuple) and v0[0] in ('c', 'ld', 'op', 'call', 'cast', 'i2f', 'ite', 'fold', 'sym', 'macc')):
                n = fresh('phif'); symnames.add(n)
                return ('sym', n, ty[1] if ty is not None else fty(v0))
            if isinstance(v0, tuple) and v0[0] == 'ptr':
                # a pointer is its initial offset plus a whole number of elements
                b = pre.blk[v0[1]]; es = b.esize or (1 if not isinstance(b.size, Poly) or exact_div_poly(b.size, const(4)) is None else 4)
                a = atom(('v', fresh('phip'))); symatoms.add(a); ptrsym[a] = es
                return ('ptr', v0[1], v0[2] + const(es)*Poly({(a,): 1}))
            if ty == ('i', 1): return ('ba', fresh('phib'))
            return v0
        for ph in hdr.phis:
            phisym[ph.res] = mk(init[ph.res], ph.ty); s.env[ph.res] = phisym[ph.res]
        for key, (size, v0) in cellphis.items():
            cellsym[key] = mk(v0, None); self.set_cell(s, key[0], key[1], size, cellsym[key])
        npc = len(s.pc)
        self.probe += 1
        try:
            outs = self.run_from(s, fn, L.header, L)
        finally:
            self.probe -= 1
        latches = [o for o in outs if o[0] == 'latch']
        nxt = []; nxtc = []; cells = {}; layers = {}; nextpc = [conj(o[1].pc[npc:]) for o in latches]
        for o in latches:
            d = {}
            for ph in hdr.phis:
                for v, b in ph.a:
                    if b == o[2]: d[ph.res] = self.val(o[1], v, ph.ty)
            nxt.append(d)
            for bid in pre.blk:
                if not pre.alive.get(bid): continue
                m0, m1 = pre.mem.get(bid), o[1].mem.get(bid)
                if type(m0) is dict:
                    for off in set(m0) | set(m1):
                        c0, c1 = m0.get(off), m1.get(off)
                        if (bid, off) in cellphis: continue
                        if c0 != c1:
                            if c0 is None:
                                # scratch memory of an iteration: nothing is known of it before and after one
                                c0 = (c1[0], LOST); pre.mem[bid] = dict(pre.mem[bid]); pre.mem[bid][off] = c0
                            if c1 is None: raise Unsupported('loop overwrites memory cells of different size')
                            cells[(bid, off)] = c0
                elif m1 is not m0:
                    ls = layers.setdefault(bid, [])
                    node = m1
                    while node is not m0:
                        if isinstance(node, Layer): ls.append(node); node = node.parent
                        elif isinstance(node, LoopPrev): node = node.parent
                        else: raise Unsupported('array replaced in loop')
            nxtc.append({key: o[1].mem[key[0]].get(key[1], (0, None))[1] for key in cellphis})
        # exit conditions: paths that leave the loop by an edge or a return (not by killing the process)
        outs = [o for o in outs if o[0] in ('edge', 'ret')]
        exits = [conj(o[1].pc[npc:]) for o in outs]; targets = [(o[2], o[3]) if o[0] == 'edge' else None for o in outs]
        return dict(targets=targets, phisym=phisym, cellsym=cellsym, nextpc=nextpc, next=nxt, nextcell=nxtc, cells=cells, layers=layers,
                    symatoms=symatoms, symnames=symnames, ptrsym=ptrsym, exits=exits)

    def cont_parts(self, pr, sigma):
        fs = [subst(neg(e), sigma) for e in pr['exits']]
        if self.position: fs = [self.position(f) for f in fs]
        if not pr['exits']: raise Unsupported('loop without exit')
        # unit propagation
        units = []
        todo = []
        for f in fs: todo += conjuncts(f)
        changed = True
        while changed:
            changed = False
            rest = []
            for f in todo:
                if isinstance(f, tuple) and f[0] == 'or':
                    g = disj([x for x in f[1] if rneg(x) not in units])
                    if any(x in units for x in f[1]): changed = True; continue
                    if g != f: changed = True
                    for x in conjuncts(g):
                        rest.append(x)
                else:
                    if f not in units: units.append(f); changed = True
            todo = rest
        return units + todo

    def exactify(self, pre, parts, k, li, pr):
        """turn machine comparisons into exact ones; returns (monotone parts, data-dependent parts)"""
        kp = Poly({(k,): 1})
        naive = []; side = []
        for f in parts:
            g = f
            if f is False: naive.append((f, False)); continue
            neg_ = False
            if isinstance(f, tuple) and f[0] == 'not': neg_ = True; g = f[1]
            if isinstance(g, tuple) and g[0] == 'raw':
                _, pr_, w, a, b = g
                if pr_ == 'eq':
                    if a.is_const(): a = mk_wrap(w, False, a)
                    if b.is_const(): b = mk_wrap(w, False, b)
                    h = eq(a, b); rng = [(a, w, False), (b, w, False)]
                else:
                    signed = pr_[0] == 's'
                    h = lt(a, b) if pr_[1:] == 'lt' else le(a, b); rng = [(a, w, signed), (b, w, signed)]
                if neg_: h = neg(h)
                for a_, w_, sg in rng:
                    if k not in free_atoms(a_) and not self._rng(pre, a_, w_, sg):
                        # loop-invariant operand that may wrap: use its machine value
                        wv = mk_wrap(w_, sg, a_)
                        h = subst_poly_in_cmp(h, g, a_, wv, neg_)
                    else: side.append((a_, w_, sg))
                naive.append((f, h))
            else: naive.append((f, f))
        mono = []; other = []
        pend = []
        def unwrap(h):
            # a narrower counter widened for the comparison: argue over the integer, prove that it never wraps
            if isinstance(h, bool): return h
            for a in sorted(free_atoms(h)):
                t = atom_of(a)
                if t[0] == 'wrap' and k in free_atoms(t[3]):
                    side.append((t[3], t[1], t[2])); return unwrap(subst(h, {a: t[3]}))
            return h
        for f, h in naive:
            h = self.ne_to_lt(pre, unwrap(h), k)
            if h is True: continue
            if k not in free_atoms(h) and not has_raw(h) and not free_syms(h):
                mono.append(h); continue      # constant in k
            if isinstance(h, tuple) and h[0] == 'le':
                co = h[1].coeffs_in(k)
                if set(co) <= {0, 1} and k not in free_atoms(co.get(0, ZERO)) and k not in free_atoms(co.get(1, ZERO)):
                    c = co.get(1, ZERO)
                    if prove(pre.facts, ge(c), 1): mono.append(h); continue
                    if prove(pre.facts, le(c), 1):
                        pass
            if has_raw(h): raise Unsupported('loop condition %s' % show(h))
            other.append(h)
        # range side conditions, inductively: previous iteration completed
        hyp = list(pre.facts) + [ge(kp), disj([le(kp), subst(conj(mono), {k: kp - 1})])]
        for a, w, sg in side:
            lo, hi = (-(1 << (w-1)), 1 << (w-1)) if sg else (0, 1 << w)
            goal = conj([ge(a, const(lo)), lt(a, const(hi))])
            if prove(hyp, goal, 2):
                if not self.probe: self.record(pre, 'loopvar', True, li, 'loop variable %s stays in range' % show(a))
            else:
                # decide using the other operand: allow the final overshoot only if proved
                if self.probe: continue
                self.record(pre, 'loopvar', False, li, 'loop variable %s may wrap' % show(a))
                raise Unsupported('loop variable may wrap: %s' % show(a))
        return mono, other

    def ne_to_lt(self, pre, h, k):
        if isinstance(h, tuple) and h[0] == 'not' and h[1][0] == 'eq':
            p = h[1][1]; co = p.coeffs_in(k)
            if set(co) <= {0, 1} and 1 in co and co[1].is_const():
                if co[1].cval() < 0: p = -p
                p = exact_div_poly(p, const(abs(co[1].cval())))
                if p is None: return h
                p0 = subst(p, {k: ZERO})
                if prove(pre.facts, le(p0), 1): return lt(p, ZERO)
        return h

    def trip_count(self, pre, k, mono, other, li):
        """number of completed iterations as a Poly (with defining facts assumed by the caller)"""
        kp = Poly({(k,): 1})
        # termination
        bounded = False
        for f in mono:
            if isinstance(f, tuple) and f[0] == 'le':
                c = f[1].coeffs_in(k).get(1, ZERO)
                if prove(pre.facts, ge(c, ONE), 1): bounded = True
            if f is False: bounded = True
        if not bounded and mono:
            # a k-free false condition also ends the loop
            if prove(pre.facts, neg(conj(mono)), 1): bounded = True
        if not self.probe: self.record(pre, 'termination', bounded, li, 'loop over %s ends: %s' % (show(kp), show(conj(mono))))
        if other:
            n = fresh('n'); return var(n)
        inv = [f for f in mono if k not in free_atoms(f)]
        dep = [f for f in mono if k in free_atoms(f)]
        if not inv and dep:
            cands = dep
            if len(dep) > 1:
                # one condition that implies the others
                cands = [f for f in dep if all(g is f or prove(list(pre.facts) + [ge(kp), f], g, 1) for g in dep)]
            for f in cands:
                p = f[1]; co = p.coeffs_in(k); c = co.get(1, ZERO); r = co.get(0, ZERO)
                if c == ONE:
                    n = ONE - r       # k + r <= 0  <=> k <= -r
                    if prove(pre.facts, ge(n), 1): return n
                elif prove(pre.facts, conj([ge(c, ONE), le(r)]), 1):
                    return mk_div(-r, c) + 1
        if prove(pre.facts, neg(subst(conj(mono), {k: ZERO})), 1): return ZERO
        # count atom with a canonical bound variable
        kc = atom(('v', 'K_'))
        return apoly(('cnt', kc, subst(conj(mono), {k: Poly({(kc,): 1})})))

    def generalise(self, pre, chain, merged, k, dom_k, N, uid, bid):
        kp = Poly({(k,): 1})
        b = pre.blk[bid]
        alll = []
        for c, ls in merged:
            for ly in ls: alll.append((c, ly))
        # overlap between different iterations, for layers that depend on k
        dep = [(c, ly) for c, ly in alll if k in free_atoms(ly.idx)]
        ind = [(c, ly) for c, ly in alll if k not in free_atoms(ly.idx)]
        if dep and ind: raise Unsupported('mixed loop-dependent writes to %s' % b.name)
        if dep:
            for c, ly in dep:
                if has_macc(ly.val, uid): raise Unsupported('loop-carried value in %s' % b.name)
                if len(dep) > 1: pass
            if len(dep) > 1: self.check_cross(pre, b, dep, k, dom_k)
            for c, ly in dep:
                chain = Layer(chain, tuple(ly.vars) + (k,), conj([ly.dom, c, dom_k]), ly.idx, ly.val, ly.dims, ly.digs)
            return chain
        # writes to the same cells in every iteration
        groups = []
        for c, ly in ind:
            if k in free_atoms(ly.dom): raise Unsupported('region varies between iterations in %s' % b.name)
            for g in groups:
                if g[0] == (ly.idx, ly.dom, ly.vars): g[1].append((c, ly)); break
            else:
                # same region under renamed variables
                for g in groups:
                    l0 = g[1][0][1]
                    if len(l0.vars) == len(ly.vars):
                        ren = {v: Poly({(v0,): 1}) for v, v0 in zip(ly.vars, l0.vars)}
                        if subst(ly.idx, ren) == l0.idx and subst(ly.dom, ren) == l0.dom:
                            g[1].append((c, Layer(None, l0.vars, l0.dom, l0.idx, subst(ly.val, ren), l0.dims, l0.digs))); break
                else: groups.append(((ly.idx, ly.dom, ly.vars), [(c, ly)]))
        for _, g in groups:
            l0 = g[0][1]
            s2 = pre.clone(); s2.assume(l0.dom)
            # value after one iteration as a function of the value before it
            cur = ('macc', uid, bid, l0.idx, l0.val and fty(l0.val) if not isinstance(l0.val, Poly) else 'i')
            if isinstance(l0.val, Poly):
                if all(has_macc(l.val, uid) is False for _, l in g) and len(g) == 1 and g[0][0] is True:
                    v = subst(l0.val, {k: N-1})
                    chain = Layer(chain, l0.vars, conj([l0.dom, ge(N, ONE)]), l0.idx, v, l0.dims, l0.digs); continue
                raise Unsupported('integer cells rewritten in a loop')
            F = cur
            # paths are exclusive; within a path later layers win (they were resolved by read)
            bypath = {}
            for c, l in g: bypath.setdefault(c, []).append(l)
            for c, ls in bypath.items(): F = mk_ite(c, ls[-1].val, F)
            acc = ('sym', fresh('acc'), fty(l0.val))
            F2 = replace_macc(F, cur, acc)
            if has_macc(F2, uid): raise Unsupported('loop-carried value of another cell in %s: %s / %s' % (b.name, show(l0.idx), show(F2)[:600]))
            if acc[1] not in free_syms(F2):
                v = subst(F2, {k: N-1}); d = conj([l0.dom, ge(N, ONE)])
            else:
                ini = self._read(s2, chain, b, l0.idx, b.ety, None)
                v = ('fold', k, dom_k, acc[1], F2, ini, acc[2]); d = l0.dom
            chain = Layer(chain, l0.vars, d, l0.idx, v, l0.dims, l0.digs)
        return chain

    def check_cross(self, pre, b, dep, k, dom_k):
        """A(j) and B(i), i<j, never write the same cell with different guards reordered"""
        j = self.new_loopvar('j'); jp = Poly({(j,): 1}); kp = Poly({(k,): 1})
        for i1, (c1, a) in enumerate(dep):
            for i2, (c2, bb) in enumerate(dep):
                if i1 <= i2: continue
                # later layer (a) of iteration i=k overrides earlier-listed layer (bb) of iteration j>k: must not overlap
                ren = {v: Poly({(atom(('v', fresh('t'))),): 1}) for v in bb.vars}
                nv = [next(iter(ren[v].m))[0] for v in bb.vars]
                s0 = dict(ren); s0[k] = jp
                s2 = pre.clone()
                s2.assume(conj([a.dom, c1, dom_k]))
                m = self.match(s2, b, nv + [j], bb.dims, [subst(x, s0) for x in bb.digs] if bb.digs else None,
                               subst(bb.idx, s0), conj([subst(conj([bb.dom, c2, dom_k]), s0), gt(jp, kp)]), a.idx, a.dims, a.digs)
                if m is None: raise Unsupported('cannot order writes to %s: %s %s / %s %s' % (b.name, show(a.idx), a.dims, show(bb.idx), bb.dims))
                cond, s = m
                if cond is False or prove(s2.facts, neg(cond), 1): continue
                raise Unsupported('writes of different iterations overlap in %s' % b.name)

    def opaque_loop(self, pre, fn, L, prev, init, kinds, opaque, pr, li):
        raise NoForm('loop-carried value without closed form: %s' % sorted(map(str, opaque)))

def naive(f):
    """machine comparisons read as comparisons of integers"""
    if f is True or f is False or not isinstance(f, tuple): return f
    if f[0] == 'and': return conj([naive(x) for x in f[1]])
    if f[0] == 'or': return disj([naive(x) for x in f[1]])
    if f[0] == 'not': return neg(naive(f[1]))
    if f[0] == 'raw':
        _, p, w, a, b = f
        if p == 'eq': return eq(a, b)
        return lt(a, b) if p[1:] == 'lt' else le(a, b)
    return f
def split_iite(p):
    """[(condition, value)] of a polynomial that is a conditional value"""
    for mono, cf in p.m.items():
        for a in mono:
            t = core.atom_of(a)
            if t[0] == 'iite':
                return [(conj([c0, c]), x) for c0, v in ((t[1], t[2]), (neg(t[1]), t[3])) for c, x in split_iite(subst(p, {a: v}))]
    return [(True, p)]
def simp_iite(facts, p):
    """without the conditional values the facts decide"""
    for mono in p.m:
        for a in mono:
            t = core.atom_of(a)
            if t[0] != 'iite': continue
            x, y = simp_iite(facts, t[2]), simp_iite(facts, t[3])
            if prove(facts, t[1], 1) or prove(facts + [neg(t[1])], eq(x, y), 1): return simp_iite(facts, subst(p, {a: x}))
            if prove(facts, neg(t[1]), 1) or prove(facts + [t[1]], eq(x, y), 1): return simp_iite(facts, subst(p, {a: y}))
            if x is not t[2] or y is not t[3]:
                if (x, y) != (t[2], t[3]): return simp_iite(facts, subst(p, {a: mk_iite(t[1], x, y)}))
    return p
def operands(d):
    op = d.op
    if op == 'load': return [(('ptr',), d.a[0])]
    if op == 'getelementptr': return [(('ptr',), d.a[0])] + [(t, v) for t, v in d.a[1]]
    if op in ('zext', 'sext', 'trunc'): return [(d.a[1], d.a[0])]
    if op in ('add', 'mul', 'sub'): return [(d.ty, d.a[0]), (d.ty, d.a[1])]
    raise NeedProbe(op)
class DeadPath(Exception): pass

def mk_iite(c, a, b):
    if c is True: return a
    if c is False: return b
    if a == b: return a
    return apoly(('iite', c, a, b))
_old_ax = core.atom_axioms
def _ax(a):
    t = core.atom_of(a)
    if t[0] == 'iite':
        x = Poly({(a,): 1})
        return [implies(t[1], eq(x, t[2])), implies(neg(t[1]), eq(x, t[3]))]
    return _old_ax(a)
core.atom_axioms = _ax
_old_sa = core._subst_atom
def _sa(a, s, memo):
    t = core.atom_of(a)
    if t[0] == 'iite' and a not in s:
        new = tuple([t[0]] + [core._subst(y, s, memo) if isinstance(y, (Poly, tuple)) else y for y in t[1:]])
        if new == t: return None
        return mk_iite(new[1], new[2], new[3])
    return _old_sa(a, s, memo)
core._subst_atom = _sa
def mk_iter(f, v0, n):
    n = P_(n)
    if n == ZERO: return v0
    if n.is_const() and 0 < n.cval() <= 8: return apply_fn(f, mk_iter(f, v0, n - 1))
    return apoly(('iter', f, v0, n))
def apply_fn(f, p):
    """f(p), with f(f^n(x)) = f^(n+1)(x)"""
    p = P_(p)
    if len(p.m) == 1:
        (mono, cf), = p.m.items()
        if cf == 1 and len(mono) == 1:
            t = core.atom_of(mono[0])
            if t[0] == 'iter' and t[1] == f: return mk_iter(f, t[2], t[3] + 1)
    return apoly(('ild', f, p))
_sa1 = core._subst_atom
def _sa2(a, s, memo):
    t = core.atom_of(a)
    if a not in s and t[0] == 'iter':
        v0, n = core._subst(t[2], s, memo), core._subst(t[3], s, memo)
        return None if (v0, n) == (t[2], t[3]) else mk_iter(t[1], v0, n)
    if a not in s and t[0] == 'ild' and t[1].startswith('file.') and t[1] not in ('file.u8', 'file.u32'):
        p = core._subst(t[2], s, memo)
        return None if p == t[2] else apply_fn(t[1], p)
    return _sa1(a, s, memo)
core._subst_atom = _sa2

def has_raw(f):
    if isinstance(f, tuple):
        if f and f[0] == 'raw': return True
        return any(has_raw(x) for x in f if isinstance(x, tuple))
    return False
def rneg(f): return neg(f)
def drop_raw(f):
    if f is True or f is False: return f
    if f[0] == 'and': return conj([drop_raw(x) for x in f[1]])
    if f[0] == 'or': return disj([drop_raw(x) for x in f[1]])
    if has_raw(f): return True
    return f
def subst_poly_in_cmp(h, g, a, wv, neg_):
    _, pr_, w, x, y = g
    x2 = wv if x == a else x; y2 = wv if y == a else y
    if pr_ == 'eq': r = eq(x2, y2)
    else: r = lt(x2, y2) if pr_[1:] == 'lt' else le(x2, y2)
    return neg(r) if neg_ else r
def has_macc(t, uid=None, seen=None):
    if seen is None: seen = set()
    if isinstance(t, tuple):
        if t in seen: return False
        seen.add(t)
        if t and t[0] == 'macc' and (uid is None or t[1] == uid): return True
        return any(has_macc(x, uid, seen) for x in t if isinstance(x, (tuple)))
    return False
def replace_macc(t, cur, acc, memo=None):
    if memo is None: memo = {}
    if not isinstance(t, tuple): return t
    if t in memo: return memo[t]
    if t == cur: r = acc
    elif t and t[0] == 'macc' and t[1] == cur[1] and t[2] == cur[2] and t[3] == cur[3]: r = acc
    else: r = tuple(replace_macc(x, cur, acc, memo) if isinstance(x, tuple) else x for x in t)
    memo[t] = r
    return r
_fty = core.fty
def fty(t):
    if t[0] == 'macc': return t[4]
    return _fty(t)
core.fty = fty
