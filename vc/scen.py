"""Scenario runner: symbolic interpretation of harness/harness.cpp together with the real code."""
import time
from .core import *
from . import core, sx, ir, files
from .sx import Executor, State, Unsupported, Base, Layer, LoopPrev, DeadPath

LIM = 1 << 29

def cstr(ex, st, p):
    b = st.blk[p[1]]; o = p[2].cval(); out = []
    while True:
        c = st.mem[b.id][o][1].cval()
        if c == 0: return ''.join(out)
        out.append(chr(c)); o += 1

class Sig:
    def __init__(self, nd, dims): self.nd = nd; self.dims = dims

class Run:
    """one symbolic execution of a scenario under a precondition"""
    def __init__(self, mod, scenario, bind, facts, floats=None, contracts=None, present=None):
        self.mod = mod; self.scenario = scenario; self.bind = bind; self.facts = facts
        self.floats = floats or {}
        self.ex = Executor(mod, contracts)
        self.t0 = time.time()
        self.ends = []        # states at vh_end
        self.outs = []
        self.files = files.Files(self.ex, present) if present is not None else None
        E = self.ex.externs
        for n in dir(self):
            if n.startswith('vh_'): E['@' + n] = getattr(self, n)
    def setres(self, st, ins, v):
        if ins.res: st.env[ins.res] = v
    def vh_u(self, ex, st, av, ins):
        n = cstr(ex, st, av[0])
        v = self.bind.get(n)
        if v is None:
            if n.rsplit('.', 1)[-1] in '0123' and '.' in n: v = 0    # unused extent
            else: raise Unsupported('unbound scenario value ' + n)
        self.setres(st, ins, P_(v)); return None
    def vh_f(self, ex, st, av, ins):
        n = cstr(ex, st, av[0])
        self.setres(st, ins, self.floats.get(n) or ('ld', 'f:' + n, ZERO, 'float')); return None
    def vh_arr(self, ex, st, av, ins):
        n = cstr(ex, st, av[0]); cnt = av[1].cval()
        b = ex.new_block(st, n, 4*cnt, 'cells', 'caller')
        st.mem[b.id] = {4*i: (4, P_(self.bind['%s%d' % (n, i)])) for i in range(cnt)}
        self.setres(st, ins, ('ptr', b.id, ZERO)); return None
    def vh_drop(self, ex, st, av, ins):
        if av[0][0] == 'ptr':
            if not st.alive.get(av[0][1]): ex.record(st, 'free', False, ins, 'configuration array released by the library')
            st.alive[av[0][1]] = False
        return None
    def vh_tensor(self, ex, st, av, ins):
        n = cstr(ex, st, av[0]); t, data = av[1], av[2]
        nd = av[3].cval(); dims = [x for x in av[4:4+nd]]
        if data[0] != 'ptr' or data[2] != ZERO: raise Unsupported('tensor data pointer')
        b = ex.as_array(st, data[1], 4, ('f', 'float'))
        b = sx.Blk(b.id, n, b.size, 'array', b.origin, 4, ('f', 'float'), False, ('dims', tuple(dims)))
        st.blk[b.id] = b
        st.mem[b.id] = Base('sym', n, 'float')
        st.ghost['T:' + n] = (b.id, tuple(dims))
        return None
    def vh_observe(self, ex, st, av, ins):
        n = cstr(ex, st, av[0]); data = av[1]; nd = av[2].cval(); dims = av[3:3+nd]
        b = ex.as_array(st, data[1], 4, ('f', 'float'))
        st.blk[b.id] = sx.Blk(b.id, n, b.size, 'array', b.origin, 4, ('f', 'float'), False, ('dims', tuple(dims)))
        st.ghost['T:' + n] = (b.id, tuple(dims)); return None
    def vh_result(self, ex, st, av, ins):
        n = cstr(ex, st, av[0]); data = av[2]
        st.ghost['T:' + n] = (data[1], None); st.ghost['R:' + n] = data[2]; return None
    def vh_begin(self, ex, st, av, ins):
        st.ghost['begin'] = (dict(st.mem), dict(st.alive)); return None
    def vh_end(self, ex, st, av, ins):
        self.ends.append(st.clone()); return None
    def vh_out_u(self, ex, st, av, ins):
        n = cstr(ex, st, av[0]); v = av[1]
        v = ex.ival(v) if not isinstance(v, Poly) else v
        st.ghost.setdefault('outs', ()); st.ghost['outs'] += ((n, ex.exact_u(st, v, 32)),); return None
    def vh_path(self, ex, st, av, ins):
        self.setres(st, ins, ('opaque', 'path')); return None
    def vh_out_f(self, ex, st, av, ins):
        st.ghost.setdefault('arrays', ()); st.ghost['arrays'] += ((cstr(ex, st, av[0]), av[1], ex.exact_u(st, av[2], 64)),); return None
    vh_out_b = vh_out_f
    def vh_out_table(self, ex, st, av, ins):
        st.ghost.setdefault('tables', ()); st.ghost['tables'] += ((cstr(ex, st, av[0]), av[1], ex.exact_u(st, av[2], 32)),); return None
    def vh_free_table(self, ex, st, av, ins):
        if av[0][0] == 'ptr':
            if not st.alive.get(av[0][1]): ex.record(st, 'free', False, ins, 'the table is already released')
            st.alive[av[0][1]] = False
        return None
    def vh_image(self, ex, st, av, ins):
        n = cstr(ex, st, av[0]); h, w = (ex.exact_u(st, x, 32) for x in av[1:3])
        b = ex.array_block(st, n, h*w, ('f', 'float'), 4, Base('sym', n, 'float'), 'caller', False)
        b = sx.Blk(b.id, n, b.size, 'array', 'caller', 4, ('f', 'float'), False, ('dims', (h, w))); st.blk[b.id] = b
        self.setres(st, ins, ('ptr', b.id, ZERO)); return None
    def vh_jpeg(self, ex, st, av, ins): return None
    def vh_out_file(self, ex, st, av, ins): return None
    def vh_out_p(self, ex, st, av, ins):
        st.ghost.setdefault('outs', ()); st.ghost['outs'] += ((cstr(ex, st, av[0]), av[1]),); return None
    def run(self):
        st = State()
        for f in self.facts: st.assume(f)
        fn = self.mod.functions['@sc_' + self.scenario]
        self.outs = self.ex.call_function(st, fn, [])
        self.wall = time.time() - self.t0
        return self

def tensor(bind, name, *dims):
    bind[name + '.nd'] = len(dims)
    for i, d in enumerate(dims): bind['%s.%d' % (name, i)] = d
def subproducts(dims):
    """every (sub-)product of extents is bounded: consequence of extents >= 1 and the size limit"""
    import itertools
    out = []
    ds = [d for d in map(P_, dims) if not d.is_const()]
    for r in range(1, len(ds)+1):
        for c in itertools.combinations(range(len(ds)), r):
            p = ONE
            for i in c: p = p*ds[i]
            out.append(le(p, const(LIM)))
            out.append(ge(p, ONE))
    return out
def extents(*dims): return [ge(P_(d), ONE) for d in dims] + subproducts(dims)
