"""Scenario configurations (preconditions) and their specifications (postconditions)."""
from .core import *
from . import core, sx, files
from .scen import tensor, extents, subproducts, LIM

N, C, H, W = map(var, 'N C H W'.split())
HP, WP, OH, OW, KH, KW, MH, MW = map(var, 'HP WP OH OW KH KW mh mw'.split())
G, ci, co = map(var, 'G ci co'.split())
kh, kw, sh, sw, pt, pl, pb, pr = map(var, 'kh kw sh sw pt pl pb pr'.split())
X, Y = var('X'), var('Y')
CONFIGS = {}

def nn(*v): return [ge(P_(x)) for x in v]
def flat(dims, idx):
    p = ZERO
    for d, i in zip(dims, idx): p = p*P_(d) + P_(i)
    return p
def ld(name, dims, idx):
    p = ZERO
    for d, i in zip(dims, idx): p = p*P_(d) + P_(i)
    return ('ld', name, p, 'float')
def flt(n): return ('ld', 'f:' + n, ZERO, 'float')
def add(a, b): return ('op', 'add', 'float', a, b)
def sub(a, b): return ('op', 'sub', 'float', a, b)
def mul(a, b): return ('op', 'mul', 'float', a, b)
def div(a, b): return ('op', 'div', 'float', a, b)
def call(f, *a): return ('call', f, 'float') + a
def c(v): return ('c', 'float', float(v))
def i2f(p): return ('i2f', 'float', P_(p))
def _bv(): 
    a = atom(('v', fresh('q'))); return a, Poly({(a,): 1})
def ssum(doms, body, init=None):
    """sum over variables q0,q1,..; doms: functions (q...) -> formula; body(q...) -> term"""
    vs = [_bv() for _ in doms]; ps = [p for _, p in vs]
    t = body(*ps)
    for i in range(len(doms)-1, -1, -1):
        acc = ('sym', fresh('sacc'), 'float')
        t = ('fold', vs[i][0], doms[i](*ps[:i+1]), acc[1], add(acc, t) if i == len(doms)-1 else _with(t, acc), c(0) , 'float')
        if i == 0 and init is not None: t = add(t, init)
    return t
def _with(t, acc): return add(acc, t)
def smax(doms, body):
    vs = [_bv() for _ in doms]; ps = [p for _, p in vs]
    t = body(*ps)
    for i in range(len(doms)-1, -1, -1):
        acc = ('sym', fresh('macc'), 'float')
        t = ('fold', vs[i][0], doms[i](*ps[:i+1]), acc[1], ('ite', ('fc', 'olt', acc, t), t, acc), c(-3.4028234663852886e38), 'float')
    return t
def rng(n): return lambda *q: conj([ge(q[-1]), lt(q[-1], P_(n))])

LAYERS = 'identity relu leaky clip sigmoid tanh softmax lrn prelu bn conv maxpool avgpool gmaxpool gavgpool fc matmul'.split()
class Config:
    def __init__(self, key, prop, scenario, bind, facts, out='out', dims=None, spec=None, frame=(), alters=(), outs=None,
                 allow=None, fails=None, text='', abbr=(), result=None, floats=None, refuse=False, depends=None, nofun=False, ends=None):
        self.key = key; self.prop = prop; self.scenario = scenario; self.bind = bind; self.facts = facts
        self.out = out; self.dims = dims; self.spec = spec; self.text = text; self.abbr = abbr
        self.frame = frame; self.outs = outs; self.result = result; self.floats = floats; self.refuse = refuse
        self.io = None; self.iopost = None; self.depends = depends; self.nofun = nofun; self.ends = ends
        self.drives = scenario in LAYERS                   # a layer object is run
        self.pure = self.drives or scenario in ('expand', 'padinto')
        self.xmax = 1000 if scenario in ('softmax', 'sigmoid', 'tanh') else None     # magnitude of the inputs the property speaks of
        CONFIGS[key] = self

def divabbr(a, b, q, out):
    out.append((P_(a), P_(b), P_(q)))
    return [le(b*q, a), lt(P_(a), b*q + b), ge(P_(q))]

SHAPES = {1: [W], 2: [H, W], 3: [N, C, W], 4: [N, C, H, W]}
def same(prop, key, scenario, spec, dims, extra=(), inplace=0, bind=None, frame=(), text='', **kw):
    b = dict(bind or {}); b['inplace'] = inplace
    tensor(b, 'in', *dims); tensor(b, 'out', *dims)
    Config(key, prop, scenario, b, extents(*dims) + list(extra), 'in' if inplace else 'out', dims,
           lambda x: spec(ld('in', dims, x), x, dims), frame=([] if inplace else ['in']) + list(frame), text=text, **kw)

MIN, MAX, LEAK = flt('min'), flt('max'), flt('leak')
ite = mk_ite
def olt(a, b): return ('fc', 'olt', a, b)
ELEM = dict(
    identity=lambda v, x, d: v,
    relu=lambda v, x, d: ite(olt(c(0), v), v, c(0)),
    leaky=lambda v, x, d: ite(olt(v, c(0)), mul(LEAK, v), v),
    clip=lambda v, x, d: ite(olt(v, MIN), MIN, ite(olt(MAX, v), MAX, v)),
    sigmoid=lambda v, x, d: div(c(1), add(c(1), call('exp', sub(c(0), v)))),
    tanh=lambda v, x, d: call('tanh', v))
for fn in ELEM:
    prop = 'C14' if fn in ('sigmoid', 'tanh') else 'C13'
    ex = [('fc', 'ole', MIN, MAX)] if fn == 'clip' else []
    for nd, dims in SHAPES.items():
        same(prop, '%s%d' % (fn, nd), fn, ELEM[fn], dims, ex)
    same(prop, '%s_inplace' % fn, fn, ELEM[fn], SHAPES[4], ex, inplace=1)
for nd, dims in SHAPES.items():
    for ip in (0, 1):
        if ip and nd != 4: continue
        b = {}; tensor(b, 'slope', *dims)
        same('C13', 'prelu%d%s' % (nd, '_inplace' if ip else ''), 'prelu',
             (lambda v, x, d: ite(olt(v, c(0)), mul(ld('slope', d, x), v), v)), dims, inplace=ip, bind=b, frame=['slope'])
def softmax_spec(v, x, d):
    n = ONE
    for e in d: n = n*P_(e)
    return div(call('exp', v), ssum([rng(n)], lambda q: call('exp', ('ld', 'in', q, 'float'))))
for nd, dims in SHAPES.items():
    same('C14', 'softmax%d' % nd, 'softmax', softmax_spec, dims)
n = var('n')
def lrn_spec(v, x, d):
    S = ssum([lambda q: conj([ge(q), lt(q, C), ge(q, x[1] - mk_div(n, const(2))), le(q, x[1] + mk_div(n, const(2)))])],
             lambda q: mul(ld('in', d, (x[0], q, x[2], x[3])), ld('in', d, (x[0], q, x[2], x[3]))))
    return div(v, call('pow', add(c(1), mul(div(flt('alpha'), i2f(n)), S)), flt('beta')))
nh = var('nh')
def lrn(key, odd):
    ab = []
    f = [ge(n, ONE), le(n, const(65535))]
    if odd: f += [eq(n, 2*nh + 1), ge(nh)]; f += divabbr(n, const(2), nh, ab)
    else: f += [eq(n, 2*nh), ge(nh, ONE)]; f += divabbr(n, const(2), nh, ab)
    same('C15', key, 'lrn', lrn_spec, SHAPES[4], f, bind={'n': n}, abbr=ab)
lrn('lrn_odd', True); lrn('lrn_even', False)

for nd, dims in ((4, [ONE, C, H, W]), (3, [ONE, C, W])):
    b = {}; tensor(b, 'in', *dims); tensor(b, 'out', *dims)
    for x in 'gamma beta mean var'.split(): tensor(b, x, C)
    def bnspec(x, dims=dims):
        p = lambda nm: ('ld', nm, x[1], 'float')
        return add(mul(p('gamma'), div(sub(ld('in', dims, x), p('mean')), call('sqrt', add(p('var'), flt('eps'))))), p('beta'))
    Config('bn%d' % nd, 'C12', 'bn', b, extents(*dims), 'out', dims, bnspec, frame=['in', 'gamma', 'beta', 'mean', 'var'])
for bias in (0, 1):
    b = {'bias': bias}; tensor(b, 'in', 1, X); tensor(b, 'out', 1, Y); tensor(b, 'ker', Y, X)
    if bias: tensor(b, 'bias', Y)
    def fcspec(x, bias=bias):
        return ssum([rng(X)], lambda q: mul(('ld', 'in', q, 'float'), ld('ker', [Y, X], (x[1], q))), ('ld', 'bias', x[1], 'float') if bias else None)
    Config('fc%s' % ('_bias' if bias else ''), 'C08', 'fc', dict(b, bias=bias), extents(X, Y), 'out', [ONE, Y], fcspec, frame=['in', 'ker'] + (['bias'] if bias else []))
b = {}; tensor(b, 'in', 1, X); tensor(b, 'out', 1, Y); tensor(b, 'ker', X, Y)
Config('matmul', 'C08', 'matmul', b, extents(X, Y), 'out', [ONE, Y],
       lambda x: ssum([rng(X)], lambda q: mul(('ld', 'in', q, 'float'), ld('ker', [X, Y], (q, x[1])))), frame=['in', 'ker'])

# ---- global pooling
for k in ('gmaxpool', 'gavgpool'):
    for nd, dims in ((4, [N, C, H, W]), (3, [N, C, W])):
        b = {'pads': 0, 'strides': 0, 'kernels': 0}
        od = [N, C, ONE, ONE] if nd == 4 else [N, C, ONE]
        tensor(b, 'in', *dims); tensor(b, 'out', *od)
        def gs(x, k=k, nd=nd, dims=dims):
            if nd == 4: doms = [rng(H), rng(W)]; el = lambda a, bb: ld('in', dims, (x[0], x[1], a, bb)); cnt = H*W
            else: doms = [rng(W)]; el = lambda a: ld('in', dims, (x[0], x[1], a)); cnt = W
            return smax(doms, el) if k == 'gmaxpool' else div(ssum(doms, el), i2f(cnt))
        Config('%s%d' % (k, nd), 'C11', k, b, extents(*dims), 'out', od, gs, frame=['in'])

# ---- pooling
def mini(a, b): return sx.mk_iite(le(a, b), a, b)
def maxi(a, b): return sx.mk_iite(le(a, b), b, a)
def pool(prop, key, k, nd, pads, incl=1, sym=False):
    Hi, Wi = (HP - pt - pb, WP - pl - pr) if pads else (HP, WP)
    b = {'incl': incl}; ab = []
    T_, L_, = (pt, pl) if pads else (ZERO, ZERO)
    if nd == 4:
        b.update({'pads': 4 if pads else 0, 'strides': 2, 'kernels': 2, 'kernel0': kh, 'kernel1': kw, 'stride0': sh, 'stride1': sw,
                  'pad0': pt, 'pad1': pl, 'pad2': pb, 'pad3': pr})
        dims = [N, C, Hi, Wi]; od = [N, C, OH, OW]
        f = extents(N, C, HP, WP) + (extents(N, C, Hi, Wi) if pads else []) + extents(N, C, OH, OW) + [le(kh, HP), le(kw, WP)]
        f += [ge(x, ONE) for x in (kh, kw, sh, sw)] + [le(x, const(LIM)) for x in (sh, sw)] + [le(kh*kw, const(LIM))]
        f += divabbr(HP - kh, sh, OH - 1, ab) + divabbr(WP - kw, sw, OW - 1, ab)
        if pads: f += nn(pt, pl, pb, pr) + [lt(pt, kh), lt(pb, kh), lt(pl, kw), lt(pr, kw)]
    else:
        b.update({'pads': 4 if pads else 0, 'strides': 2, 'kernels': 2, 'kernel0': kw, 'kernel1': ZERO, 'stride0': sw, 'stride1': ZERO,
                  'pad0': pl, 'pad1': pr, 'pad2': ZERO, 'pad3': ZERO})
        dims = [N, C, Wi]; od = [N, C, OW]
        f = extents(N, C, WP) + (extents(N, C, Wi) if pads else []) + extents(N, C, OW) + [le(kw, WP)] + [ge(x, ONE) for x in (kw, sw)] + [le(sw, const(LIM))]
        f += divabbr(WP - kw, sw, OW - 1, ab)
        if pads: f += nn(pl, pr) + [lt(pl, kw), lt(pr, kw)]
    tensor(b, 'in', *dims); tensor(b, 'out', *od)
    def spec(x):
        if nd == 4:
            y0, x0 = sh*x[2] - T_, sw*x[3] - L_
            doms = [lambda q: conj([ge(q), lt(q, kh), ge(y0 + q), lt(y0 + q, Hi)]), lambda q, r: conj([ge(r), lt(r, kw), ge(x0 + r), lt(x0 + r, Wi)])]
            el = lambda q, r: ld('in', dims, (x[0], x[1], y0 + q, x0 + r))
            cnt = (mini(y0 + kh, Hi) - maxi(y0, ZERO))*(mini(x0 + kw, Wi) - maxi(x0, ZERO)) if pads and not incl else kh*kw
        else:
            x0 = sw*x[2] - L_
            doms = [lambda r: conj([ge(r), lt(r, kw), ge(x0 + r), lt(x0 + r, Wi)])]
            el = lambda r: ld('in', dims, (x[0], x[1], x0 + r))
            cnt = mini(x0 + kw, Wi) - maxi(x0, ZERO) if pads and not incl else kw
        return smax(doms, el) if k == 'maxpool' else div(ssum(doms, el), i2f(cnt))
    Config(key, prop, k, b, f, 'out', od, spec, frame=['in'], abbr=ab)
for nd in (3, 4):
    for p in (0, 1):
        pool('C09', 'maxpool%d%s' % (nd, '_pad' if p else ''), 'maxpool', nd, p)
        pool('C10', 'avgpool%d%s' % (nd, '_pad' if p else ''), 'avgpool', nd, p)
        pool('C10', 'avgpool%d%s_excl' % (nd, '_pad' if p else ''), 'avgpool', nd, p, 0)

# ---- convolution
def conv(nd, pads, bias, grouped):
    G_ = G if grouped else ONE
    Hi, Wi = (HP - pt - pb, WP - pl - pr) if pads else (HP, WP)
    b = {'pads': 4 if pads else 0, 'strides': 2, 'groups': G_}; ab = []
    CI = G_*ci; CO = G_*co
    f = extents(CO, ci) if grouped else []
    if nd == 4:
        b.update({'stride0': sh, 'stride1': sw, 'pad0': pt, 'pad1': pl, 'pad2': pb, 'pad3': pr})
        dims = [ONE, CI, Hi, Wi]; od = [ONE, CO, OH, OW]; kd = [CO, ci, KH, KW]
        f = extents(G_, ci, HP, WP) + (extents(G_, ci, Hi, Wi) if pads else []) + extents(G_, co, OH, OW) + extents(G_, co, ci, KH, KW)
        f += [le(KH, HP), le(KW, WP)] + [ge(x, ONE) for x in (sh, sw)] + [le(x, const(LIM)) for x in (sh, sw)] + nn(MH, MW)
        f += divabbr(HP - KH, sh, OH - 1, ab) + divabbr(WP - KW, sw, OW - 1, ab)
        f += divabbr(HP - 2*MH - 1, sh, OH - 1, ab) + divabbr(WP - 2*MW - 1, sw, OW - 1, ab)
        f += [eq(KH, 2*MH + 1), eq(KW, 2*MW + 1)] + divabbr(KH, const(2), MH, ab) + divabbr(KW, const(2), MW, ab)
        if pads: f += nn(pt, pl, pb, pr)
    else:
        b.update({'stride0': sw, 'stride1': ZERO, 'pad0': pl, 'pad1': pr, 'pad2': ZERO, 'pad3': ZERO})
        dims = [ONE, CI, Wi]; od = [ONE, CO, OW]; kd = [CO, ci, KW]
        f = extents(G_, ci, WP) + (extents(G_, ci, Wi) if pads else []) + extents(G_, co, OW) + extents(G_, co, ci, KW)
        f += [le(KW, WP), ge(sw, ONE), le(sw, const(LIM))] + nn(MW)
        f += divabbr(WP - KW, sw, OW - 1, ab) + divabbr(WP - 2*MW - 1, sw, OW - 1, ab) + [eq(KW, 2*MW + 1)] + divabbr(KW, const(2), MW, ab)
        if pads: f += nn(pl, pr)
    if grouped: f += [lt(G*G*co, const(1 << 32)), lt(G*G*ci, const(1 << 32))]
    tensor(b, 'in', *dims); tensor(b, 'out', *od); tensor(b, 'ker', *kd)
    if bias: tensor(b, 'bias', CO)
    b['bias'] = bias
    T_, L_ = (pt, pl) if pads else (ZERO, ZERO)
    def spec(x, extra):
        # x[1] = co*g + r: group g, channel r of the group
        g, r = extra
        if nd == 4:
            y0, x0 = sh*x[2] - T_, sw*x[3] - L_
            doms = [rng(ci), lambda q, a: conj([ge(a), lt(a, KH), ge(y0 + a), lt(y0 + a, Hi)]), lambda q, a, e: conj([ge(e), lt(e, KW), ge(x0 + e), lt(x0 + e, Wi)])]
            el = lambda q, a, e: mul(ld('in', dims, (ZERO, ci*g + q, y0 + a, x0 + e)), ld('ker', kd, (x[1], q, a, e)))
        else:
            x0 = sw*x[2] - L_
            doms = [rng(ci), lambda q, e: conj([ge(e), lt(e, KW), ge(x0 + e), lt(x0 + e, Wi)])]
            el = lambda q, e: mul(ld('in', dims, (ZERO, ci*g + q, x0 + e)), ld('ker', kd, (x[1], q, e)))
        return ssum(doms, el, ('ld', 'bias', x[1], 'float') if bias else None)
    cf = Config('conv%d%s%s%s' % (nd, '_pad' if pads else '', '_bias' if bias else '', '_grp' if grouped else ''), 'C06' if nd == 4 else 'C07',
                'conv', b, f, 'out', od, spec, frame=['in', 'ker'] + (['bias'] if bias else []), abbr=ab)
    # the output channel is written as co*group + position within the group
    g, r = var('xg'), var('xr')
    cf.cellvars = lambda: ([ZERO, co*g + r] + ([var('x2'), var('x3')] if nd == 4 else [var('x2')]),
                           [ge(g), lt(g, G_), ge(r), lt(r, co)], (g, r)) if grouped else \
                          ([ZERO, r] + ([var('x2'), var('x3')] if nd == 4 else [var('x2')]), [ge(r), lt(r, co)], (ZERO, r))
for nd in (3, 4):
    for pads in (0, 1):
        for bias in (0, 1):
            for grp in (0, 1):
                if pads != bias and grp: continue
                conv(nd, pads, bias, grp)

# ---- tensor operations
FILL = flt('fill')
for nd, dims, od, np_ in ((4, [N, C, H, W], [N, C, H + pt + pb, W + pl + pr], 4), (3, [N, C, W], [N, C, W + pl + pr], 2), (2, [H, W], [H + pt + pb, W + pl + pr], 4)):
    for dflt in (0, 1):
        b = {'pads': np_, 'default': dflt, 'pad0': pt if nd != 3 else pl, 'pad1': pl if nd != 3 else pr, 'pad2': pb, 'pad3': pr}
        tensor(b, 'in', *dims); tensor(b, 'out', *od)
        f = extents(*dims) + extents(*od) + nn(pt, pl, pb, pr)
        def spec(x, nd=nd, dims=dims, dflt=dflt):
            if nd == 4: y = (x[0], x[1], x[2] - pt, x[3] - pl); g = conj([ge(y[2]), lt(y[2], H), ge(y[3]), lt(y[3], W)])
            elif nd == 3: y = (x[0], x[1], x[2] - pl); g = conj([ge(y[2]), lt(y[2], W)])
            else: y = (x[0] - pt, x[1] - pl); g = conj([ge(y[0]), lt(y[0], H), ge(y[1]), lt(y[1], W)])
            return mk_ite(g, ld('in', dims, y), c(0) if dflt else FILL)
        sfx = '_default' if dflt else ''
        n_el = ONE
        for d in od: n_el = n_el*d
        Config('expand%d%s' % (nd, sfx), 'C02', 'expand', b, f, 'res', od, spec, frame=['in'],
               outs=[('num_dimensions', const(nd))] + [('shape', d) for d in od] + [('num_elements', n_el)])
        Config('padinto%d%s' % (nd, sfx), 'C02', 'padinto', b, f, 'out', od, spec, frame=['in'], outs='returned')
for nd, dims in SHAPES.items():
    b = {}; tensor(b, 'in', *dims); tensor(b, 'out', *dims)
    Config('copy%d' % nd, 'C03', 'copy', b, extents(*dims), 'out', dims, lambda x, dims=dims: ld('in', dims, x), frame=['in'])
    Config('scale%d' % nd, 'C03', 'scale', b, extents(*dims), 'out', dims, lambda x, dims=dims: mul(ld('in', dims, x), flt('factor')), frame=['in'])
    b = {}; tensor(b, 'a', *dims); tensor(b, 'b', *dims)
    Config('add%d' % nd, 'C03', 'add', b, extents(*dims), 'a', dims, lambda x, dims=dims: add(ld('a', dims, x), ld('b', dims, x)), frame=['b'])
bt, ch = var('bt'), var('ch')
for nd in (3, 4):
    dims = SHAPES[nd]
    b = {'batch': bt, 'channel': ch}; tensor(b, 'a', *dims); tensor(b, 'b', *dims)
    Config('addch%d' % nd, 'C03', 'addch', b, extents(*dims) + nn(bt, ch) + [lt(bt, N), lt(ch, C)], 'a', dims,
           lambda x, dims=dims: mk_ite(conj([eq(x[0], bt), eq(x[1], ch)]), add(ld('a', dims, x), ld('b', dims, x)), ld('a', dims, x)), frame=['b'])
# ---- concatenation along channels (C04): every number of inputs up to four, each with its own number of channels
cc = [var('c%d' % j) for j in range(4)]
for nd in (3, 4):
    for cnt in range(5):
        tot = ZERO
        for x in cc[:cnt]: tot = tot + x
        rest = [W] if nd == 3 else [H, W]
        CO_ = tot if cnt else C
        od = [ONE, CO_] + rest
        b = {'inputs': cnt, 'dim': 1}; tensor(b, 'out', *od); f = extents(*od)
        for j in range(cnt):
            tensor(b, 'ins%d' % j, ONE, cc[j], *rest); f += extents(ONE, cc[j], *rest)
        cf = Config('concat%d_%d' % (nd, cnt), 'C04', 'concat', b, f, 'out', od,
                    (lambda x, extra, rest=rest: ld('ins%d' % extra[0], [ONE, cc[extra[0]]] + rest, (ZERO, extra[1]) + tuple(x[2:]))) if cnt else
                    (lambda x, od=od: ld('out', od, x)), frame=['ins%d' % j for j in range(cnt)])
        if cnt:
            def cell(j, nd=nd):
                def go():
                    r = var('xr'); p = ZERO
                    for q in cc[:j]: p = p + q
                    return [ZERO, p + r] + ([var('x2'), var('x3')] if nd == 4 else [var('x2')]), [ge(r), lt(r, cc[j])], (j, r)
                return go
            cf.cellsets = [cell(j) for j in range(cnt)]
i0, i1, i2, i3 = map(var, 'i0 i1 i2 i3'.split())
for nd, dims in SHAPES.items():
    ii = [i0, i1, i2, i3][:nd]
    fl = ZERO
    for d, i in zip(dims, ii): fl = fl*d + i
    b = {'i%d' % k: (ii[k] if k < nd else ZERO) for k in range(4)}; b["flat"] = fl
    tensor(b, 't', *dims)
    f = extents(*dims) + [g for i, d in zip(ii, dims) for g in (ge(i), lt(i, d))]
    n_el = ONE
    for d in dims: n_el = n_el*d
    nb = dims[0] if nd >= 3 else ONE; nc = dims[1] if nd >= 3 else ONE
    outs = [('num_dimensions', const(nd)), ('num_elements', n_el), ('size_bytes', 4*n_el), ('num_batches', nb), ('num_channels', nc)]
    if nd > 1: outs += [('height', dims[2] if nd == 4 else ONE if nd == 3 else dims[0]), ('width', dims[-1])]
    outs += [('shape', d) for d in dims] + [("access", fl), ("chan", fl), ("blob", fl)]
    Config('ctor%d' % nd, 'C01', 'ctor', b, f, 't', dims, lambda x: c(0), outs=outs)

# ---- unsupported configurations (C18): the process ends with a non-zero status before any tensor changes
def refuse(key, scenario, shapes, facts, bind=None):
    b = dict(bind or {}); f = list(facts)
    for nm, dims in shapes.items():
        tensor(b, nm, *dims); f += extents(*dims)
    Config(key, 'C18', scenario, b, f, None, None, None, refuse=True)
N2, C2, H2, W2 = map(var, 'N2 C2 H2 W2'.split())
RS = {1: [W2], 2: [H2, W2], 3: [N2, C2, W2], 4: [N2, C2, H2, W2]}
for nd in (3, 4):
    sp = ([HP, WP], [OH, OW], [KH, KW]) if nd == 4 else ([WP], [OW], [KW])
    b = {'pads': 0, 'strides': 2, 'groups': 1, 'bias': 0, 'stride0': sh, 'stride1': sw}
    refuse('refuse_conv%d_batch' % nd, 'conv', {'in': [N, ci] + sp[0], 'out': [N, co] + sp[1], 'ker': [co, ci] + sp[2]},
           [ge(N, const(2)), ge(sh, ONE), ge(sw, ONE), le(sh, const(LIM)), le(sw, const(LIM))], b)
    refuse('refuse_bn%d_batch' % nd, 'bn', dict({'in': SHAPES[nd], 'out': SHAPES[nd]}, **{x: [C] for x in 'gamma beta mean var'.split()}), [ge(N, const(2))])
for nd in (1, 2):
    refuse('refuse_bn_rank%d' % nd, 'bn', dict({'in': SHAPES[nd], 'out': SHAPES[nd]}, **{x: [C] for x in 'gamma beta mean var'.split()}), [])
    for k in ('maxpool', 'avgpool'):
        for pads in (0, 4):
            refuse('refuse_%s_rank%d%s' % (k, nd, '_pad' if pads else ''), k, {'in': SHAPES[nd], 'out': RS[nd]}, [ge(x, ONE) for x in (kh, kw, sh, sw)] + nn(pt, pl, pb, pr) + [le(x, const(LIM)) for x in (kh, kw, sh, sw, pt, pl, pb, pr)],
                   {'incl': 1, 'pads': pads, 'strides': 2, 'kernels': 2, 'kernel0': kh, 'kernel1': kw, 'stride0': sh, 'stride1': sw, 'pad0': pt, 'pad1': pl, 'pad2': pb, 'pad3': pr})
    for k in ('gmaxpool', 'gavgpool'):
        refuse('refuse_%s_rank%d' % (k, nd), k, {'in': SHAPES[nd], 'out': RS[nd]}, [], {'pads': 0, 'strides': 0, 'kernels': 0})
for nd in (1, 2, 3):
    refuse('refuse_lrn_rank%d' % nd, 'lrn', {'in': SHAPES[nd], 'out': SHAPES[nd]}, [ge(n, ONE), le(n, const(65535))], {'n': n, 'inplace': 0})
for a, b_ in ((1, 2), (3, 2), (4, 2), (2, 1), (2, 3), (2, 4), (3, 3), (4, 4), (1, 1)):
    for bias in ((0, 1) if (a, b_) in ((3, 2), (2, 4)) else (0,)):
        refuse('refuse_fc_%d_%d%s' % (a, b_, '_bias' if bias else ''), 'fc', dict({'in': SHAPES[a], 'out': RS[b_], 'ker': [Y, X]}, **({'bias': [Y]} if bias else {})), [], {'bias': bias})
for a in SHAPES:
    for b_ in SHAPES:
        if a != b_: refuse('refuse_prelu_%d_%d' % (a, b_), 'prelu', {'in': SHAPES[a], 'out': SHAPES[a], 'slope': RS[b_]}, [], {'inplace': 0})
def prod(ds):
    p = ONE
    for d in ds: p = p*P_(d)
    return p
for a in SHAPES:
    for b_ in SHAPES:
        refuse('refuse_copy_%d_%d' % (a, b_), 'copy', {'in': SHAPES[a], 'out': RS[b_]}, [neg(eq(prod(SHAPES[a]), prod(RS[b_])))])
for w in 'hw':
    refuse('refuse_%s_rank1' % ('height' if w == 'h' else 'width'), 'height' if w == 'h' else 'width', {'t': [W]}, [])

# ---- files (C19-C23)
def io(prop, key, scenario, gen, present, accept, bind=None, facts=(), **kw):
    cf = Config(key, prop, scenario, dict(bind or {}), list(facts), kw.pop('out', None), kw.pop('dims', None), kw.pop('spec', None), **kw)
    cf.io = dict(gen=gen, present=present, accept=accept); return cf
def text(at, s): return [eq(files.u8(at + i), const(b)) for i, b in enumerate(s.encode())]
for nd in (2, 3, 4):
    dims = {2: [H, W], 3: [ONE, C, W], 4: [ONE, C, H, W]}[nd]
    n_el = ONE
    for d in dims: n_el = n_el*P_(d)
    cn, h_, w_ = {2: (ONE, H, W), 3: (C, ONE, W), 4: (C, H, W)}[nd]
    acc = text(ZERO, 'FCI\n') + [eq(files.u32(const(4*(i + 1))), P_(v)) for i, v in enumerate((1, cn, h_, w_))] + text(20 + 4*n_el, 'end\n') + [le(24 + 4*n_el, files.LEN)]
    for present in (True, False):
        b = {}; tensor(b, 't', *dims)
        io('C20', 'refin%d%s' % (nd, '' if present else '_absent'), 'refin', 'refin', present, acc if present else False, b, extents(*dims), out='t', dims=dims,
           spec=(lambda x, dims=dims: ('ld', 'file.f32', 20 + 4*flat(dims, x), 'float')))
for sc_, ranks, magic in (('refin', (1,), 'FCI\n'), ('refout', (1, 3, 4), 'FCO\n')):
    for nd in ranks:
        b = {}; tensor(b, 't', *SHAPES[nd])
        io('C20', '%s_rank%d' % (sc_, nd), sc_, sc_, True, False, b, extents(*SHAPES[nd]))
for present in (True, False):
    b = {}; tensor(b, 't', H, W)
    acc = text(ZERO, 'FCO\n') + [eq(files.u32(const(4)), ONE), eq(files.u32(const(8)), H*W)] + text(12 + 4*H*W, 'end\n') + [le(16 + 4*H*W, files.LEN)]
    io('C20', 'refout%s' % ('' if present else '_absent'), 'refout', 'refout', present, acc if present else False, b, extents(H, W), out='t', dims=[H, W],
       spec=lambda x: ('ld', 'file.f32', 12 + 4*flat([H, W], x), 'float'))
# ---- comparison (C05)
A = {1: [var('aW')], 2: [var('aH'), var('aW')], 3: [var('aN'), var('aC'), var('aW')], 4: [var('aN'), var('aC'), var('aH'), var('aW')]}
B = {1: [var('bW')], 2: [var('bH'), var('bW')], 3: [var('bN'), var('bC'), var('bW')], 4: [var('bN'), var('bC'), var('bH'), var('bW')]}
TOL = ('c', 'float', 9.999999747378752e-05)
def close(i, d): return ('fc', 'olt', ('op', 'abs', 'float', sub(('ld', 'a', i, 'float'), ('ld', 'b', i, 'float'))), TOL)
for x in SHAPES:
    for y in SHAPES:
        b = {}; tensor(b, 'a', *A[x]); tensor(b, 'b', *B[y])
        cf = Config('eq_%d_%d' % (x, y), 'C05', 'eq', b, extents(*A[x]) + extents(*B[y]), None, None, None)
        cf.equality = (A[x], B[y])
        cf.twin = [(p, q) for p, q in zip(A[x], B[y])] if x == y else []

from . import iospecs
