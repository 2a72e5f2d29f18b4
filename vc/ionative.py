"""Concrete files for the loaders and writers: generators of well-formed and malformed files and what each must give."""
import struct, os, math
def u32(x): return struct.pack('<I', x)
def be32(x): return struct.pack('>I', x)
def fbits(rng):
    """32 random bits, now and then a special float"""
    return rng.choice([rng.getrandbits(32), rng.getrandbits(32), struct.unpack('<I', struct.pack('<f', rng.gauss(0, 3)))[0], struct.unpack('<I', struct.pack('<f', float(rng.randint(-99, 99))))[0],
                       0x7fc00001, 0x80000000, 0, 0x7f800000, 0xff800000, 1, 0x0a0a0a0a, 0x646e650a])
def quiet(b):
    """the x86 float registers keep signalling NaNs only in integer copies: avoid them"""
    return b | 0x400000 if (b & 0x7f800000) == 0x7f800000 and b & 0x7fffff else b
def f32(x): return struct.unpack('f', struct.pack('f', x))[0]
def raw(s):
    """bits of a value printed by the native run"""
    if s.startswith('nan:'): return int(s[4:], 16)
    return struct.unpack('<I', struct.pack('<f', float.fromhex(s) if not s.lstrip('-').startswith('inf') else float(s)))[0]
def name(rng, lim=99):
    n = rng.choice([0, 1, 5, 17, 98, 99]) if rng.random() < 0.5 else rng.randint(0, lim)
    n = min(n, lim)
    return bytes(rng.choice(b'abcXYZ_0189/: \t-') if rng.random() < 0.97 else rng.choice([1, 0x7f, 0xff, 0x80]) for _ in range(n))
class Case:
    """file: bytes or None (absent); u/f/t: harness values; expect: what the run must give"""
    def __init__(self, scenario, file, u=None, f=None, t=None, **expect):
        self.scenario = scenario; self.file = file; self.u = u or {}; self.f = f or {}; self.t = t or {}; self.expect = expect
    def text(self, path):
        o = ['s ' + self.scenario, 'p ' + path]
        o += ['u %s %d' % kv for kv in self.u.items()] + ['f %s %s' % (k, v.hex()) for k, v in self.f.items()]
        o += ['t %s %s' % (k, ' '.join(x.hex() for x in v)) for k, v in self.t.items()]
        return '\n'.join(o) + '\n'
def shape(u, n, dims):
    u[n + '.nd'] = len(dims)
    for i, d in enumerate(dims): u['%s.%d' % (n, i)] = d
def cut(rng, b):
    """a proper prefix"""
    return b[:rng.choice([0, 1, 2, 3, 4, len(b) - 1, len(b) - 2, len(b) - 4, len(b) - 5, rng.randrange(len(b)), rng.randrange(len(b))]) % len(b)]
def corrupt(rng, b):
    """the same length, at least one byte different"""
    c = bytearray(b); i = rng.randrange(len(c)); c[i] = rng.choice([x for x in (0, 10, 32, c[i] ^ 32, c[i] ^ 1, 255, 67, 79) if x != c[i] and x < 256]); return bytes(c)

# ---------------------------------------------------------------- C19
TYPES = [b'Conv', b'BatchNormalization', b'Gemm', b'MatMul', b'Transpose', b'Add']
def gen_weights(rng):
    mode = rng.choice(['ok', 'ok', 'ok', 'cut', 'cut', 'magic', 'type', 'end', 'absent', 'name'])
    nl = rng.choice([0, 1, 1, 2, 3, 4, 6]); ks, bs = [], []
    badlayer = rng.randrange(nl) if nl and mode == 'type' else None
    if mode == 'type' and not nl: mode = 'end'
    badname = rng.randint(0, nl) if mode == 'name' else None
    def longname(): return name(rng, 99) + b'x'*rng.choice([100, 101, 128, 500])
    body = (longname() if badname == 0 else name(rng)) + b'\n' + u32(nl)
    def val(n): return [quiet(fbits(rng)) for _ in range(n)]
    def put(v): return b''.join(u32(x) for x in v)
    def bias():
        n = rng.choice([0, 1, 2, 5])
        v = val(n)
        if n: bs.append(((n,), v))
        return u32(n) + put(v)
    for l in range(nl):
        t = rng.choice(TYPES)
        tn = t
        if badlayer == l: tn = rng.choice([b'', b'Con', b'Convo', b'conv', b'Relu', b'MaxPool', b'Gem', b'Gemms', b'Adds', b'Ad', b'BatchNorm', b'Transposed', b'MatMu', b'Sub', b' Conv', b'Conv '])
        which = rng.random() < 0.6 if badname == l + 1 else None
        body += (longname() if which is True else name(rng)) + b'\n'
        if which is False: tn = t + longname()
        body += tn + b'\n'
        if t == b'Conv':
            d = [rng.randint(1, 3) for _ in range(4)]
            if rng.random() < 0.25: d[rng.randrange(4)] = 0
            body += b''.join(map(u32, d))
            if all(d):
                three = d[2] == 1 and rng.random() < 0.4
                v = val(d[0]*d[1]*d[2]*d[3]); ks.append(((d[0], d[1], d[3]) if three else tuple(d), v)); body += put(v)
            body += bias()
        elif t == b'BatchNormalization':
            for _ in range(4): body += bias()
        elif t == b'Add': body += bias()
        else:
            h, w = rng.randint(1, 5), rng.randint(1, 5); v = val(h*w); ks.append(((h, w), v))
            body += u32(1) + u32(h) + u32(w) + put(v) + bias()
    f = b'FD\n' + body + b'end\n'
    if mode == 'cut': f = cut(rng, f)
    if mode == 'magic': f = corrupt(rng, b'FD\n') + body + b'end\n'
    if mode == 'end': f = b'FD\n' + body + corrupt(rng, b'end\n')
    if mode == 'absent': f = None
    if mode == 'ok' and rng.random() < 0.3: f += rng.choice([b'\n', b'trailing', b'\0'])
    sent = 4.5; u = {}; t = {}; want = {}
    for nm, lst in (('k', ks), ('b', bs)):
        lst = lst + [((2, 3), None)]          # one tensor more than the file describes: stays as it was
        u['kernels' if nm == 'k' else 'biases'] = len(lst)
        for i, (d, v) in enumerate(lst):
            shape(u, '%s%d' % (nm, i), d); n = math.prod(d); t['%s%d' % (nm, i)] = [sent + j for j in range(n)]
            if mode == 'ok': want['%s%d' % (nm, i)] = v if v is not None else [struct.unpack('<I', struct.pack('<f', sent + j))[0] for j in range(n)]
    return Case('weights', f, u, None, t, ret=0 if mode == 'ok' else None, tensors=want, what=mode)
# ---------------------------------------------------------------- C20
def gen_refin(rng):
    nd = rng.choice([4, 4, 3, 3, 2]); mode = rng.choice(['ok', 'ok', 'ok', 'cut', 'cut', 'magic', 'end', 'absent', 'batch', 'extent', 'extent', 'rank'])
    d = [1] + [rng.randint(1, 4) for _ in range(nd - 1)]
    if nd == 2: d = [rng.randint(1, 4), rng.randint(1, 4)]
    if mode == 'rank': d = [rng.randint(1, 4)]
    C, H, W = (1, 1, d[0]) if mode == 'rank' else (d[1], d[2], d[3]) if nd == 4 else (d[1], 1, d[2]) if nd == 3 else (1, d[0], d[1])
    b = 1; c, h, w = C, H, W
    if mode == 'batch': b = rng.choice([0, 2, 3, 256, 1 << 24, 1 << 31])
    if mode == 'extent':
        j = rng.randrange(3); e = [C, H, W]; e[j] = rng.choice([x for x in (0, e[j] + 1, e[j] - 1, e[j] + 256, e[j] << 8, e[j]*2, 1 << 20) if x != e[j]])
        if rng.random() < 0.3: e[(j + 1) % 3], e[j] = e[j], e[(j + 1) % 3]
        c, h, w = e
        if (c, h, w) == (C, H, W): c += 1
    v = [quiet(fbits(rng)) for _ in range(C*H*W)]
    data = b''.join(map(u32, v))
    if mode in ('batch', 'extent') and rng.random() < 0.5: data = b''.join(u32(quiet(fbits(rng))) for _ in range(min(c*h*w*max(b, 1), 3000)))
    body = u32(b) + u32(c) + u32(h) + u32(w) + data
    f = b'FCI\n' + body + b'end\n'
    if mode == 'cut': f = cut(rng, f)
    if mode == 'magic': f = (b'FCO\n' if rng.random() < 0.3 else corrupt(rng, b'FCI\n')) + body + b'end\n'
    if mode == 'end': f = b'FCI\n' + body + corrupt(rng, b'end\n')
    if mode == 'absent': f = None
    u = {}; shape(u, 't', d)
    return Case('refin', f, u, None, {'t': [1.5]*math.prod(d)}, ret=0 if mode == 'ok' else None, tensors={'t': v} if mode == 'ok' else {}, what=mode)
def gen_refout(rng):
    mode = rng.choice(['ok', 'ok', 'ok', 'cut', 'cut', 'magic', 'end', 'absent', 'batch', 'extent', 'rank'])
    d = [rng.choice([1, 1, 1, 2, 3]), rng.randint(1, 12)]
    if mode == 'rank': d = rng.choice([[4], [1, 2, 3], [1, 2, 2, 3]])
    n = math.prod(d); b, m = 1, n
    if mode == 'batch': b = rng.choice([0, 2, 3, 256, 1 << 24, 1 << 31])
    if mode == 'extent': m = rng.choice([0, n + 1, n - 1, n + 256, n << 8, 1 << 20])
    if m == n and mode == 'extent': m = n + 1
    v = [quiet(fbits(rng)) for _ in range(n)]; data = b''.join(map(u32, v))
    if mode == 'extent' and m < 5000 and rng.random() < 0.5: data = b''.join(u32(quiet(fbits(rng))) for _ in range(m))
    body = u32(b) + u32(m) + data
    f = b'FCO\n' + body + b'end\n'
    if mode == 'cut': f = cut(rng, f)
    if mode == 'magic': f = (b'FCI\n' if rng.random() < 0.3 else corrupt(rng, b'FCO\n')) + body + b'end\n'
    if mode == 'end': f = b'FCO\n' + body + corrupt(rng, b'end\n')
    if mode == 'absent': f = None
    u = {}; shape(u, 't', d)
    return Case('refout', f, u, None, {'t': [1.5]*n}, ret=0 if mode == 'ok' else None, tensors={'t': v} if mode == 'ok' else {}, what=mode)
# ---------------------------------------------------------------- C21
def bounds(rng):
    return rng.choice([(0.0, 1.0), (-1.0, 1.0), (0.0, 255.0), (f32(rng.uniform(-5, 5)), f32(rng.uniform(-5, 5))), (1.0, 0.0), (2.5, 2.5), (-3.0, -1.0)])
def padded(rng, px, h, w, pad, lo, hi):
    r = abs(f32(lo - hi)); o = []
    for y in range(h + 2*pad):
        for x in range(w + 2*pad):
            o.append(('=', lo) if y < pad or y >= h + pad or x < pad or x >= w + pad else ('~', px[(y - pad)*w + x - pad]/255.0*r + lo, 4e-6*(r + abs(lo)) + 1e-12))
    return o
def gen_mnistimg(rng):
    mode = rng.choice(['ok']*6 + ['magic', 'absent', 'cutmagic'])
    n, req = rng.choice([0, 1, 2, 3, 5]), rng.choice([0, 1, 2, 3, 4, 9]); h, w = rng.randint(1, 6), rng.randint(1, 6); pad = rng.choice([0, 0, 1, 2, 3]); lo, hi = bounds(rng)
    if rng.random() < 0.05: h, w, n = 28, 28, 2
    if rng.random() < 0.04: pad = rng.choice([127, 128, 255]); n = req = 1; h, w = rng.randint(1, 3), rng.randint(1, 3)
    px = [[rng.choice([0, 255, 10, 13, 127, 128, rng.randrange(256)]) for _ in range(h*w)] for _ in range(n)]
    f = be32(2051) + be32(n) + be32(h) + be32(w) + b''.join(map(bytes, px))
    if mode == 'magic': f = rng.choice([be32(2049), u32(2051), corrupt(rng, be32(2051)), be32(2051 + 65536)]) + f[4:]
    if mode == 'absent': f = None
    if mode == 'cutmagic': f = f[:rng.randrange(4)]
    ok = mode == 'ok'; m = min(n, req) if ok else 0
    return Case('mnistimg', f, {'count': req, 'height': h, 'width': w, 'padding': pad}, {'lo': lo, 'hi': hi}, None, ret=m, floats=[padded(rng, px[i], h, w, pad, lo, hi) for i in range(m)], what=mode)
def gen_mnistlab(rng):
    mode = rng.choice(['ok']*6 + ['magic', 'absent', 'cutmagic'])
    n, req = rng.choice([0, 1, 2, 5, 300]), rng.choice([0, 1, 2, 3, 9, 400])
    l = bytes(rng.choice([rng.randrange(10), rng.randrange(256), 255, 10]) for _ in range(n)); f = be32(2049) + be32(n) + l
    if mode == 'magic': f = rng.choice([be32(2051), u32(2049), corrupt(rng, be32(2049))]) + f[4:]
    if mode == 'absent': f = None
    if mode == 'cutmagic': f = f[:rng.randrange(4)]
    m = min(n, req) if mode == 'ok' else 0
    return Case('mnistlab', f, {'count': req}, ret=m, bytes=[l[:m]] if m else [], what=mode)
def gen_endian(rng):
    v = rng.choice([rng.getrandbits(32), 1 << rng.randrange(32), 0xff << (8*rng.randrange(4)), 0, 0xffffffff])
    return Case('endian', None, {'value': v}, ret=int.from_bytes(v.to_bytes(4, 'little'), 'big'), what='value')
# ---------------------------------------------------------------- C22
def gen_readpgm(rng):
    mode = rng.choice(['ok']*6 + ['magic', 'absent', 'empty'])
    h, w = rng.randint(1, 7), rng.randint(1, 7); pad = rng.choice([0, 0, 1, 2]); lo, hi = bounds(rng)
    if rng.random() < 0.03: pad = rng.choice([127, 128, 255]); h, w = 2, 3
    if rng.random() < 0.05: h, w = rng.choice([(300, 2), (2, 300), (1, 700)])
    px = [rng.choice([0, 255, 10, 13, 32, 9, 127, 128, rng.randrange(256)]) for _ in range(h*w)]
    f = b'P5\n' + b'#' + bytes(rng.choice(b' abc-') for _ in range(rng.randint(0, 60))) + b'\n%d %d\n255\n' % (w, h) + bytes(px)
    if mode == 'magic': f = rng.choice([b'P2\n', b'P6\n', b'P5 \n', b'p5\n', b'P55\n', b'5P\n', b'\n']) + f[3:]
    if mode == 'absent': f = None
    if mode == 'empty': f = b''
    ok = mode == 'ok'
    return Case('readpgm', f, {'padding': pad}, {'lo': lo, 'hi': hi}, None, ret=0 if ok else None, floats=[padded(rng, px, h, w, pad, lo, hi)] if ok else [], outs={'height': h, 'width': w} if ok else {}, what=mode)
def image(rng):
    h, w = rng.randint(1, 7), rng.randint(1, 7)
    if rng.random() < 0.05: h, w = rng.choice([(300, 2), (2, 300), (1, 700)])
    s = rng.choice([1, 1, 50, 255, 3000, 1e6]); o = rng.choice([0, 0, 1, -1, 100, -100, 1500, -1500, 5000, -5000])
    px = [f32(rng.uniform(-1, 1)*s + o) for _ in range(h*w)]
    if rng.random() < 0.3: px = [f32(float(rng.randint(0, 255))) for _ in range(h*w)]
    if rng.random() < 0.15: px = [f32(o + s)]*(h*w)
    return h, w, px
def gen_writepgm(rng):
    h, w, px = image(rng); mode = rng.choice(['ok']*6 + ['nodir'])
    return Case('writepgm', None, {'height': h, 'width': w}, None, {'image': px}, ret=0 if mode == 'ok' else None, pgm=(h, w, px) if mode == 'ok' else None, what=mode)
def gen_writefloat(rng):
    h, w, px = image(rng); mode = rng.choice(['ok']*6 + ['nodir'])
    if rng.random() < 0.3: px = [rng.choice([x, -0.0, 1e-45, 3.4e38, f32(1e-40), f32(0.1)]) for x in px]
    px = [f32(x) for x in px]
    return Case('writefloat', None, {'height': h, 'width': w}, None, {'image': px}, ret=0 if mode == 'ok' else None, fimg=(h, w, px) if mode == 'ok' else None, what=mode)
# ---------------------------------------------------------------- C23
def gen_means(rng):
    mode = rng.choice(['ok']*5 + ['magic', 'absent', 'empty'])
    v = [f32(rng.choice([rng.gauss(0, 200), rng.uniform(0, 255), 0.0, -0.0, 123.675, 1e-40, 3e38])) for _ in range(3)]
    def hx(x): return x.hex().encode()
    f = b'FD\n' + b''.join(hx(x) + b'\n' for x in v)
    if mode == 'magic': f = rng.choice([b'FF\n', b'FD \n', b'fd\n', b'FDD\n', b'FD', b'\n', b'']) + (b'' if rng.random() < 0.3 else b'\n') + b''.join(hx(x) + b'\n' for x in v)
    if mode == 'magic' and f.startswith(b'FD\n'): f = b'F' + f
    if mode == 'absent': f = None
    if mode == 'empty': f = b''
    return Case('means', f, ret=0 if mode == 'ok' else None, words=[[struct.unpack('<I', struct.pack('<f', x))[0] for x in v]] if mode == 'ok' else [], what=mode)
def gen_labels(rng):
    mode = rng.choice(['ok']*6 + ['absent'])
    n = rng.choice([0, 1, 2, 5, 20]); cap = n + rng.choice([0, 0, 1, 5, 1000])
    if rng.random() < 0.08: n = rng.choice([999, 1000, 1001, 1500]); cap = n
    ls = [bytes(rng.choice(b'abc, xyzQ0-') for _ in range(rng.choice([0, 1, 3, 10, 60, 250]) if n < 50 else rng.randint(0, 6))) for _ in range(n)]
    f = b''.join(l + b'\n' for l in ls)
    if ls and ls[-1] and rng.random() < 0.3: f = f[:-1]       # no newline after the last line
    if mode == 'absent': f = None; ls = []
    return Case('labels', f, {'count': cap}, ret=len(ls), bytes=ls, what=mode)
def gen_vlabels(rng):
    mode = rng.choice(['ok']*6 + ['absent'])
    k = rng.choice([0, 1, 2, 5, 30]); n = k + 1
    cl = [rng.choice([rng.randrange(1000), 0, 9, 99, 999, 100, 1000, rng.randrange(1000, 10000)]) for _ in range(k)]
    f = b''.join(b'ILSVRC2012_val_%08d.JPEG %d\n' % (i + 1, c) for i, c in enumerate(cl))
    if cl and rng.random() < 0.3: f = f[:-1]
    if mode == 'absent': f = None
    ok = mode == 'ok'
    return Case('vlabels', f, {'count': n}, ret=n if ok else 0, words=[cl] if ok and k else [], what=mode)
# ---------------------------------------------------------------- C27
def encode(rng, w, h, comps, sub, busy, trailer):
    """a baseline JPEG file with arbitrary coefficients; libjpeg says what its samples are"""
    def seg(m, b): return bytes([255, m]) + struct.pack('>H', len(b) + 2) + b
    o = b'\xff\xd8' + seg(0xe0, b'JFIF\0\1\1\0\0\1\0\1\0\0')
    o += seg(0xdb, b'\0' + bytes([rng.choice([1, 8, 16])] + [rng.choice([4, 10, 20])]*63))
    f = [(1, sub if comps == 3 else (1, 1))] + ([(2, (1, 1)), (3, (1, 1))] if comps == 3 else [])
    o += seg(0xc0, b'\x08' + struct.pack('>HHB', h, w, comps) + b''.join(bytes([i, a*16 + b, 0]) for i, (a, b) in f))
    dc, ac = list(range(12)), [r*16 + s for r in range(16) for s in range(1, 11)] + [0, 0xf0]
    o += seg(0xc4, b'\0' + bytes([0, 0, 0, 12] + [0]*12) + bytes(dc)) + seg(0xc4, b'\x10' + bytes([0]*7 + [len(ac)] + [0]*8) + bytes(ac))
    o += seg(0xda, bytes([comps]) + b''.join(bytes([i, 0]) for i, _ in f) + b'\0\x3f\0')
    bits = []
    def put(v, n): bits.append((v, n))
    def mag(v): return abs(v).bit_length(), v if v >= 0 else v + (1 << abs(v).bit_length()) - 1
    mw, mh = 8*f[0][1][0], 8*f[0][1][1]; pred = {}
    for _ in range(-(-w//mw)*-(-h//mh)):
        for i, (a, b) in f:
            for _ in range(a*b):
                want = rng.randint(-60, 60) if rng.random() < 0.7 else pred.get(i, 0); d = want - pred.get(i, 0); pred[i] = want
                n, v = mag(d); put(n, 4)
                if n: put(v, n)
                k = 1
                while k < 64:
                    if rng.random() > busy: put(ac.index(0), 8); break
                    run = rng.choice([0, 0, 1, 3]); k += run + 1
                    if k > 64: put(ac.index(0), 8); break
                    n, v = mag(rng.choice([-9, -3, -1, 1, 2, 5])); put(ac.index(run*16 + n), 8); put(v, n)
    acc = n = 0; out = bytearray()
    for v, k in bits + [(127, 7)]:
        acc = (acc << k) | v; n += k
        while n >= 8:
            x = (acc >> (n - 8)) & 255; out.append(x); n -= 8; acc &= (1 << n) - 1
            if x == 255: out.append(0)
    return o + bytes(out) + trailer + b'\xff\xd9'
def gen_jpeg(rng):
    mode = rng.choice(['ok']*8 + ['absent']); w, h = rng.randint(1, 20), rng.randint(1, 20); busy = rng.choice([0, 0.5, 0.9]); comps = rng.choice([1, 3, 3]); lo, hi = bounds(rng)
    x = rng.random(); t = b''
    if x < 0.04: w, h, busy = rng.choice([(257, 2), (3, 300), (22000, 1), (1, 700), (9000, 2), (40000, 1), (280, 260), (700, 100)]) + (0,)
    if rng.random() < 0.25: t = b'\xff\xfe' + struct.pack('>H', 2 + 6000) + b'c'*6000       # the end of the image lies in another buffer
    f = encode(rng, w, h, comps, rng.choice([(1, 1), (2, 1), (2, 2)]), busy, t)
    if mode == 'absent': f = None
    return Case('readjpeg', f, None, {'lo': lo, 'hi': hi}, None, ret=0 if f else None, jpeg=(lo, hi) if f else None, what=mode)

GEN = {n[4:]: g for n, g in list(globals().items()) if n.startswith('gen_')}
def check(case, out):
    """[(aspect, message)]"""
    e = case.expect; bad = []
    c = out.crash()
    if c: return [(a, 'crash: ' + c if out.rc != 'timeout' else c) for a in ('post', 'memory' if out.rc != 'timeout' else 'termination')]
    if out.rc == 99: return [('harness', out.err[-200:])]
    if not out.end or not out.done: return [(a, 'the process ends with status %s' % out.rc) for a in ('post', 'exit')]
    outs = dict(out.outs); r = outs.get('ret')
    sg = lambda v: v - (1 << 32) if v is not None and v >> 31 else v
    if e['ret'] is None:
        if r == 0: bad.append(('post', 'a malformed file (%s) is accepted' % e['what']))
    elif r != e['ret']: bad.append(('post', 'returns %s, specified %s (%s)' % (sg(r), e['ret'], e['what'])))
    if out.fds: bad.append(('post', 'the file is not closed (%s)' % e['what']))
    if out.live: bad += [(a, '%d blocks are not released (%s)' % (out.live, e['what'])) for a in ('post', 'leak')]
    if bad: return bad
    for k, v in e.get('outs', {}).items():
        if outs.get(k) != v: bad.append(('post', '%s is %s, specified %s' % (k, outs.get(k), v)))
    for k, v in e.get('tensors', {}).items():
        got = [raw(x) for x in out.raw.get(k, [])]
        if got != v:
            i = next((i for i, (a, b) in enumerate(zip(got, v)) if a != b), min(len(got), len(v)))
            bad.append(('post', 'tensor %s[%d] is %s, specified %s' % (k, i, hex(got[i]) if i < len(got) else 'absent', hex(v[i]) if i < len(v) else 'absent')))
    bs = [bytes.fromhex(h) if h != 'absent' else None for _, h in out.bytes]
    if 'floats' in e:
        if len(bs) != len(e['floats']): bad.append(('post', 'number of images'))
        for n, (b, w) in enumerate(zip(bs, e['floats'])):
            got = struct.unpack('<%df' % (len(b)//4), b)
            if len(got) != len(w): bad.append(('post', 'image size')); continue
            for i, (g, x) in enumerate(zip(got, w)):
                if (x[0] == '=' and g != x[1]) or (x[0] == '~' and not abs(g - x[1]) <= x[2]): bad.append(('post', 'image %d, element %d is %r, specified %r' % (n, i, g, x[1]))); break
    if 'bytes' in e and bs != list(e['bytes']):
        i = next((i for i, (a, b) in enumerate(zip(bs, e['bytes'])) if a != b), None)
        bad.append(('post', 'entry %s is %r, specified %r' % (i, bs[i][:60] if i is not None else len(bs), e['bytes'][i][:60] if i is not None else len(e['bytes']))))
    if 'words' in e:
        ws = [list(struct.unpack('<%dI' % (len(b)//4), b)) for b in bs]
        if ws != e['words']: bad.append(('post', 'values are %s, specified %s' % (str(ws)[:80], str(e['words'])[:80])))
    if e.get('jpeg'): bad += judge_jpeg(bs, outs, *e['jpeg'])
    if e.get('pgm'): bad += judge_pgm(bs[0], *e['pgm'])
    if e.get('fimg'): bad += judge_float(bs[0], *e['fimg'])
    return bad
def judge_jpeg(bs, outs, lo, hi):
    if len(bs) != 4: return [('post', 'three planes are returned')]
    w, h, c = struct.unpack('<3I', bs[3][:12]); px = bs[3][12:]; r = abs(f32(lo - hi))
    if (outs.get('height'), outs.get('width')) != (h, w): return [('post', 'extents %s x %s, specified %s x %s' % (outs.get('height'), outs.get('width'), h, w))]
    for k in range(3):
        got = struct.unpack('<%df' % (h*w), bs[k])
        for i, g in enumerate(got):
            want = px[i*c + (2 - k if c == 3 else 0)]/255.0*r + lo
            if not abs(g - want) <= 4e-6*(r + abs(lo)) + 1e-12: return [('post', 'plane %d, element %d is %r, specified %r' % (k, i, g, want))]
    return []
def judge_pgm(b, h, w, px):
    if b is None: return [('post', 'no file is written')]
    # header: magic, comments and white space, width, height, maximum
    i = 2; vals = []
    if b[:2] != b'P5': return [('post', 'wrong magic number')]
    while len(vals) < 3:
        while i < len(b) and b[i:i+1].isspace(): i += 1
        if i < len(b) and b[i] == 35:
            while i < len(b) and b[i] != 10: i += 1
            continue
        j = i
        while j < len(b) and b[j:j+1].isdigit(): j += 1
        if j == i: return [('post', 'malformed PGM header')]
        vals.append(int(b[i:j])); i = j
    if not b[i:i+1].isspace(): return [('post', 'malformed PGM header')]
    i += 1; data = b[i:]
    if vals != [w, h, 255]: return [('post', 'PGM header %s, specified %s' % (vals, [w, h, 255]))]
    if len(data) != h*w: return [('post', '%d pixels, specified %d' % (len(data), h*w))]
    lo, hi = min(px), max(px)
    for k, x in enumerate(px):
        if hi == lo: 
            if data[k] != data[0]: return [('post', 'a constant image is not constant')]
            continue
        v = (x - lo)/(hi - lo)*255.0; t = 1e-4 + 1e-6*v + 255*1.2e-7*(abs(x) + abs(lo))/(hi - lo)
        if not (math.floor(v - t) <= data[k] <= math.floor(v + t)): return [('post', 'pixel %d is %d, specified %.4f truncated' % (k, data[k], v))]
    return []
def judge_float(b, h, w, px):
    if b is None: return [('post', 'no file is written')]
    ls = b.decode('latin1').split('\n')
    if ls[:1] != ['FF'] or ls[1:3] != [str(h), str(w)]: return [('post', 'header %s' % ls[:3])]
    try: got = [float.fromhex(x) for x in ls[3:] if x]
    except ValueError: return [('post', 'malformed value')]
    a = [struct.pack('<f', x) for x in px]
    if len(got) != len(px): return [('post', '%d values, specified %d' % (len(got), len(px)))]
    for k, g in enumerate(got):
        if struct.pack('<f', g) != a[k]: return [('post', 'value %d is %r, specified %r' % (k, g, px[k]))]
    return []
def run(N, case):
    """execute one case in a scratch directory"""
    d = os.path.join(N.dir, 'f%d_%d' % (os.getpid(), N.n)); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, 'file')
    if case.file is not None: open(p, 'wb').write(case.file)
    path = d if case.expect.get('what') != 'nodir' else os.path.join(d, 'missing')
    try: return N.run(case.text(path), timeout=10)
    finally:
        if os.path.exists(p): os.unlink(p)
        os.rmdir(d)
