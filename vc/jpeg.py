"""Assumed contract on libjpeg (decompression of a decodable file with one or three components, default settings).

The decoded samples are the ghost array jpeg.s: sample c of pixel x in row y is jpeg.s[(y*WIDTH + x)*COMP + c].  The
contract is a small state machine: create, source, header, start, one call of read_scanlines per row, finish, destroy;
the source file has to stay open from the first read to the end of finish_decompress, which reads up to the end of the image.
The offsets of the fields come from vh_jpeg_layout in harness.cpp, compiled against the same jpeglib.h as /repo's sources."""
from .core import *
from . import core, sx
from .sx import Unsupported, Base, Layer, DeadPath
WIDTH, HEIGHT = var('jpeg.w'), var('jpeg.h')
core.ARR_RANGE['jpeg.s'] = (0, 255)
def sample(o): return apoly(('ild', 'jpeg.s', P_(o)))
FIELDS = ('err', 'mem', 'client_data', 'src', 'image_width', 'image_height', 'num_components', 'out_color_space', 'output_width', 'output_height', 'out_color_components', 'output_components', 'output_scanline', 'size', 'alloc_sarray', 'err_size', 'global_state')
POINTERS = ('err', 'mem', 'client_data', 'src')
class Jpeg:
    def __init__(self, ex, comp):
        self.ex = ex; self.comp = comp
        E = ex.externs
        for n in ('std_error', 'CreateDecompress', 'stdio_src', 'read_header', 'start_decompress', 'read_scanlines', 'finish_decompress', 'destroy_decompress', 'destroy', 'abort_decompress', 'abort'):
            E['@jpeg_' + n] = getattr(self, {'destroy': 'destroy_decompress', 'abort_decompress': 'abort'}.get(n, n))
        E['@jpeg.alloc_sarray'] = self.alloc_sarray
        t = ex.mod.globals['@vh_jpeg_layout']; vals = [v[2] for _, v in t[2][1]]
        self.at = dict(zip(FIELDS, vals))
    def res(self, st, ins, v):
        if ins.res: st.env[ins.res] = v
    def info(self, ex, st, p, ins):
        if p[0] != 'ptr' or not p[2].is_const() or p[2] != ZERO or st.blk[p[1]].kind != 'cells': raise Unsupported('the decompression object is not a local variable')
        if not st.alive.get(p[1]): ex.record(st, 'free', False, ins, 'libjpeg is called with a dead object'); raise DeadPath()
        return p[1]
    def stage(self, st, b): return st.ghost.get('jpeg:%d' % b, 'none')
    def need(self, ex, st, b, ins, fn, *ok):
        s = self.stage(st, b)
        if s not in ok:
            ex.record(st, 'post', False, ins, '%s is called in the state "%s" (libjpeg ends the process)' % (fn, s)); raise DeadPath()
    def get(self, st, b, f): return st.mem[b][self.at[f]][1]
    def put(self, ex, st, b, f, v): ex.set_cell(st, b, self.at[f], 8 if f in POINTERS else 4, v)
    def openfile(self, ex, st, b, ins, fn):
        f = st.ghost.get('jpegfile:%d' % b)
        if not st.alive.get(f):
            for k in ('free', 'post'): ex.record(st, k, False, ins, '%s reads from a closed FILE' % fn)
            raise DeadPath()
        ex.record(st, 'free', True, ins, '%s: the file is open' % fn)
    def untouched(self, st, b):
        """the fields the caller may set between the header and the start have their default values"""
        ref = dict(st.ghost['jpegdef:%d' % b])
        for o, (n, v) in st.mem[b].items():
            if o in (self.at['err'], self.at['src'], self.at['mem']): continue
            if ref.get(o) != (n, v): raise Unsupported('the decompression parameters are changed (field at %d)' % o)
    # ---- entry points
    def std_error(self, ex, st, av, ins):
        p = av[0]
        if p[0] != 'ptr' or st.blk[p[1]].kind != 'cells' or not p[2].is_const(): raise Unsupported('the error manager is not a local variable')
        n = self.at['err_size']
        ex.record(st, 'bounds', prove(st.facts, le(p[2] + n, st.blk[p[1]].size), 2), ins, 'jpeg_std_error writes an error manager')
        self.res(st, ins, p); return None
    def CreateDecompress(self, ex, st, av, ins):
        ex.assumptions.add('libjpeg decodes the file (assumed contract in vc/jpeg.py: one or three components, default settings, extents at most 65535; a file it cannot decode ends the process)')
        b = self.info(ex, st, av[0], ins); n = self.at['size']
        ok = st.blk[b].size == const(n) and ex.exact_u(st, ex.ival(av[2]), 64) == const(n)
        ex.record(st, 'bounds', ok, ins, 'the decompression object has the size libjpeg expects')
        if not ok: raise DeadPath()
        e = st.mem[b].get(self.at['err'])
        if e is None or e[1][0] != 'ptr': ex.record(st, 'post', False, ins, 'jpeg_create_decompress is called without an error manager'); raise DeadPath()
        cells = {}; o = 0
        while o < n:
            w = 8 if o in {self.at[f] for f in POINTERS} else 4
            a = 'jpeg.field%d' % o
            if w == 4: core.ARR_RANGE[a] = (0, (1 << 32) - 1); cells[o] = (4, apoly(('ild', a, ZERO)))
            else: cells[o] = (8, ('null',))
            o += w
        cells[self.at['err']] = e
        m = ex.new_block(st, 'jpeg.mem', self.at['alloc_sarray'] + 8, 'cells', 'jpeg'); st.mem[m.id] = {self.at['alloc_sarray']: (8, ('fnp', '@jpeg.alloc_sarray'))}
        cells[self.at['mem']] = (8, ('ptr', m.id, ZERO)); st.mem[b] = cells
        st.ghost['jpeg:%d' % b] = 'created'; st.ghost['jpegmem:%d' % b] = (m.id,); return None
    def stdio_src(self, ex, st, av, ins):
        b = self.info(ex, st, av[0], ins); self.need(ex, st, b, ins, 'jpeg_stdio_src', 'created')
        st.ghost['jpegfile:%d' % b] = ex.files.stream(ex, st, av[1], ins, 'jpeg_stdio_src'); st.ghost['jpeg:%d' % b] = 'source'; return None
    def read_header(self, ex, st, av, ins):
        b = self.info(ex, st, av[0], ins); self.need(ex, st, b, ins, 'jpeg_read_header', 'source'); self.openfile(ex, st, b, ins, 'jpeg_read_header')
        self.put(ex, st, b, 'image_width', WIDTH); self.put(ex, st, b, 'image_height', HEIGHT); self.put(ex, st, b, 'num_components', const(self.comp))
        self.put(ex, st, b, 'out_color_space', const(1 if self.comp == 1 else 2))
        st.ghost['jpegdef:%d' % b] = tuple(st.mem[b].items()); st.ghost['jpeg:%d' % b] = 'header'; self.res(st, ins, ONE); return None
    def start_decompress(self, ex, st, av, ins):
        b = self.info(ex, st, av[0], ins); self.need(ex, st, b, ins, 'jpeg_start_decompress', 'header'); self.openfile(ex, st, b, ins, 'jpeg_start_decompress')
        self.untouched(st, b)
        for f, v in (('output_width', WIDTH), ('output_height', HEIGHT), ('out_color_components', const(self.comp)), ('output_components', const(self.comp)), ('output_scanline', ZERO)): self.put(ex, st, b, f, v)
        st.ghost['jpeg:%d' % b] = 'started'; self.res(st, ins, ONE); return None
    def alloc_sarray(self, ex, st, av, ins):
        b = self.info(ex, st, av[0], ins); n = ex.exact_u(st, ex.ival(av[2]), 32); rows = ex.exact_u(st, ex.ival(av[3]), 32)
        if self.stage(st, b) == 'none': raise Unsupported('alloc_sarray before the object exists')
        if not rows.is_const() or not 1 <= rows.cval() <= 16: raise Unsupported('alloc_sarray of %s rows' % show(rows))
        t = ex.new_block(st, 'jpeg.rows', 8*rows.cval(), 'cells', 'jpeg'); cells = {}; ids = [t.id]
        for i in range(rows.cval()):
            x = ex.array_block(st, 'jpeg.row%d' % i, n, ('i', 8), 1, Base('undef'), 'jpeg'); cells[8*i] = (8, ('ptr', x.id, ZERO)); st.alive[x.id] = True; ids.append(x.id)
        st.mem[t.id] = cells; st.ghost['jpegmem:%d' % b] += tuple(ids); self.res(st, ins, ('ptr', t.id, ZERO)); return None
    def read_scanlines(self, ex, st, av, ins):
        b = self.info(ex, st, av[0], ins); self.need(ex, st, b, ins, 'jpeg_read_scanlines', 'started'); self.openfile(ex, st, b, ins, 'jpeg_read_scanlines')
        n = ex.exact_u(st, ex.ival(av[2]), 32); s = self.get(st, b, 'output_scanline')
        if n != ONE: raise Unsupported('jpeg_read_scanlines of %s rows' % show(n))
        if not ex.probe and not prove(st.facts, lt(s, HEIGHT), 2): raise Unsupported('jpeg_read_scanlines after the last row')
        dst = ex.load(st, av[1], ('ptr',), ins); w = WIDTH*self.comp
        blk = ex.check_access(st, dst, 1, ins, True)
        if blk is None or blk.kind == 'opaque': raise Unsupported('jpeg_read_scanlines into opaque memory')
        if blk.kind == 'lazy': blk = ex.as_array(st, dst[1], 1, ('i', 8))
        if blk.kind != 'array' or blk.ety != ('i', 8): raise Unsupported('jpeg_read_scanlines into %s' % blk.kind)
        t = atom(('v', fresh('t'))); tp = Poly({(t,): 1}); s2 = st.clone(); s2.assume(conj([ge(tp), lt(tp, w)]))
        loc = ex.bound(s2, blk, dst[2] + tp, ins, 'jpeg_read_scanlines')
        st.mem[blk.id] = Layer(st.mem[blk.id], (t,), conj([ge(tp), lt(tp, w)]), dst[2] + tp, sample(s*w + tp), loc[0] if loc else None, loc[1] if loc else None)
        self.put(ex, st, b, 'output_scanline', s + ONE); self.res(st, ins, ONE); return None
    def release(self, st, b, keep):
        for m in st.ghost.get('jpegmem:%d' % b, ()):
            if m not in keep: st.alive[m] = False
    def finish_decompress(self, ex, st, av, ins):
        b = self.info(ex, st, av[0], ins); self.need(ex, st, b, ins, 'jpeg_finish_decompress', 'started'); self.openfile(ex, st, b, ins, 'jpeg_finish_decompress')
        s = self.get(st, b, 'output_scanline')
        ex.record(st, 'post', prove(st.facts, eq(s, HEIGHT), 2), ins, 'every row is read before jpeg_finish_decompress (libjpeg ends the process otherwise; rows read: %s)' % show(s))
        self.release(st, b, st.ghost['jpegmem:%d' % b][:1]); st.ghost['jpeg:%d' % b] = 'created'; self.res(st, ins, ONE); return None
    def abort(self, ex, st, av, ins):
        b = self.info(ex, st, av[0], ins)
        if self.stage(st, b) in ('none', 'destroyed'): raise Unsupported('jpeg_abort without an object')
        self.release(st, b, st.ghost['jpegmem:%d' % b][:1]); st.ghost['jpeg:%d' % b] = 'created'; return None
    def destroy_decompress(self, ex, st, av, ins):
        b = self.info(ex, st, av[0], ins)
        if self.stage(st, b) == 'none': ex.record(st, 'uninit', False, ins, 'jpeg_destroy_decompress of an object that was not created'); raise DeadPath()
        self.release(st, b, ()); st.ghost['jpeg:%d' % b] = 'destroyed'; return None
    def final(self, st, note, tag):
        for k, v in st.ghost.items():
            if isinstance(k, str) and k.startswith('jpeg:'): note('post', v == 'destroyed', 'the decompression object is destroyed%s' % tag)
