"""Parser for textual LLVM IR (LLVM 18, opaque pointers) -- the subset clang emits for /repo.

Only syntax lives here; semantics are in sx.py.  Anything not understood becomes an
instruction with op 'unknown', which the executor reports as unsupported when reached.
"""
import re, struct

class IRError(Exception):
    pass

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<local>%(?:"[^"]*"|[-\w.$]+))
 | (?P<glob>@(?:"[^"]*"|[-\w.$]+))
 | (?P<meta>!(?:"[^"]*"|[-\w.$]*))
 | (?P<attr>\#\d+)
 | (?P<num>-?0x[KLMHR]?[0-9A-Fa-f]+|-?\d+\.\d*(?:e[+-]?\d+)?|-?\d+)
 | (?P<word>[A-Za-z_][\w.]*)
 | (?P<punct>\.\.\.|[()\[\]{}<>,=*:;|$])
 | (?P<ws>\s+)
''', re.X)

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise IRError('token at %r' % s[i:i+40])
        i = m.end()
        k = m.lastgroup
        if k == 'ws':
            continue
        if k == 'punct' and m.group() == ';':
            break
        out.append((k, m.group()))
    return out

# ---- types: tuples -------------------------------------------------------
# ('i',w) ('f','float'|'double'|'x86_fp80') ('ptr',) ('void',) ('arr',n,t) ('struct',[t],packed) ('named',name) ('label',) ('meta',)
class P:
    """token stream"""
    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.mod = mod
    def peek(self, k=0):
        return self.t[self.i+k][1] if self.i+k < len(self.t) else None
    def kind(self, k=0):
        return self.t[self.i+k][0] if self.i+k < len(self.t) else None
    def next(self):
        v = self.t[self.i][1]; self.i += 1; return v
    def eat(self, s):
        if self.peek() == s:
            self.i += 1; return True
        return False
    def expect(self, s):
        if not self.eat(s):
            raise IRError('expected %s got %s in %s' % (s, self.peek(), ' '.join(x[1] for x in self.t[:60])))
    def is_type(self):
        k, v = self.kind(), self.peek()
        if k == 'word':
            return bool(re.fullmatch(r'i\d+|float|double|x86_fp80|ptr|void|label|metadata|half|token|opaque', v))
        if k == 'local':
            return v in self.mod.types
        return v in ('[', '{', '<')
    def type(self):
        v = self.next()
        if re.fullmatch(r'i\d+', v): t = ('i', int(v[1:]))
        elif v in ('float', 'double', 'x86_fp80', 'half'): t = ('f', v)
        elif v == 'ptr': t = ('ptr',)
        elif v == 'void': t = ('void',)
        elif v == 'label': t = ('label',)
        elif v == 'metadata': t = ('meta',)
        elif v == 'opaque': t = ('opaque',)
        elif v == 'token': t = ('token',)
        elif v == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']'); t = ('arr', n, e)
        elif v == '{' or v == '<':
            packed = False
            if v == '<':
                if self.peek() == '{':
                    self.next(); packed = True
                else:
                    n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>')
                    return ('vec', n, e)
            el = []
            if not self.eat('}'):
                while True:
                    el.append(self.type())
                    if self.eat('}'): break
                    self.expect(',')
            if packed: self.expect('>')
            t = ('struct', tuple(el), packed)
        elif v.startswith('%'): t = ('named', v)
        else:
            raise IRError('type? ' + v)
        if self.peek() == '(':      # function type
            d = 0
            while True:
                x = self.next()
                if x == '(': d += 1
                if x == ')':
                    d -= 1
                    if d == 0: break
            t = ('fn', t)
        return t

    def skip_attrs(self):
        """parameter / return attributes"""
        while True:
            v = self.peek(); k = self.kind()
            if k == 'word' and v in ATTRW:
                self.next()
                if v in ('align', ) and self.kind() == 'num': self.next()
                elif v in ('dereferenceable', 'dereferenceable_or_null', 'align', 'sret', 'byval', 'memory', 'range', 'allocsize','elementtype','captures','nofpclass') and self.peek() == '(':
                    d = 0
                    while True:
                        x = self.next()
                        if x == '(': d += 1
                        if x == ')':
                            d -= 1
                            if d == 0: break
            elif k == 'attr': self.next()
            else: break

    def value(self, ty):
        k, v = self.kind(), self.next()
        if k == 'local': return ('reg', v)
        if k == 'glob': return ('global', v)
        if k == 'num':
            if ty[0] == 'f': return ('fp', ty[1], parse_fp(v, ty[1]))
            return ('int', ty[1], int(v))
        if v == 'true': return ('int', 1, 1)
        if v == 'false': return ('int', 1, 0)
        if v == 'null': return ('null',)
        if v in ('undef', 'poison'): return ('undef',)
        if v == 'zeroinitializer': return ('zero',)
        if v == 'none': return ('undef',)
        if k == 'str': return ('cstr', parse_cstr(v))
        if v == 'getelementptr':
            inb = False
            while self.peek() in ('inbounds', 'nusw', 'nuw', 'inrange'):
                if self.peek() == 'inbounds': inb = True
                self.next()
                if self.peek() == '(' and self.kind(1) == 'num':
                    while self.next() != ')': pass
            self.expect('(')
            t = self.type(); ops = []
            while self.eat(','):
                while self.peek() == 'inrange': self.next()
                tt = self.type(); ops.append((tt, self.value(tt)))
            self.expect(')')
            return ('cgep', t, ops)
        if v in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast', 'trunc', 'zext', 'sext'):
            self.expect('(')
            t = self.type(); x = self.value(t); self.expect('to'); t2 = self.type(); self.expect(')')
            return ('ccast', v, t, x, t2)
        if v in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[v]
            packed = False
            if v == '<' and self.peek() == '{':
                self.next(); close = '}'; packed = True
            el = []
            if not self.eat(close):
                while True:
                    t = self.type(); el.append((t, self.value(t)))
                    if self.eat(close): break
                    self.expect(',')
            if packed: self.expect('>')
            return ('agg', el)
        raise IRError('value? %s' % v)

ATTRW = set('''noundef nonnull signext zeroext noalias nocapture readonly readnone writeonly returned align
dereferenceable dereferenceable_or_null sret byval inreg nest immarg swiftself noreturn nounwind mustprogress
noinline optnone inlinehint uwtable builtin nobuiltin nofree nosync willreturn cold hot memory allocsize
dso_local dso_preemptable hidden protected default internal private linkonce linkonce_odr weak weak_odr external
common appending unnamed_addr local_unnamed_addr fastcc ccc coldcc tailcc range elementtype allocptr writable
dead_on_unwind noext nofpclass captures available_externally extern_weak comdat'''.split())

def parse_cstr(v):
    s = v[2:-1] if v[0] == 'c' else v[1:-1]
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i+1:i+3], 16)); i += 3
        else: out.append(ord(s[i])); i += 1
    return bytes(out)

def parse_fp(v, ty):
    if v.startswith('0xK'):
        h = int(v[3:], 16)
        sign = -1 if h >> 79 else 1
        e = (h >> 64) & 0x7fff; m = h & ((1 << 64)-1)
        if m == 0: return 0.0 * sign
        from fractions import Fraction
        return float(sign * Fraction(m) * Fraction(2)**(e-16383-63))
    if v.startswith('0x') or v.startswith('-0x'):
        return struct.unpack('>d', struct.pack('>Q', int(v, 16)))[0]
    return float(v)

class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'line', 'text')
    def __init__(self, op, res=None, ty=None, a=None, line=0, text=''):
        self.op = op; self.res = res; self.ty = ty; self.a = a; self.line = line; self.text = text
    def __repr__(self):
        return '%s = %s %s %s' % (self.res, self.op, self.ty, self.a)

class Block:
    __slots__ = ('name', 'instrs', 'phis', 'succs', 'preds')
    def __init__(self, name):
        self.name = name; self.instrs = []; self.phis = []; self.succs = []; self.preds = []

class Function:
    def __init__(self, name, rty, params, mod, src=None):
        self.name = name; self.rty = rty; self.params = params  # [(type, regname)]
        self.mod = mod; self.src = src   # list of body lines or None
        self._blocks = None; self.subprogram = None
    @property
    def is_decl(self): return self.src is None
    @property
    def blocks(self):
        if self._blocks is None: self._parse()
        return self._blocks
    def _parse(self):
        blocks = {}; cur = None; order = []
        lines = self.src
        i = 0; first = True
        while i < len(lines):
            ln = lines[i]; i += 1
            s = ln.strip()
            if not s or s.startswith(';'): continue
            m = re.match(r'^("(?:[^"]*)"|[-\w.$]+):', ln)
            if m:
                nm = '%' + m.group(1)
                cur = Block(nm); blocks[nm] = cur; order.append(nm); first = False
                continue
            if first:
                # unnamed entry block takes the next number
                nm = '%' + str(len(self.params))
                cur = Block(nm); blocks[nm] = cur; order.append(nm); first = False
            if s.startswith('switch') or ' = switch' in s:
                while ']' not in s:
                    s += ' ' + lines[i].strip(); i += 1
            if 'landingpad' in s or s.startswith('invoke') or ' = invoke' in s:
                while i < len(lines) and re.match(r'^\s+(to label|catch|cleanup|filter)', lines[i]):
                    s += ' ' + lines[i].strip(); i += 1
            try:
                ins = parse_instr(s, self.mod)
            except IRError as e:
                ins = Instr('unknown', None, None, str(e))
            ins.text = s
            if ins.op == 'dbg': continue
            if ins.op == 'phi': cur.phis.append(ins)
            else: cur.instrs.append(ins)
        for nm in order:
            b = blocks[nm]
            t = b.instrs[-1]
            if t.op == 'br': b.succs = [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
            elif t.op == 'switch': b.succs = [t.a[2]] + [x[1] for x in t.a[3]]
            else: b.succs = []
        for nm in order:
            for s in blocks[nm].succs:
                if nm not in blocks[s].preds: blocks[s].preds.append(nm)
        self._blocks = blocks; self.order = order; self.entry = order[0]

BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CAST = set('zext sext trunc fptrunc fpext fptoui fptosi uitofp sitofp ptrtoint inttoptr bitcast'.split())

def parse_instr(s, mod):
    line = 0
    m = re.search(r', !dbg !(\d+)', s)
    if m:
        line = mod.dbgline(int(m.group(1)))
    s = re.sub(r'(, ![\w.]+ ![\w.]+)+\s*$', '', s)
    s = re.sub(r',? !srcloc ![0-9]+', '', s)
    if s.startswith('call void @llvm.dbg') or s.startswith('#dbg'):
        return Instr('dbg')
    p = P(tokenize(s), mod)
    res = None
    if p.kind() == 'local' and p.peek(1) == '=':
        res = p.next(); p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in BIN:
        fl = set()
        while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
            fl.add(p.next())
        t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return Instr(op, res, t, (a, b, fl), line)
    if op == 'fneg':
        while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'contract', 'afn', 'reassoc', 'arcp'): p.next()
        t = p.type(); return Instr(op, res, t, (p.value(t),), line)
    if op in ('icmp', 'fcmp'):
        while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'contract', 'afn', 'reassoc', 'arcp', 'samesign'): p.next()
        pr = p.next(); t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return Instr(op, res, t, (pr, a, b), line)
    if op in CAST:
        while p.peek() in ('nneg', 'nuw', 'nsw'): p.next()
        t = p.type(); v = p.value(t); p.expect('to'); t2 = p.type()
        return Instr(op, res, t2, (v, t), line)
    if op == 'freeze':
        t = p.type(); return Instr(op, res, t, (p.value(t),), line)
    if op == 'select':
        while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'contract', 'afn', 'reassoc', 'arcp'): p.next()
        t0 = p.type(); c = p.value(t0); p.expect(','); t = p.type(); a = p.value(t); p.expect(','); t2 = p.type(); b = p.value(t2)
        return Instr(op, res, t, (c, a, b), line)
    if op == 'phi':
        while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'contract', 'afn', 'reassoc', 'arcp'): p.next()
        t = p.type(); inc = []
        while True:
            p.expect('['); v = p.value(t); p.expect(','); b = p.next(); p.expect(']')
            inc.append((v, b))
            if not p.eat(','): break
        return Instr(op, res, t, inc, line)
    if op == 'br':
        if p.peek() == 'label':
            p.next(); return Instr(op, None, None, [p.next()], line)
        t = p.type(); c = p.value(t); p.expect(','); p.expect('label'); a = p.next(); p.expect(','); p.expect('label'); b = p.next()
        return Instr(op, None, None, [c, a, b], line)
    if op == 'switch':
        t = p.type(); v = p.value(t); p.expect(','); p.expect('label'); d = p.next(); p.expect('[')
        cs = []
        while not p.eat(']'):
            tt = p.type(); c = p.value(tt); p.expect(','); p.expect('label'); cs.append((c, p.next()))
        return Instr(op, None, None, [t, v, d, cs], line)
    if op == 'ret':
        t = p.type()
        return Instr(op, None, t, None if t == ('void',) else p.value(t), line)
    if op == 'unreachable':
        return Instr(op, None, None, None, line)
    if op == 'load':
        while p.peek() in ('volatile', 'atomic'): p.next()
        t = p.type(); p.expect(','); pt = p.type(); v = p.value(pt)
        return Instr(op, res, t, (v,), line)
    if op == 'store':
        while p.peek() in ('volatile', 'atomic'): p.next()
        t = p.type(); v = p.value(t); p.expect(','); pt = p.type(); q = p.value(pt)
        return Instr(op, None, t, (v, q), line)
    if op == 'alloca':
        t = p.type(); n = ('int', 32, 1)
        if p.eat(','):
            if p.is_type():
                nt = p.type(); n = p.value(nt)
        return Instr(op, res, t, (n,), line)
    if op == 'getelementptr':
        inb = False
        while p.peek() in ('inbounds', 'nusw', 'nuw'):
            inb = inb or p.peek() == 'inbounds'; p.next()
        t = p.type(); p.expect(','); pt = p.type(); b = p.value(pt); idx = []
        while p.eat(','):
            it = p.type(); idx.append((it, p.value(it)))
        return Instr(op, res, t, (b, idx, inb), line)
    if op == 'extractvalue':
        t = p.type(); v = p.value(t); idx = []
        while p.eat(','): idx.append(int(p.next()))
        return Instr(op, res, t, (v, idx), line)
    if op == 'insertvalue':
        t = p.type(); v = p.value(t); p.expect(','); t2 = p.type(); w = p.value(t2); idx = []
        while p.eat(','): idx.append(int(p.next()))
        return Instr(op, res, t, (v, t2, w, idx), line)
    if op == 'call':
        while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'contract', 'afn', 'reassoc', 'arcp', 'fastcc', 'ccc'): p.next()
        p.skip_attrs()
        t = p.type()
        if t[0] == 'fn': t = t[1]
        p.skip_attrs()
        callee = p.value(('ptr',))
        p.expect('(')
        args = []
        if not p.eat(')'):
            while True:
                if p.eat('...'):
                    pass
                else:
                    at = p.type(); p.skip_attrs()
                    if at[0] == 'meta':
                        d = 0
                        while p.peek() not in (',', ')') or d:
                            x = p.next()
                            if x == '(': d += 1
                            if x == ')': d -= 1
                        args.append((at, ('undef',)))
                    else:
                        args.append((at, p.value(at)))
                if p.eat(')'): break
                p.expect(',')
        return Instr(op, res, t, (callee, args), line)
    return Instr('unknown', res, None, s, line)

class Module:
    def __init__(self, text):
        self.types = {}; self.globals = {}; self.functions = {}; self.meta = {}
        self._dbg = {}
        self._scope_file = {}
        lines = text.split('\n')
        i = 0
        tl = []
        for ln in lines:
            m = re.match(r'^(%(?:"[^"]*"|[-\w.$]+)) = type (.*)$', ln)
            if m: self.types[m.group(1)] = None; tl.append((m.group(1), m.group(2)))
        for nm, rhs in tl:
            self.types[nm] = P(tokenize(rhs), self).type()
        while i < len(lines):
            ln = lines[i]
            if ln.startswith('define '):
                hdr = ln; body = []; i += 1
                while lines[i] != '}':
                    body.append(lines[i]); i += 1
                f = self._fn(hdr, body)
                self.functions[f.name] = f
            elif ln.startswith('declare '):
                f = self._fn(ln, None)
                self.functions[f.name] = f
            elif ln.startswith('@'):
                self._global(ln)
            elif ln.startswith('!'):
                m = re.match(r'^!(\d+) = (.*)$', ln)
                if m: self.meta[int(m.group(1))] = m.group(2)
            i += 1
    def dbgline(self, n):
        if n not in self._dbg:
            m = re.search(r'DILocation\(line: (\d+)', self.meta.get(n, ''))
            self._dbg[n] = int(m.group(1)) if m else 0
        return self._dbg[n]
    def _fn(self, hdr, body):
        m = re.search(r'(@(?:"[^"]*"|[-\w.$]+))\(', hdr)
        name = m.group(1)
        pre = hdr[:m.start()]
        sub = re.search(r'!dbg !(\d+)', hdr)
        toks = tokenize(re.sub(r'!dbg !\d+', '', hdr[m.end()-1:].rstrip('{').strip()))
        p = P(toks, self)
        p.expect('(')
        params = []
        vararg = False
        if not p.eat(')'):
            while True:
                if p.eat('...'): vararg = True
                else:
                    t = p.type(); p.skip_attrs()
                    nm = None
                    if p.kind() == 'local': nm = p.next()
                    params.append((t, nm if nm else '%%%d' % len(params)))
                if p.eat(')'): break
                p.expect(',')
        rp = P(tokenize(pre.split(' ', 1)[1]), self)
        rp.skip_attrs()
        rty = rp.type()
        f = Function(name, rty, params, self, body)
        f.vararg = vararg
        f.noreturn = False
        f.attrs = hdr[m.end():]
        f.subprogram = int(sub.group(1)) if sub else None
        return f
    def fn_file(self, f):
        if f.subprogram is None: return '?'
        s = self.meta.get(f.subprogram, '')
        m = re.search(r'file: !(\d+)', s)
        if not m: return '?'
        g = re.search(r'filename: "([^"]*)"', self.meta.get(int(m.group(1)), ''))
        return g.group(1) if g else '?'
    def _global(self, ln):
        ln = re.sub(r', !dbg !\d+', '', ln)
        m = re.match(r'^(@(?:"[^"]*"|[-\w.$]+)) = (.*)$', ln)
        name, rest = m.group(1), m.group(2)
        kind = None
        mm = re.search(r'\b(global|constant|alias|ifunc)\b', rest)
        if not mm or mm.group(1) in ('alias', 'ifunc'):
            if mm and mm.group(1) == 'alias':
                a = re.search(r'(@(?:"[^"]*"|[-\w.$]+))\s*$', rest)
                self.globals[name] = ('alias', a.group(1) if a else None)
            return
        rest2 = rest[mm.end():]
        try:
            p = P(tokenize(rest2), self)
            t = p.type()
            init = None
            if p.i < len(p.t) and p.peek() != ',':
                init = p.value(t)
            self.globals[name] = (mm.group(1), t, init, 'external' in rest[:mm.start()])
        except (IRError, IndexError) as e:
            self.globals[name] = (mm.group(1), None, None, True)

    # ---- layout (x86-64) ----
    def resolve(self, t):
        while t[0] == 'named': t = self.types[t[1]]
        return t
    def align(self, t):
        t = self.resolve(t)
        if t[0] == 'i': return max(1, min(8, (t[1]+7)//8)) if t[1] <= 64 else 16
        if t[0] == 'f': return {'half': 2, 'float': 4, 'double': 8, 'x86_fp80': 16}[t[1]]
        if t[0] == 'ptr': return 8
        if t[0] == 'arr': return self.align(t[2])
        if t[0] == 'struct': return 1 if t[2] else max([1]+[self.align(x) for x in t[1]])
        raise IRError('align %s' % (t,))
    def size(self, t):
        t = self.resolve(t)
        if t[0] == 'i': return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}[t[1]]
        if t[0] == 'f': return {'half': 2, 'float': 4, 'double': 8, 'x86_fp80': 16}[t[1]]
        if t[0] == 'ptr': return 8
        if t[0] == 'arr': return t[1]*self.size(t[2])
        if t[0] == 'struct':
            o = 0
            for x in t[1]:
                if not t[2]:
                    a = self.align(x); o = (o+a-1)//a*a
                o += self.size(x)
            a = self.align(t); return (o+a-1)//a*a
        raise IRError('size %s' % (t,))
    def field_off(self, t, k):
        t = self.resolve(t); o = 0
        for j, x in enumerate(t[1]):
            if not t[2]:
                a = self.align(x); o = (o+a-1)//a*a
            if j == k: return o, x
            o += self.size(x)
        raise IRError('field')
