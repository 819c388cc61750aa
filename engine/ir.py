"""Textual LLVM-IR (LLVM 18, opaque pointers) parser.

The module is indexed by line scanning; function bodies are parsed on first
use.  Types are represented as tuples:
  ('i', n) ('p',) ('f', bits) ('v',) ('s', (types...), packed) ('a', n, t) ('vec', n, t)
  ('n', name) for a named struct (resolved through Module.types)
"""
import re

class IRError(Exception):
    pass

TOK = re.compile(r'''\s*(?:
   (?P<cstr>c"(?:[^"])*")
 | (?P<id>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:"[^"]*"|[-a-zA-Z$._0-9]*))
 | (?P<attr>\#\d+)
 | (?P<str>"[^"]*")
 | (?P<num>-?(?:0x[KMLHR]?[0-9A-Fa-f]+|\d+\.\d+(?:e[+-]?\d+)?|\d+))
 | (?P<word>[a-zA-Z_$][-a-zA-Z$._0-9]*)
 | (?P<punct>\.\.\.|[=,()\[\]{}<>*:|])
)''', re.X)

I1 = ('i', 1); I8 = ('i', 8); I32 = ('i', 32); I64 = ('i', 64)
PTR = ('p',)
VOID = ('v',)
ITY = {n: ('i', n) for n in range(1, 257)}

def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    m = TOK.match
    while pos < n:
        mm = m(s, pos)
        if not mm:
            if s[pos:].strip() == '' or s[pos:].lstrip().startswith(';'):
                break
            raise IRError('cannot tokenize: ' + s[pos:pos+60])
        k = mm.lastgroup
        out.append((k, mm.group(k)))
        pos = mm.end()
    return out

def unquote_ident(t):
    if t[1] == '"':
        return t[0] + re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), t[2:-1])
    return t

def parse_cstr(t):
    s = t[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\':
                out.append(0x5c); i += 2
            else:
                out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)

FLOATW = {'half': 16, 'bfloat': 16, 'float': 32, 'double': 64, 'x86_fp80': 80, 'fp128': 128}

class P:
    """token cursor"""
    __slots__ = ('t', 'i', 'mod')
    def __init__(self, toks, mod, i=0):
        self.t = toks; self.i = i; self.mod = mod
    def peek(self):
        return self.t[self.i][1] if self.i < len(self.t) else None
    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None
    def next(self):
        v = self.t[self.i][1]; self.i += 1
        return v
    def accept(self, s):
        if self.i < len(self.t) and self.t[self.i][1] == s:
            self.i += 1
            return True
        return False
    def expect(self, s):
        if not self.accept(s):
            raise IRError('expected %r got %r in %r' % (s, self.peek(), [x[1] for x in self.t[:40]]))
    def done(self):
        return self.i >= len(self.t)

    def is_type_start(self):
        k, v = self.t[self.i]
        if k == 'word':
            return v in ('ptr', 'void', 'label', 'metadata', 'token', 'opaque') or v in FLOATW or re.fullmatch(r'i\d+', v)
        if k == 'id':
            return v[0] == '%'
        return v in '[{<'

    def type(self):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'word':
            if v == 'ptr':
                if self.peek() == 'addrspace':
                    self.i += 4
                base = PTR
            elif v == 'void':
                base = VOID
            elif v[0] == 'i' and v[1:].isdigit():
                base = ITY[int(v[1:])]
            elif v in FLOATW:
                base = ('f', FLOATW[v])
            elif v in ('label', 'metadata', 'token', 'opaque'):
                base = (v,)
            else:
                raise IRError('type? ' + v)
        elif k == 'id':
            base = ('n', unquote_ident(v))
        elif v == '[':
            n = int(self.next()); self.expect('x'); t = self.type(); self.expect(']')
            base = ('a', n, t)
        elif v == '{':
            base = self.struct_rest('}', False)
        elif v == '<':
            if self.accept('{'):
                base = self.struct_rest('}', True); self.expect('>')
            else:
                n = int(self.next()); self.expect('x'); t = self.type(); self.expect('>')
                base = ('vec', n, t)
        else:
            raise IRError('type? %r' % (v,))
        # function type: T (args)
        return base

    def struct_rest(self, close, packed):
        fs = []
        if self.accept(close):
            return ('s', (), packed)
        while True:
            fs.append(self.type())
            if self.accept(close):
                break
            self.expect(',')
        return ('s', tuple(fs), packed)

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    # value of a given type -> operand
    # operands: ('r', name) | ('g', name) | ('c', int) | ('undef',) | ('poison',) |('agg', [ops], ty)|
    #           ('zero', ty) | ('expr', op, ...) | ('str', bytes)
    def value(self, ty):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'id':
            v = unquote_ident(v)
            return ('r', v) if v[0] == '%' else ('g', v)
        if k == 'num':
            if ty[0] == 'f':
                return ('c', parse_float(v, ty[1]))
            n = int(v)
            return ('c', n & ((1 << ty[1]) - 1)) if ty[0] == 'i' else ('c', n)
        if k == 'cstr':
            return ('str', parse_cstr(v))
        if k == 'meta':
            # metadata argument
            return ('undef',)
        if k == 'word':
            if v == 'true':
                return ('c', 1)
            if v == 'false':
                return ('c', 0)
            if v == 'null':
                return ('c', 0)
            if v == 'zeroinitializer' or v == 'none':
                return ('zero', ty)
            if v == 'undef':
                return ('undef',)
            if v == 'poison':
                return ('poison',)
            if v == 'getelementptr':
                flags = []
                while self.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                    if self.next() == 'inrange' and self.peek() == '(':
                        self.skip_parens()
                self.expect('(')
                bt = self.type(); self.expect(',')
                pt = self.type(); base = self.value(pt)
                idx = []
                while self.accept(','):
                    self.accept('inrange')
                    it = self.type(); idx.append((it, self.value(it)))
                self.expect(')')
                return ('expr', 'gep', bt, base, idx)
            if v in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'trunc', 'zext', 'sext'):
                self.expect('(')
                t1 = self.type(); x = self.value(t1); self.expect('to'); t2 = self.type(); self.expect(')')
                return ('expr', v, t1, x, t2)
            if v in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                while self.peek() in ('nuw', 'nsw', 'exact'):
                    self.next()
                self.expect('(')
                t1 = self.type(); a = self.value(t1); self.expect(',')
                t2 = self.type(); b = self.value(t2); self.expect(')')
                return ('expr', 'bin', v, t1, a, b)
            if v == 'icmp':
                pred = self.next()
                self.expect('(')
                t1 = self.type(); a = self.value(t1); self.expect(',')
                t2 = self.type(); b = self.value(t2); self.expect(')')
                return ('expr', 'icmp', pred, t1, a, b)
            if v == 'select':
                self.expect('(')
                t0 = self.type(); c = self.value(t0); self.expect(',')
                t1 = self.type(); a = self.value(t1); self.expect(',')
                t2 = self.type(); b = self.value(t2); self.expect(')')
                return ('expr', 'select', c, a, b)
            if v in ('dso_local_equivalent', 'no_cfi'):
                return self.value(ty)
            if v == 'asm':
                while self.kind() == 'word':
                    self.next()
                a = self.next(); self.expect(','); b = self.next()
                return ('asm', a, b)
            if v == 'splat':
                self.expect('(')
                t1 = self.type(); a = self.value(t1); self.expect(')')
                return ('agg', [a] * ty[1], ty)
        if v in '[{':
            close = ']' if v == '[' else '}'
            els = []
            if not self.accept(close):
                while True:
                    t = self.type(); els.append(self.value(t))
                    if self.accept(close):
                        break
                    self.expect(',')
            return ('agg', els, ty)
        if v == '<':
            if self.accept('{'):
                els = []
                if not self.accept('}'):
                    while True:
                        t = self.type(); els.append(self.value(t))
                        if self.accept('}'):
                            break
                        self.expect(',')
                self.expect('>')
                return ('agg', els, ty)
            els = []
            while True:
                t = self.type(); els.append(self.value(t))
                if self.accept('>'):
                    break
                self.expect(',')
            return ('agg', els, ty)
        raise IRError('value? %r %r' % (k, v))

    def skip_attrs(self):
        """parameter attributes; returns dict of the ones that matter"""
        at = {}
        while not self.done():
            k, v = self.t[self.i]
            if k == 'attr':
                self.i += 1; continue
            if k == 'str':
                self.i += 1
                if self.accept('='):
                    self.i += 1
                continue
            if k != 'word':
                break
            if v in VALUE_WORDS:
                break
            self.i += 1
            if v in ('byval', 'sret', 'inalloca', 'preallocated', 'elementtype', 'byref'):
                self.expect('('); t = self.type(); self.expect(')')
                at[v] = t
            elif v == 'align' or v == 'alignstack':
                if self.peek() == '(':
                    self.skip_parens()
                else:
                    self.next()
            elif self.peek() == '(' and v in ATTR_PAREN:
                self.skip_parens()
        return at

ATTR_PAREN = {'dereferenceable', 'dereferenceable_or_null', 'memory', 'allocsize', 'vscale_range', 'uwtable',
              'allockind', 'nofpclass', 'range', 'initializes'}
VALUE_WORDS = {'true', 'false', 'null', 'zeroinitializer', 'none', 'undef', 'poison', 'getelementptr', 'bitcast',
               'ptrtoint', 'inttoptr', 'addrspacecast', 'trunc', 'zext', 'sext', 'add', 'sub', 'mul', 'and', 'or',
               'xor', 'shl', 'lshr', 'ashr', 'icmp', 'select', 'dso_local_equivalent', 'no_cfi', 'asm', 'splat'}

import struct
def parse_float(v, bits):
    if v.startswith('0x'):
        if v[2] in 'KMLHR':
            return int(v[3:], 16)
        d = int(v, 16)
        if bits == 64:
            return d
        if bits == 32:
            # hex double representation of a float
            return double_bits_to_float_bits(d)
        raise IRError('fp const ' + v)
    f = float(v)
    if bits == 64:
        return struct.unpack('<Q', struct.pack('<d', f))[0]
    if bits == 32:
        return struct.unpack('<I', struct.pack('<f', f))[0]
    raise IRError('fp const ' + v)

def double_bits_to_float_bits(d):
    s = d >> 63; e = (d >> 52) & 0x7ff; m = d & ((1 << 52) - 1)
    if e == 0x7ff:
        return (s << 31) | (0xff << 23) | (m >> 29)
    f = struct.unpack('<d', struct.pack('<Q', d))[0]
    return struct.unpack('<I', struct.pack('<f', f))[0]

class Function:
    def __init__(self, name, header, lines):
        self.name = name
        self.header = header
        self.lines = lines
        self.parsed = False
        self.ret = None
        self.params = []     # (type, attrs, regname)
        self.blocks = None
        self.entry = None
        self.vararg = False
        self.ninstr = 0

class Module:
    def __init__(self, text, name=''):
        self.name = name
        self.types = {}
        self.raw_types = {}
        self.raw_globals = {}
        self.functions = {}
        self.declares = set()
        self.aliases = {}
        self._size = {}
        self._layout = {}
        self.index(text)

    def index(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        gname = re.compile(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))')
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                m = gname.search(l)
                name = unquote_ident(m.group(1))
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.functions[name] = Function(name, l, lines[i+1:j])
                i = j + 1
                continue
            if l.startswith('%'):
                k = l.index(' = type ')
                self.raw_types[unquote_ident(l[:k])] = l[k+8:]
            elif l.startswith('@'):
                m = gname.match(l)
                self.raw_globals[unquote_ident(m.group(1))] = l[m.end():]
            elif l.startswith('declare '):
                m = gname.search(l)
                self.declares.add(unquote_ident(m.group(1)))
            i += 1

    # ---- types
    def resolve(self, t):
        while t[0] == 'n':
            r = self.types.get(t[1])
            if r is None:
                raw = self.raw_types[t[1]]
                r = P(tokenize(raw), self).type()
                self.types[t[1]] = r
            t = r
        return t

    def size_align(self, t):
        r = self._size.get(t)
        if r is not None:
            return r
        u = self.resolve(t)
        k = u[0]
        if k == 'i':
            n = (u[1] + 7) // 8
            if n > 8:
                a = 16; n = (n + 15) // 16 * 16
            else:
                p = 1
                while p < n:
                    p *= 2
                a = p; n = p
            r = (n, a)
        elif k == 'p':
            r = (8, 8)
        elif k == 'f':
            r = {16: (2, 2), 32: (4, 4), 64: (8, 8), 80: (16, 16), 128: (16, 16)}[u[1]]
        elif k == 'a':
            s, a = self.size_align(u[2])
            r = (s * u[1], a)
        elif k == 'vec':
            et = self.resolve(u[2])
            if et[0] == 'i' and et[1] == 1:
                s = max(1, (u[1] + 7) // 8)
            else:
                s = self.size_align(et)[0] * u[1]
            p = 1
            while p < s:
                p *= 2
            r = (p, p)
        elif k == 's':
            offs, s, a = self.layout(u)
            r = (s, a)
        elif k == 'opaque':
            r = (0, 1)
        else:
            raise IRError('size of %r' % (u,))
        self._size[t] = r
        return r

    def sizeof(self, t):
        return self.size_align(t)[0]

    def layout(self, u):
        u = self.resolve(u)
        r = self._layout.get(u)
        if r is not None:
            return r
        off = 0; al = 1; offs = []
        for f in u[1]:
            s, a = self.size_align(f)
            if u[2]:
                a = 1
            off = (off + a - 1) // a * a
            offs.append(off)
            off += s
            al = max(al, a)
        size = (off + al - 1) // al * al
        r = (offs, size, al)
        self._layout[u] = r
        return r

    # ---- functions
    def parse_header(self, f):
        p = P(tokenize(f.header), self)
        p.expect('define')
        # linkage etc.
        while True:
            k, v = p.t[p.i]
            if k == 'word' and not p.is_type_start():
                p.i += 1
                if p.peek() == '(':
                    p.skip_parens()
                elif v == 'align':
                    p.next()
                continue
            break
        # ret attrs were skipped above as words (noundef, nonnull, align 8, dereferenceable(..))
        while p.kind() == 'num':
            p.i += 1
            p.skip_attrs()
        f.ret = p.type()
        nm = unquote_ident(p.next())
        assert nm == f.name, (nm, f.name)
        p.expect('(')
        cnt = 0
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    f.vararg = True
                    p.expect(')')
                    break
                t = p.type()
                at = p.skip_attrs()
                if p.kind() == 'id':
                    nme = unquote_ident(p.next())
                else:
                    nme = '%' + str(cnt)
                cnt += 1
                f.params.append((t, at, nme))
                if p.accept(')'):
                    break
                p.expect(',')

    def parse_function(self, f):
        if f.parsed:
            return f
        self.parse_header(f)
        blocks = {}
        cur = None
        order = []
        label = re.compile(r'^((?:"[^"]*"|[-a-zA-Z$._0-9]+)):')
        lines = f.lines
        i = 0
        nparams = len(f.params)
        # implicit label of the entry block
        entry_name = None
        pending = []
        for l in lines:
            s = l
            if not s.strip() or s.lstrip().startswith(';'):
                continue
            m = label.match(s) if s[0] != ' ' else None
            if m:
                nm = m.group(1)
                if nm[0] == '"':
                    nm = unquote_ident('%' + nm)[1:]
                cur = []
                blocks[nm] = cur
                order.append(nm)
                continue
            if cur is None:
                nm = str(sum(1 for p in f.params if re.fullmatch(r'%\d+', p[2])))
                cur = []
                blocks[nm] = cur
                order.append(nm)
            cur.append(s)
        out = {}
        for nm in order:
            raw = blocks[nm]
            joined = []
            for s in raw:
                st = s.strip()
                # continuation lines: landingpad clauses, switch tables, invoke 'to label'
                if joined and (st.startswith(('catch ', 'filter ', 'cleanup', 'to label', ']')) or
                               (joined[-1].rstrip().endswith('[') and 'switch' in joined[-1]) or
                               (joined[-1].lstrip().startswith('switch') and not joined[-1].rstrip().endswith(']') and ']' not in joined[-1])):
                    joined[-1] += ' ' + st
                else:
                    joined.append(s)
            out[nm] = [self.parse_instr(tokenize(strip_meta(s)), s) for s in joined]
            f.ninstr += len(out[nm])
        f.blocks = out
        f.entry = order[0]
        f.parsed = True
        f.lines = None
        return f

    def parse_instr(self, toks, src):
        p = P(toks, self)
        res = None
        if p.kind() == 'id' and len(toks) > 1 and toks[1][1] == '=':
            res = unquote_ident(p.next()); p.expect('=')
        op = p.next()
        d = {'op': op, 'res': res}
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
            d['op'] = op
        if op == 'alloca':
            p.accept('inalloca')
            d['ty'] = p.type()
            d['n'] = None
            while p.accept(','):
                if p.peek() == 'align':
                    p.next(); d['align'] = int(p.next())
                elif p.peek() == 'addrspace':
                    break
                else:
                    t = p.type(); d['n'] = (t, p.value(t))
        elif op == 'load':
            d['atomic'] = p.accept('atomic')
            p.accept('volatile')
            d['ty'] = p.type(); p.expect(',')
            t = p.type(); d['ptr'] = p.value(t)
        elif op == 'store':
            d['atomic'] = p.accept('atomic')
            p.accept('volatile')
            d['ty'] = p.type(); d['val'] = p.value(d['ty']); p.expect(',')
            t = p.type(); d['ptr'] = p.value(t)
        elif op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            d['ty'] = p.type(); p.expect(',')
            t = p.type(); d['ptr'] = p.value(t)
            idx = []
            while p.accept(','):
                it = p.type(); idx.append((it, p.value(it)))
            d['idx'] = idx
        elif op in ('call', 'invoke'):
            # fast-math flags, cconv
            while p.kind() == 'word' and not p.is_type_start():
                v = p.next()
                if p.peek() == '(':
                    p.skip_parens()
                elif v == 'align':
                    p.next()
            d['ty'] = p.type()
            d['vararg_fn'] = False
            if p.peek() == '(':
                # explicit function type (varargs)
                p.skip_parens()
                d['vararg_fn'] = True
            d['fn'] = p.value(PTR)
            p.expect('(')
            args = []
            if not p.accept(')'):
                while True:
                    t = p.type()
                    at = p.skip_attrs()
                    if t[0] == 'metadata':
                        # skip anything
                        if p.is_type_start() if not p.done() else False:
                            tt = p.type(); p.value(tt)
                        else:
                            p.next()
                            if p.peek() == '(':
                                p.skip_parens()
                        args.append((t, at, ('undef',)))
                    else:
                        args.append((t, at, p.value(t)))
                    if p.accept(')'):
                        break
                    p.expect(',')
            d['args'] = args
            if op == 'invoke':
                while p.peek() != 'to':
                    p.next()
                p.expect('to'); p.expect('label'); d['normal'] = unquote_ident(p.next())[1:]
                p.expect('unwind'); p.expect('label'); d['unwind'] = unquote_ident(p.next())[1:]
        elif op == 'br':
            if p.accept('label'):
                d['dest'] = unquote_ident(p.next())[1:]
            else:
                t = p.type(); d['cond'] = p.value(t)
                p.expect(','); p.expect('label'); d['t'] = unquote_ident(p.next())[1:]
                p.expect(','); p.expect('label'); d['f'] = unquote_ident(p.next())[1:]
        elif op == 'switch':
            t = p.type(); d['ty'] = t; d['val'] = p.value(t)
            p.expect(','); p.expect('label'); d['default'] = unquote_ident(p.next())[1:]
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct = p.type(); cv = p.value(ct); p.expect(','); p.expect('label')
                cases.append((cv[1], unquote_ident(p.next())[1:]))
            d['cases'] = cases
        elif op == 'ret':
            t = p.type(); d['ty'] = t
            d['val'] = None if t[0] == 'v' else p.value(t)
        elif op in ('icmp', 'fcmp'):
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'samesign'):
                p.next()
            d['pred'] = p.next(); d['ty'] = p.type(); d['a'] = p.value(d['ty']); p.expect(','); d['b'] = p.value(d['ty'])
        elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
                    'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = set()
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                fl.add(p.next())
            d['flags'] = fl
            d['ty'] = p.type(); d['a'] = p.value(d['ty']); p.expect(','); d['b'] = p.value(d['ty'])
        elif op in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint',
                    'inttoptr', 'bitcast', 'addrspacecast'):
            while p.peek() in ('nuw', 'nsw', 'nneg', 'fast', 'nnan'):
                p.next()
            d['ty'] = p.type(); d['a'] = p.value(d['ty']); p.expect('to'); d['to'] = p.type()
        elif op == 'select':
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                p.next()
            t = p.type(); d['cty'] = t; d['c'] = p.value(t); p.expect(',')
            t = p.type(); d['ty'] = t; d['a'] = p.value(t); p.expect(',')
            t = p.type(); d['b'] = p.value(t)
        elif op == 'phi':
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                p.next()
            d['ty'] = p.type()
            inc = []
            while True:
                p.expect('['); v = p.value(d['ty']); p.expect(','); b = unquote_ident(p.next())[1:]; p.expect(']')
                inc.append((v, b))
                if not p.accept(','):
                    break
            d['inc'] = inc
        elif op == 'extractvalue':
            t = p.type(); d['ty'] = t; d['a'] = p.value(t); d['idx'] = []
            while p.accept(','):
                if p.kind() != 'num':
                    break
                d['idx'].append(int(p.next()))
        elif op == 'insertvalue':
            t = p.type(); d['ty'] = t; d['a'] = p.value(t); p.expect(',')
            t2 = p.type(); d['ety'] = t2; d['b'] = p.value(t2); d['idx'] = []
            while p.accept(','):
                if p.kind() != 'num':
                    break
                d['idx'].append(int(p.next()))
        elif op == 'extractelement':
            t = p.type(); d['ty'] = t; d['a'] = p.value(t); p.expect(','); it = p.type(); d['i'] = p.value(it)
        elif op == 'insertelement':
            t = p.type(); d['ty'] = t; d['a'] = p.value(t); p.expect(','); et = p.type(); d['b'] = p.value(et)
            p.expect(','); it = p.type(); d['i'] = p.value(it)
        elif op == 'shufflevector':
            t = p.type(); d['ty'] = t; d['a'] = p.value(t); p.expect(','); t2 = p.type(); d['b'] = p.value(t2)
            p.expect(','); mt = p.type(); d['mty'] = mt; d['mask'] = p.value(mt)
        elif op == 'landingpad':
            d['ty'] = p.type(); d['cleanup'] = False; d['clauses'] = []
            while not p.done():
                w = p.next()
                if w == 'cleanup':
                    d['cleanup'] = True
                elif w in ('catch', 'filter'):
                    t = p.type(); d['clauses'].append((w, t, p.value(t)))
                else:
                    break
        elif op == 'resume':
            t = p.type(); d['ty'] = t; d['a'] = p.value(t)
        elif op in ('unreachable', 'fence'):
            pass
        elif op in ('freeze', 'fneg'):
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                p.next()
            d['ty'] = p.type(); d['a'] = p.value(d['ty'])
        elif op == 'cmpxchg':
            p.accept('weak'); p.accept('volatile')
            t = p.type(); d['ptr'] = p.value(t); p.expect(',')
            d['ty'] = p.type(); d['a'] = p.value(d['ty']); p.expect(','); t = p.type(); d['b'] = p.value(t)
        elif op == 'atomicrmw':
            p.accept('volatile')
            d['rmw'] = p.next()
            t = p.type(); d['ptr'] = p.value(t); p.expect(',')
            d['ty'] = p.type(); d['a'] = p.value(d['ty'])
        else:
            d['unsupported'] = src.strip()
        return d

META = re.compile(r', ![a-zA-Z_.0-9]+ !\S+|, !srcloc !\d+')
def strip_meta(s):
    if '!' in s:
        s = META.sub('', s)
    return s
