"""Reader for textual LLVM IR (the subset rustc 1.73 / LLVM 16 emits, opaque pointers).

Function bodies are kept as text and only parsed when the executor first enters
the function.  Everything unknown raises IRError: the checker never guesses.
"""
import re
import struct


class IRError(Exception):
    pass


# ----------------------------------------------------------------- types
# ('i',n) ('f',32|64|80..) ('ptr',) ('vec',n,elt) ('arr',n,elt)
# ('struct',(tys...),packed) ('void',) ('label',) ('metadata',) ('fn',) ('token',)

VOID = ('void',)
PTR = ('ptr',)
I1 = ('i', 1)
I8 = ('i', 8)
I32 = ('i', 32)
I64 = ('i', 64)
F32 = ('f', 32)
F64 = ('f', 64)


def prim_size(t):
    k = t[0]
    if k == 'i':
        n = (t[1] + 7) // 8
        p = 1
        while p < n:
            p *= 2
        return p
    if k == 'f':
        return t[1] // 8
    if k == 'ptr':
        return 8
    raise IRError('size of %r' % (t,))


_size_cache = {}


def align_of(t):
    k = t[0]
    if k == 'i':
        n = prim_size(t)
        return n if n <= 8 else 8          # e-...: i128 has 8 byte ABI alignment in LLVM 16
    if k in ('f', 'ptr'):
        return prim_size(t)
    if k == 'vec':
        s = size_of(t)
        return s
    if k == 'arr':
        return align_of(t[2])
    if k == 'struct':
        if t[2] or not t[1]:
            return 1
        return max(align_of(x) for x in t[1])
    raise IRError('align of %r' % (t,))


def size_of(t):
    r = _size_cache.get(t)
    if r is not None:
        return r
    k = t[0]
    if k in ('i', 'f', 'ptr'):
        r = prim_size(t)
    elif k == 'vec':
        e = t[2]
        bits = t[1] * (e[1] if e[0] in ('i', 'f') else 64)
        n = (bits + 7) // 8
        p = 1
        while p < n:
            p *= 2
        r = p
    elif k == 'arr':
        r = t[1] * size_of(t[2])
    elif k == 'struct':
        r = struct_layout(t)[1]
    else:
        raise IRError('size of %r' % (t,))
    _size_cache[t] = r
    return r


_layout_cache = {}


def struct_layout(t):
    r = _layout_cache.get(t)
    if r:
        return r
    offs = []
    o = 0
    al = 1
    for f in t[1]:
        a = 1 if t[2] else align_of(f)
        al = max(al, a)
        o = (o + a - 1) // a * a
        offs.append(o)
        o += size_of(f)
    o = (o + al - 1) // al * al
    r = (offs, o)
    _layout_cache[t] = r
    return r


# ----------------------------------------------------------------- lexer
TOK = re.compile(r'''
   (?P<ws>[ \t]+)
 | (?P<cmt>;[^\n]*)
 | (?P<cstr>c"[^"]*")
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:"[^"]*"|[-a-zA-Z$._0-9]+)?)
 | (?P<attr>\#[0-9]+)
 | (?P<hexf>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<flt>[-+]?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?)
 | (?P<int>-?[0-9]+)
 | (?P<str>"[^"]*")
 | (?P<word>[a-zA-Z_.$][-a-zA-Z0-9_.$]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[\[\]{}()<>,=*:|])
''', re.X)


def lex(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise IRError('lex: %r' % s[i:i + 60])
        k = m.lastgroup
        i = m.end()
        if k == 'ws':
            continue
        if k == 'cmt':
            break
        out.append((k, m.group()))
    return out


def unq(name):
    # @"foo" -> @foo
    if len(name) > 1 and name[1] == '"':
        return name[0] + name[2:-1]
    return name


PARAM_ATTRS = set('''zeroext signext inreg noalias nocapture nofree nest returned nonnull noundef
immarg swiftself swifterror readonly readnone writeonly allocalign allocptr noundef'''.split())
FAST = set('nnan ninf nsz arcp contract afn reassoc fast'.split())
BINOPS = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CASTS = set('trunc zext sext fptrunc fpext fptoui fptosi uitofp sitofp ptrtoint inttoptr bitcast addrspacecast'.split())


class P:
    """Token cursor with type / value parsing."""

    def __init__(self, mod, toks):
        self.m = mod
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x[1]

    def eat(self, s):
        if self.i < len(self.t) and self.t[self.i][1] == s:
            self.i += 1
            return True
        return False

    def exp(self, s):
        if not self.eat(s):
            raise IRError('expected %r at %r' % (s, [x[1] for x in self.t[max(0, self.i - 6):self.i + 6]]))

    # ---- types
    def ty(self):
        k, x = self.t[self.i]
        self.i += 1
        if k == 'word':
            if x[0] == 'i' and x[1:].isdigit():
                t = ('i', int(x[1:]))
            elif x == 'ptr':
                t = PTR
                if self.peek() == 'addrspace':
                    raise IRError('addrspace')
            elif x == 'float':
                t = F32
            elif x == 'double':
                t = F64
            elif x == 'half':
                t = ('f', 16)
            elif x == 'x86_fp80':
                t = ('f', 80)
            elif x == 'void':
                t = VOID
            elif x in ('label', 'metadata', 'token'):
                t = (x,)
            else:
                raise IRError('type %r' % x)
        elif x == '<':
            if self.peek() == '{':
                self.next()
                t = self._struct(True)
                self.exp('>')
            else:
                n = int(self.next())
                self.exp('x')
                e = self.ty()
                self.exp('>')
                t = ('vec', n, e)
        elif x == '[':
            n = int(self.next())
            self.exp('x')
            e = self.ty()
            self.exp(']')
            t = ('arr', n, e)
        elif x == '{':
            t = self._struct(False)
        elif k == 'loc':
            t = self.m.named_type(unq(x))
        else:
            raise IRError('type tok %r' % x)
        # function type suffix
        while self.peek() == '(' and self._looks_fn_type():
            self._skip_parens()
            t = ('fn',)
        return t

    def _looks_fn_type(self):
        # a '(' directly after a type only occurs in function types within call instrs
        return self.kind(1) in ('word', 'p', 'dots') and self._fnty_ok()

    def _fnty_ok(self):
        # parse attempt: "(ty, ty, ...)" followed by a callee
        save = self.i
        try:
            self.next()
            if self.eat(')'):
                ok = True
            else:
                while True:
                    if self.eat('...'):
                        pass
                    else:
                        self.ty()
                    if self.eat(','):
                        continue
                    break
                ok = self.eat(')')
            return bool(ok) and self.kind() in ('glob', 'loc')
        except IRError:
            return False
        except IndexError:
            return False
        finally:
            self.i = save

    def _skip_parens(self):
        d = 0
        while True:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
                if d == 0:
                    return

    def _struct(self, packed):
        fs = []
        if not self.eat('}'):
            while True:
                fs.append(self.ty())
                if self.eat(','):
                    continue
                self.exp('}')
                break
        return ('struct', tuple(fs), packed)

    def skip_attrs(self):
        while True:
            x = self.peek()
            if x in PARAM_ATTRS:
                self.next()
            elif x in ('align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref',
                       'elementtype', 'allocsize', 'memory', 'nofpclass', 'captures', 'range', 'preallocated',
                       'inalloca', 'alignstack'):
                self.next()
                if self.peek() == '(':
                    self._skip_parens()
                elif x == 'align':
                    self.next()
            elif self.kind() == 'str':
                self.next()
                if self.eat('='):
                    self.next()
            else:
                return

    # ---- values (operand descriptors)
    # ('r',name)  ('c',value)  ('g',name) ('agg',[ops])  ('cexpr',...)
    def val(self, t):
        k, x = self.t[self.i]
        self.i += 1
        if k == 'loc':
            return ('r', unq(x))
        if k == 'glob':
            return ('g', unq(x))
        if k == 'int':
            n = t[1]
            v = int(x)
            if n == 1:
                return ('c', bool(v & 1))
            return ('c', v & ((1 << n) - 1))
        if k == 'hexf':
            return ('c', self._hexf(t, x))
        if k == 'flt':
            f = float(x)
            if t == F32:
                return ('c', struct.unpack('<I', struct.pack('<f', f))[0])
            return ('c', struct.unpack('<Q', struct.pack('<d', f))[0])
        if k == 'cstr':
            return ('agg', [('c', b) for b in cstr(x)])
        if k == 'word':
            if x == 'true':
                return ('c', True)
            if x == 'false':
                return ('c', False)
            if x == 'null':
                return ('c', 0)
            if x in ('undef', 'poison'):
                return ('undef', t)
            if x == 'zeroinitializer':
                return zero(t)
            if x == 'getelementptr':
                self.eat('inbounds')
                self.exp('(')
                bt = self.ty()
                self.exp(',')
                pt = self.ty()
                p = self.val(pt)
                idx = []
                while self.eat(','):
                    self.eat('inrange')
                    it = self.ty()
                    idx.append((it, self.val(it)))
                self.exp(')')
                return ('cgep', bt, pt, p, idx)
            if x in CASTS:
                self.exp('(')
                ft = self.ty()
                v = self.val(ft)
                self.exp('to')
                tt = self.ty()
                self.exp(')')
                return ('ccast', x, ft, v, tt)
            if x in BINOPS:
                while self.peek() in ('nuw', 'nsw', 'exact'):
                    self.next()
                self.exp('(')
                ft = self.ty()
                a = self.val(ft)
                self.exp(',')
                self.ty()
                b = self.val(ft)
                self.exp(')')
                return ('cbin', x, ft, a, b)
        if x in ('<', '[', '{'):
            packed = False
            if x == '<' and self.peek() == '{':
                self.next()
                packed = True
                close = '}'
            else:
                close = {'<': '>', '[': ']', '{': '}'}[x]
            els = []
            if not self.eat(close):
                while True:
                    et = self.ty()
                    els.append(self.val(et))
                    if self.eat(','):
                        continue
                    self.exp(close)
                    break
            if packed:
                self.exp('>')
            return ('agg', els)
        if k == 'meta' or x == 'metadata':
            return ('meta',)
        raise IRError('value %r (%s) in %r' % (x, k, [y[1] for y in self.t[max(0, self.i - 8):self.i + 6]]))

    def _hexf(self, t, x):
        if x[2] in 'KLMHR':
            raise IRError('hexfloat %s' % x)
        b = int(x, 16)
        if t == F64:
            return b
        if t == F32:
            return f64bits_to_f32bits(b)
        raise IRError('hexfloat type')

    def tv(self):
        t = self.ty()
        self.skip_attrs()
        return t, self.val(t)


def f64bits_to_f32bits(b):
    """Exact narrowing of an LLVM float literal (always representable); NaN payload kept."""
    e = (b >> 52) & 0x7ff
    m = b & ((1 << 52) - 1)
    if e == 0x7ff and m:
        return ((b >> 63) << 31) | 0x7f800000 | (m >> 29)
    f = struct.unpack('<d', struct.pack('<Q', b))[0]
    return struct.unpack('<I', struct.pack('<f', f))[0]


def cstr(x):
    s = x[2:-1]
    out = []
    i = 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.extend(c.encode('latin-1') if ord(c) < 256 else c.encode())
            i += 1
    return out


def zero(t):
    k = t[0]
    if k == 'i':
        return ('c', False if t[1] == 1 else 0)
    if k in ('f', 'ptr'):
        return ('c', 0)
    if k in ('vec', 'arr'):
        return ('agg', [zero(t[2])] * t[1])
    if k == 'struct':
        return ('agg', [zero(x) for x in t[1]])
    raise IRError('zero %r' % (t,))


class Func:
    __slots__ = ('name', 'mod', 'header', 'body', 'params', 'ret', 'blocks', 'order', 'ipdom', 'attrs', 'is_decl',
                 'pretty', 'entry', 'noreturn', 'retdom')

    def __init__(self):
        self.blocks = None
        self.ipdom = None


DEF = re.compile(r'^(define|declare)\b[^@]*(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(')


class Module:
    def __init__(self, path, name=None):
        self.path = path
        self.types_txt = {}
        self.types = {}
        self.globals_txt = {}
        self.funcs = {}
        self.attrs = {}
        self._read()

    def _read(self):
        txt = open(self.path, encoding='latin-1').read()
        pos = 0
        lines = txt.split('\n')
        i = 0
        n = len(lines)
        prev_comment = ''
        while i < n:
            l = lines[i]
            c = l[:1]
            if c == '@':
                nm, rest = l.split(' = ', 1)
                self.globals_txt[unq(nm)] = rest
            elif c == '%':
                nm, rest = l.split(' = ', 1)
                if rest.startswith('type '):
                    self.types_txt[unq(nm)] = rest[5:]
            elif l.startswith('define'):
                m = DEF.match(l)
                f = Func()
                f.mod = self
                f.name = unq(m.group(2))
                f.header = l
                f.is_decl = False
                f.pretty = prev_comment
                j = i + 1
                while lines[j] != '}':
                    j += 1
                f.body = (i + 1, j)
                f.body = lines[i + 1:j]
                self.funcs[f.name] = f
                i = j
                prev_comment = ''
            elif l.startswith('declare'):
                m = DEF.match(l)
                f = Func()
                f.mod = self
                f.name = unq(m.group(2))
                f.header = l
                f.is_decl = True
                f.body = None
                f.pretty = prev_comment
                self.funcs.setdefault(f.name, f)
                prev_comment = ''
            elif l.startswith('attributes '):
                m = re.match(r'attributes (#\d+) = \{(.*)\}', l)
                self.attrs[m.group(1)] = m.group(2)
            elif l.startswith('; ') and not l.startswith('; Function Attrs') and not l.startswith('; ModuleID'):
                prev_comment = l[2:]
            i += 1

    def named_type(self, nm):
        t = self.types.get(nm)
        if t is None:
            s = self.types_txt.get(nm)
            if s is None:
                raise IRError('unknown type ' + nm)
            if s.strip() == 'opaque':
                t = ('opaque',)
            else:
                t = P(self, lex(s)).ty()
            self.types[nm] = t
        return t

    # ------------------------------------------------------------ functions
    def prepare(self, f):
        """Parse header and body of f."""
        if f.blocks is not None:
            return f
        toks = lex(f.header)
        # find return type: tokens before the glob
        gi = next(i for i, t in enumerate(toks) if t[0] == 'glob')
        p = P(self, toks)
        # skip linkage etc. until a type parses right before gi
        p.next()
        ret = None
        while p.i < gi:
            save = p.i
            try:
                t = p.ty()
                if p.i == gi:
                    ret = t
                    break
                # not directly before name => attribute word or similar
                p.i = save + 1
            except IRError:
                p.i = save + 1
                # attributes with parens e.g. align 8, dereferenceable(8)
        f.ret = ret
        if ret is None:
            raise IRError('header: ' + f.header)
        p.i = gi + 1
        p.exp('(')
        params = []
        if not p.eat(')'):
            while True:
                if p.eat('...'):
                    pass
                else:
                    t = p.ty()
                    p.skip_attrs()
                    nm = None
                    if p.kind() == 'loc':
                        nm = unq(p.next())
                    params.append((t, nm))
                if p.eat(','):
                    continue
                p.exp(')')
                break
        f.params = params
        rest = [x[1] for x in toks[p.i:]]
        f.noreturn = 'noreturn' in rest or any('noreturn' in self.attrs.get(x, '') for x in rest if x[0] == '#')
        if f.is_decl:
            f.blocks = {}
            return f
        self._body(f)
        return f

    def _body(self, f):
        blocks = {}
        order = []
        cur = None
        curname = None
        body = f.body
        i = 0
        implicit = len([1 for t, nm in f.params if nm is None or nm[1:].isdigit()])
        while i < len(body):
            l = body[i]
            i += 1
            if not l or l.startswith(';') or l.lstrip().startswith(';'):
                continue
            if l[0] != ' ':
                # label
                lab = l.split(':', 1)[0]
                if l.startswith('"'):
                    lab = re.match(r'"([^"]*)":', l).group(1)
                curname = '%' + lab
                cur = []
                blocks[curname] = cur
                order.append(curname)
                continue
            if cur is None:
                curname = '%' + str(implicit)
                cur = []
                blocks[curname] = cur
                order.append(curname)
            s = l.strip()
            if s.startswith('switch ') and s.endswith('['):
                while not body[i].strip().startswith(']'):
                    s += ' ' + body[i].strip()
                    i += 1
                s += ' ]'
                i += 1
            cur.append(self._instr(s))
        f.blocks = blocks
        f.order = order
        f.entry = order[0]
        f.body = None

    def _instr(self, s):
        # cut metadata tail
        k = s.find(', !')
        if k >= 0 and 'metadata' not in s:
            s = s[:k]
        toks = lex(s)
        p = P(self, toks)
        dst = None
        if p.kind() == 'loc' and p.peek(1) == '=':
            dst = unq(p.next())
            p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()
        return self._decode(p, dst, op, s)

    def _decode(self, p, dst, op, s):
        if op in BINOPS:
            flags = set()
            while p.peek() in FAST or p.peek() in ('nuw', 'nsw', 'exact'):
                flags.add(p.next())
            t = p.ty()
            a = p.val(t)
            p.exp(',')
            b = p.val(t)
            return ('bin', dst, op, t, a, b, flags)
        if op == 'load':
            if p.eat('atomic'):
                pass
            p.eat('volatile')
            t = p.ty()
            p.exp(',')
            pt, v = p.tv()
            al = self._align(p)
            return ('load', dst, t, v, al)
        if op == 'store':
            if p.eat('atomic'):
                pass
            p.eat('volatile')
            t, v = p.tv()
            p.exp(',')
            pt, q = p.tv()
            al = self._align(p)
            return ('store', None, t, v, q, al)
        if op == 'alloca':
            p.eat('inalloca')
            t = p.ty()
            n = ('c', 1)
            nt = I64
            al = 0
            while p.eat(','):
                if p.eat('align'):
                    al = int(p.next())
                elif p.kind() == 'word' and p.peek() != 'addrspace':
                    nt, n = p.tv()
            return ('alloca', dst, t, nt, n, al)
        if op == 'getelementptr':
            inb = p.eat('inbounds')
            bt = p.ty()
            p.exp(',')
            pt, v = p.tv()
            idx = []
            while p.eat(','):
                if p.kind() == 'meta':
                    break
                idx.append(p.tv())
            return ('gep', dst, bt, pt, v, idx, inb)
        if op in CASTS:
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            ft, v = p.tv()
            p.exp('to')
            tt = p.ty()
            return ('cast', dst, op, ft, v, tt)
        if op == 'icmp':
            pred = p.next()
            t = p.ty()
            a = p.val(t)
            p.exp(',')
            b = p.val(t)
            return ('icmp', dst, pred, t, a, b)
        if op == 'fcmp':
            while p.peek() in FAST:
                p.next()
            pred = p.next()
            t = p.ty()
            a = p.val(t)
            p.exp(',')
            b = p.val(t)
            return ('fcmp', dst, pred, t, a, b)
        if op == 'fneg':
            while p.peek() in FAST:
                p.next()
            t, a = p.tv()
            return ('fneg', dst, t, a)
        if op == 'freeze':
            t, a = p.tv()
            return ('freeze', dst, t, a)
        if op == 'select':
            while p.peek() in FAST:
                p.next()
            ct, c = p.tv()
            p.exp(',')
            t, a = p.tv()
            p.exp(',')
            t2, b = p.tv()
            return ('select', dst, ct, c, t, a, b)
        if op == 'extractelement':
            vt, v = p.tv()
            p.exp(',')
            it, i = p.tv()
            return ('extractelement', dst, vt, v, it, i)
        if op == 'insertelement':
            vt, v = p.tv()
            p.exp(',')
            et, e = p.tv()
            p.exp(',')
            it, i = p.tv()
            return ('insertelement', dst, vt, v, et, e, it, i)
        if op == 'shufflevector':
            vt, a = p.tv()
            p.exp(',')
            vt2, b = p.tv()
            p.exp(',')
            mt, m = p.tv()
            return ('shufflevector', dst, vt, a, b, mt, m)
        if op == 'extractvalue':
            t, v = p.tv()
            idx = []
            while p.eat(','):
                idx.append(int(p.next()))
            return ('extractvalue', dst, t, v, idx)
        if op == 'insertvalue':
            t, v = p.tv()
            p.exp(',')
            et, e = p.tv()
            idx = []
            while p.eat(','):
                idx.append(int(p.next()))
            return ('insertvalue', dst, t, v, et, e, idx)
        if op in ('call', 'invoke'):
            return self._call(p, dst, op)
        if op == 'br':
            if p.peek() == 'label':
                p.next()
                return ('br', None, unq(p.next()))
            t, c = p.tv()
            p.exp(',')
            p.exp('label')
            a = unq(p.next())
            p.exp(',')
            p.exp('label')
            b = unq(p.next())
            return ('condbr', None, c, a, b)
        if op == 'switch':
            t, v = p.tv()
            p.exp(',')
            p.exp('label')
            d = unq(p.next())
            p.exp('[')
            cases = []
            while not p.eat(']'):
                ct, c = p.tv()
                p.exp(',')
                p.exp('label')
                cases.append((c[1], unq(p.next())))
            return ('switch', None, t, v, d, cases)
        if op == 'ret':
            if p.eat('void'):
                return ('ret', None, VOID, None)
            t, v = p.tv()
            return ('ret', None, t, v)
        if op == 'unreachable':
            return ('unreachable', None)
        if op == 'phi':
            while p.peek() in FAST:
                p.next()
            t = p.ty()
            inc = []
            while True:
                p.exp('[')
                v = p.val(t)
                p.exp(',')
                lab = unq(p.next())
                p.exp(']')
                inc.append((v, lab))
                if not p.eat(','):
                    break
            return ('phi', dst, t, inc)
        if op == 'resume':
            return ('resume', None)
        if op == 'landingpad':
            return ('landingpad', dst)
        if op == 'fence':
            return ('nop', None)
        if op in ('cleanuppad', 'cleanupret', 'atomicrmw', 'cmpxchg', 'va_arg', 'indirectbr'):
            return ('unsupported', dst, op)
        raise IRError('instr %r in %s' % (op, s))

    def _align(self, p):
        al = 1
        while p.eat(','):
            if p.eat('align'):
                al = int(p.next())
        return al

    def _call(self, p, dst, op):
        while True:
            x = p.peek()
            if x in FAST or x in ('fastcc', 'ccc', 'coldcc') or x in PARAM_ATTRS:
                p.next()
            elif x in ('align', 'dereferenceable', 'dereferenceable_or_null', 'noundef', 'range', 'nofpclass'):
                p.skip_attrs()
            else:
                break
        rt = p.ty()
        if rt == ('fn',):
            rt = None
        if p.peek() == 'asm':
            return ('asm', dst)
        callee = p.val(PTR)
        p.exp('(')
        args = []
        if not p.eat(')'):
            while True:
                if p.peek() == 'metadata':
                    # skip metadata arg
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        x = p.next()
                        if x == '(':
                            d += 1
                        if x == ')':
                            d -= 1
                    args.append((('metadata',), ('meta',)))
                else:
                    t = p.ty()
                    p.skip_attrs()
                    args.append((t, p.val(t)))
                if p.eat(','):
                    continue
                p.exp(')')
                break
        normal = None
        noret = False
        while p.i < len(p.t):
            x = p.next()
            if x == 'to' and op == 'invoke':
                p.exp('label')
                normal = unq(p.next())
                p.exp('unwind')
                p.exp('label')
                p.next()
            elif x[0] == '#' and 'noreturn' in self.attrs.get(x, ''):
                noret = True
            elif x == 'noreturn':
                noret = True
        return ('call', dst, rt, callee, args, normal, noret)

    # ------------------------------------------------------------ globals
    def global_def(self, nm):
        """-> (type, init operand or None, align)"""
        s = self.globals_txt.get(nm)
        if s is None:
            return None
        toks = lex(s)
        p = P(self, toks)
        external = False
        while p.peek() not in ('constant', 'global'):
            if p.peek() in ('external', 'extern_weak'):
                external = True
            if p.peek() == 'alias':
                return None
            x = p.next()
            if p.peek() == '(':
                p._skip_parens()
        p.next()
        t = p.ty()
        init = None
        if not external:
            init = p.val(t)
        al = 1
        while p.i < len(p.t):
            if p.next() == 'align':
                al = int(p.next())
        return t, init, al


def successors(ins):
    k = ins[0]
    if k == 'br':
        return [ins[2]]
    if k == 'condbr':
        return [ins[3], ins[4]]
    if k == 'switch':
        return [ins[4]] + [c[1] for c in ins[5]]
    if k == 'call' and ins[5]:
        return [ins[5]]
    return []


EXIT = '%%exit'


def compute_ipdom(f):
    """Immediate post-dominators towards a virtual exit reached by `ret` only.

    Blocks that can only end in panic/unreachable do not count as reaching the exit;
    a branch where one side never returns has the other side's path as post-dominator.
    """
    if f.ipdom is not None:
        return f.ipdom
    succ = {}
    for b in f.order:
        ins = f.blocks[b]
        last = ins[-1]
        if last[0] == 'ret':
            succ[b] = [EXIT]
        else:
            succ[b] = list(dict.fromkeys(successors(last)))
    preds = {b: [] for b in f.order}
    preds[EXIT] = []
    for b, ss in succ.items():
        for x in ss:
            preds[x].append(b)
    # post-order on reverse graph from EXIT
    seen = {EXIT}
    po = []
    stack = [(EXIT, iter(preds[EXIT]))]
    while stack:
        b, it = stack[-1]
        for x in it:
            if x not in seen:
                seen.add(x)
                stack.append((x, iter(preds[x])))
                break
        else:
            po.append(b)
            stack.pop()
    num = {b: i for i, b in enumerate(po)}
    idom = {EXIT: EXIT}
    changed = True
    rpo = list(reversed(po))
    while changed:
        changed = False
        for b in rpo:
            if b == EXIT:
                continue
            new = None
            for s_ in succ[b]:
                if s_ in idom:
                    if new is None:
                        new = s_
                    else:
                        a, c = s_, new
                        while a != c:
                            while num[a] < num[c]:
                                a = idom[a]
                            while num[c] < num[a]:
                                c = idom[c]
                        new = a
            if new is not None and idom.get(b) != new:
                idom[b] = new
                changed = True
    f.ipdom = idom
    return idom
