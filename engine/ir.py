"""LLVM IR (.ll text) parser and compiler to Python source.

Functions are parsed and compiled lazily, on their first call.  SSA registers
become Python locals; a function is one `while True` loop with a binary
dispatch on the block number.  Operators on symbolic values are overloaded by
expr.E, so the generated code is the same for concrete and symbolic runs.
"""
import re, struct
import expr as X

TOK = re.compile(r'''c"(?:[^"\\]|\\.)*"|[%@](?:"[^"]*"|[-\w.$]+)|"[^"]*"|!\w*|\#\d+|[-+]?\d+\.\d*(?:e[-+]?\d+)?|f?0x[KLMHR]?[0-9A-Fa-f]+|-?\d+|\.\.\.|[-+]?[A-Za-z_][\w.]*|[(){}\[\]<>,=*:|]''')
OPEN = {'(': ')', '[': ']', '{': '}', '<': '>'}
VALKW = {'true', 'false', 'null', 'undef', 'poison', 'zeroinitializer', 'none', 'getelementptr',
         'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'splat',
         'bitcast', 'icmp', 'select', 'blockaddress', 'dso_local_equivalent', 'no_cfi', 'ptrauth', 'asm', 'ptrtoaddr', 'nan', '+inf', '-inf', 'inf', '+qnan', '-qnan', '+nan'}

I1 = ('i', 1)
PTR = ('p',)
VOID = ('void',)
F64 = ('f', 64)
F32 = ('f', 32)


def align_up(x, a):
    return (x + a - 1) // a * a


def talign(t):
    k = t[0]
    if k == 'i':
        b = (t[1] + 7) // 8
        a = 1
        while a < b:
            a *= 2
        return min(a, 16)
    if k == 'p':
        return 8
    if k == 'f':
        return t[1] // 8
    if k == 's':
        return 1 if t[2] or not t[1] else max(talign(x) for x in t[1])
    if k == 'a':
        return talign(t[2])
    if k == 'v':
        return max(1, tsize(t))
    raise Exception('align %r' % (t,))


_ts = {}


def tsize(t):
    r = _ts.get(t)
    if r is None:
        r = _ts[t] = _tsize(t)
    return r


def _tsize(t):
    k = t[0]
    if k == 'i':
        return align_up((t[1] + 7) // 8, talign(t))
    if k == 'p':
        return 8
    if k == 'f':
        return t[1] // 8
    if k == 's':
        o = 0
        for x in t[1]:
            if not t[2]:
                o = align_up(o, talign(x))
            o += tsize(x)
        return o if t[2] else align_up(o, talign(t))
    if k == 'a':
        return t[1] * tsize(t[2])
    if k == 'v':
        return (t[1] * (t[2][1] if t[2][0] != 'p' else 64) + 7) // 8
    raise Exception('size %r' % (t,))


def field_off(t, i):
    if t[0] == 's':
        o = 0
        for j, x in enumerate(t[1]):
            if not t[2]:
                o = align_up(o, talign(x))
            if j == i:
                return o
            o += tsize(x)
    return i * tsize(t[2])


def cbytes(tok):
    s = tok[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class P:
    """token cursor"""
    __slots__ = ('t', 'i', 'm')

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ''

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def eat(self, s):
        if self.i < len(self.t) and self.t[self.i] == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if self.next() != s:
            raise Exception('expected %s at %d in %s' % (s, self.i, ' '.join(self.t)))

    def skip_bal(self):
        o = self.next()
        st = [OPEN[o]]
        while st:
            x = self.next()
            if x in OPEN:
                st.append(OPEN[x])
            elif x == st[-1]:
                st.pop()

    def is_type(self):
        x = self.peek()
        return (x in ('double', 'float', 'ptr', 'void', 'half', 'metadata', 'label', '{', '[', '<', 'fp128', 'token')
                or re.fullmatch(r'i\d+', x) is not None or (x.startswith('%') and x in self.m.types))

    def skip_to_type(self):
        while not self.is_type():
            if self.peek() == '(':
                self.skip_bal()
            else:
                x = self.next()

    def type(self):
        x = self.next()
        if x[0] == 'i' and x[1:].isdigit():
            r = ('i', int(x[1:]))
        elif x == 'ptr':
            if self.peek() == 'addrspace':
                self.next()
                self.skip_bal()
            r = PTR
        elif x == 'double':
            r = F64
        elif x == 'float':
            r = F32
        elif x == 'half':
            r = ('f', 16)
        elif x == 'fp128':
            r = ('f', 128)
        elif x == 'void':
            r = VOID
        elif x in ('metadata', 'label', 'token'):
            r = (x,)
        elif x == '{':
            r = self._struct('}', False)
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            r = ('a', n, e)
        elif x == '<':
            if self.peek() == '{':
                self.next()
                r = self._struct('}', True)
                self.expect('>')
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                r = ('v', n, e)
        elif x.startswith('%'):
            r = self.m.named_type(x)
        else:
            raise Exception('type? %s in %s' % (x, ' '.join(self.t)))
        return r

    def _struct(self, close, packed):
        fs = []
        if not self.eat(close):
            while True:
                fs.append(self.type())
                if self.eat(close):
                    break
                self.expect(',')
        return ('s', tuple(fs), packed)

    def skip_attrs(self):
        """parameter attributes between a type and a value"""
        while True:
            x = self.peek()
            if x == '' or x in ',)' or x[0] in '%@c' and (x[0] in '%@' or x.startswith('c"')):
                return
            if x in VALKW or x in ('{', '[', '<') or x[0].isdigit() or (x[0] in '-+' and len(x) > 1 and (x[1].isdigit())) or x.startswith('0x') or x.startswith('f0x') or x[0] == '!':
                return
            self.next()
            if x == 'align':
                if self.peek() == '(':
                    self.skip_bal()
                else:
                    self.next()
            elif self.peek() == '(':
                self.skip_bal()

    # --- constants; returns python value (concrete)
    def const(self, ty):
        x = self.next()
        k = ty[0]
        if x[0] == '@':
            return self.m.gaddr(x)
        if x == 'zeroinitializer' or x == 'undef' or x == 'poison':
            return zero(ty)
        if x == 'null':
            return 0
        if x == 'none':
            return 0
        if x == 'true':
            return True
        if x == 'false':
            return False
        if x.startswith('c"'):
            return tuple(cbytes(x))
        if x == 'splat':
            self.expect('(')
            t = self.type()
            v = self.const(t)
            self.expect(')')
            return (v,) * ty[1]
        if k == 'f':
            if x.startswith('f0x'):
                return X.bitsf(int(x[3:], 16)) if ty[1] == 64 else struct.unpack('<f', struct.pack('<I', int(x[3:], 16)))[0]
            if x.startswith('0x'):
                v = X.bitsf(int(x[2:], 16))
                return v
            if x in ('+inf', 'inf'):
                return float('inf')
            if x == '-inf':
                return float('-inf')
            if 'nan' in x:
                if self.peek() == '(':
                    self.skip_bal()
                return float('nan')
            return float(x)
        if x[0].isdigit() or x[0] == '-':
            v = int(x)
            if k == 'i':
                if ty[1] == 1:
                    return bool(v & 1)
                return v & ((1 << ty[1]) - 1)
            return v
        if x == '{' or (x == '<' and k == 's') or x == '[' or x == '<':
            close = {'{': '}', '[': ']', '<': '>'}[x]
            if x == '<' and self.peek() == '{':
                self.next()
                vals = self._clist('}')
                self.expect('>')
                return vals
            return self._clist(close)
        # constant expressions
        if x == 'getelementptr':
            while self.peek() != '(':
                self.next()
                if self.peek() == '(' and self.t[self.i - 1] == 'inrange':
                    self.skip_bal()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            self.type()
            self.skip_attrs()
            v = self.const(PTR)
            idx = []
            while self.eat(','):
                self.eat('inrange')
                t = self.type()
                iv = X.sgn(self.const(t), t[1])
                idx.append(iv)
            self.expect(')')
            v += idx[0] * tsize(bt)
            for i in idx[1:]:
                v += field_off(bt, i)
                bt = bt[1][i] if bt[0] == 's' else bt[2]
            return v & (2**64 - 1)
        if x in ('ptrtoint', 'inttoptr', 'trunc', 'zext', 'bitcast', 'ptrtoaddr'):
            while self.peek() != '(':
                self.next()
            self.expect('(')
            t = self.type()
            v = self.const(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            if t2[0] == 'i':
                v &= (1 << t2[1]) - 1
            return v
        if x in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl'):
            while self.peek() != '(':
                self.next()
            self.expect('(')
            t = self.type()
            a = self.const(t)
            self.expect(',')
            self.type()
            b = self.const(t)
            self.expect(')')
            m = (1 << t[1]) - 1
            return {'add': a + b, 'sub': a - b, 'mul': a * b, 'xor': a ^ b, 'and': a & b, 'or': a | b, 'shl': a << b}[x] & m
        raise Exception('const? %s in %s' % (x, ' '.join(self.t)[:300]))

    def _clist(self, close):
        out = []
        if self.eat(close):
            return ()
        while True:
            t = self.type()
            out.append(self.const(t))
            if self.eat(close):
                break
            self.expect(',')
        return tuple(out)


def zero(t):
    k = t[0]
    if k == 'i':
        return False if t[1] == 1 else 0
    if k == 'p':
        return 0
    if k == 'f':
        return 0.0
    if k == 's':
        return tuple(zero(x) for x in t[1])
    if k in 'av':
        return (zero(t[2]),) * t[1]
    return None


class Func:
    __slots__ = ('name', 'idx', 'lines', 'defined', 'py', 'src', 'sub')


class Module:
    def __init__(self, text):
        self.types = {}
        self._named = {}
        self.gidx = {}          # name -> index
        self.globals = []       # index -> ('f', Func) | ('g', line) | ('a', aliasee)
        self.md = {}
        self.funcs = []
        text = re.sub(r' /\*[^*\n]*\*/', '', text)
        lines = text.split('\n')
        i = 0
        n = len(lines)
        self.globals.append(None)  # index 0 = null
        while i < n:
            l = lines[i]
            if l.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self._addf(l, lines[i + 1:j], True)
                i = j
            elif l.startswith('declare'):
                self._addf(l, None, False)
            elif l.startswith('@'):
                nm = TOK.match(l).group(0)
                self.gidx[nm] = len(self.globals)
                self.globals.append(('g', l))
            elif l.startswith('%'):
                nm = TOK.match(l).group(0)
                self.types[nm] = l
            elif l.startswith('!'):
                k = l.find(' = ')
                if k > 0:
                    self.md[l[:k]] = l[k + 3:]
            i += 1
        self.cov_blocks = []

    def named_type(self, x):
        r = self._named.get(x)
        if r is None:
            l = self.types[x]
            toks = TOK.findall(l)
            p = P(toks, self)
            p.next(); p.expect('='); p.expect('type')
            if p.peek() == 'opaque':
                r = ('s', (), False)
            else:
                r = p.type()
            self._named[x] = r
        return r

    def _addf(self, head, body, defined):
        k = head.index('@')
        nm = TOK.match(head, k).group(0)
        f = Func()
        f.name = nm[1:].strip('"')
        f.idx = len(self.globals)
        f.lines = (head, body)
        f.defined = defined
        f.py = None
        m = re.search(r'!dbg (!\d+)', head[k:])
        f.sub = m.group(1) if m else None
        self.gidx[nm] = f.idx
        self.globals.append(('f', f))
        self.funcs.append(f)

    def gaddr(self, nm):
        return self.gidx[nm] << 32

    def func(self, name):
        return self.globals[self.gidx['@' + name]][1]

    # --- initial bytes of a global: (bytes, writable)
    def ginit(self, idx):
        l = self.globals[idx][1]
        toks = TOK.findall(l)
        p = P(toks, self)
        p.next()
        p.expect('=')
        ext = False
        const = False
        while True:
            x = p.next()
            if x == 'external' or x == 'extern_weak':
                ext = True
            if x in ('constant', 'global'):
                const = x == 'constant'
                break
            if x == 'alias':
                raise X.Unsupported('alias')
            if p.peek() == '(':
                p.skip_bal()
        t = p.type()
        buf = bytearray(tsize(t))
        if not ext:
            v = p.const(t)
            self.put(buf, 0, t, v)
        return buf, not const

    def put(self, buf, off, t, v):
        k = t[0]
        if k in 'ip':
            n = tsize(t)
            buf[off:off + n] = int(v).to_bytes(n, 'little')
        elif k == 'f':
            buf[off:off + t[1] // 8] = struct.pack('<d' if t[1] == 64 else '<f', v)
        elif k == 's':
            for i, x in enumerate(t[1]):
                self.put(buf, off + field_off(t, i), x, v[i])
        elif k == 'a':
            if t[2] == ('i', 8):
                buf[off:off + t[1]] = bytes(v)
            else:
                s = tsize(t[2])
                for i in range(t[1]):
                    self.put(buf, off + i * s, t[2], v[i])
        elif k == 'v':
            s = tsize(t[2])
            for i in range(t[1]):
                self.put(buf, off + i * s, t[2], v[i])
        else:
            raise Exception('put %r' % (t,))

    def resolve_alias(self, idx):
        """index of the function behind a global that is an alias"""
        g = self.globals[idx]
        if g[0] == 'g' and ' alias ' in g[1]:
            nm = [x for x in TOK.findall(g[1]) if x[0] == '@'][1]
            return self.gidx[nm]
        return idx

    # --- debug locations
    def dbgfile(self, ref):
        """source file of a scope"""
        seen = 0
        while ref and seen < 50:
            t = self.md.get(ref, '')
            m = re.search(r'file: (!\d+)', t)
            if m:
                ft = self.md.get(m.group(1), '')
                fm = re.search(r'filename: "([^"]*)"(?:, directory: "([^"]*)")?', ft)
                if fm:
                    fn = fm.group(1)
                    if not fn.startswith('/') and fm.group(2):
                        fn = fm.group(2) + '/' + fn
                    return fn
            m = re.search(r'scope: (!\d+)', t)
            ref = m.group(1) if m else None
            seen += 1
        return ''

    def loc(self, ref):
        """list of (file, line, subprogram linkage/name) for a DILocation, innermost first"""
        c = getattr(self, '_loc', None)
        if c is None:
            c = self._loc = {}
        if ref in c:
            return c[ref]
        out = []
        r = ref
        while r:
            t = self.md.get(r, '')
            m = re.search(r'DILocation\(line: (\d+)', t)
            if not m:
                break
            sc = re.search(r'scope: (!\d+)', t)
            s = sc.group(1) if sc else None
            fn = self.dbgfile(s)
            sub = s
            for _ in range(50):
                st = self.md.get(sub, '')
                if 'DISubprogram' in st:
                    break
                mm = re.search(r'scope: (!\d+)', st)
                if not mm:
                    break
                sub = mm.group(1)
            out.append((fn, int(m.group(1)), sub))
            ia = re.search(r'inlinedAt: (!\d+)', t)
            r = ia.group(1) if ia else None
        c[ref] = out
        return out


# ======================================================================
BINOP = {'add': '+', 'sub': '-', 'mul': '*', 'and': '&', 'or': '|', 'xor': '^'}


class Compiler:
    """compiles one function to python source"""

    def __init__(self, mod, f):
        self.m = mod
        self.f = f
        self.regs = {}
        self.consts = {}

    def reg(self, nm):
        r = self.regs.get(nm)
        if r is None:
            r = self.regs[nm] = 'v%d' % len(self.regs)
        return r

    def kconst(self, v):
        if v.__class__ is float:
            if v != v:
                return 'NAN'
            if v in (float('inf'), float('-inf')):
                return 'INF' if v > 0 else 'NINF'
            r = repr(v)
            return '(%s)' % r if r[0] == '-' else r
        if v.__class__ is tuple:
            return '(' + ''.join(self.kconst(x) + ',' for x in v) + ')'
        return repr(v)

    def val(self, p, ty):
        x = p.peek()
        if x[0] == '%':
            p.next()
            return self.reg(x)
        if x == 'asm':
            raise X.Unsupported('inline asm')
        return self.kconst(p.const(ty))

    def tval(self, p):
        t = p.type()
        p.skip_attrs()
        return t, self.val(p, t)

    def compile(self):
        head, body = self.f.lines
        p = P(TOK.findall(head), self.m)
        while p.peek()[0] != '@':
            p.next()
        p.next()
        p.expect('(')
        params = []
        if not p.eat(')'):
            n = 0
            while True:
                if p.eat('...'):
                    p.expect(')')
                    break
                t = p.type()
                p.skip_attrs()
                if p.peek() and p.peek()[0] == '%':
                    params.append(self.reg(p.next()))
                else:
                    params.append(self.reg('%' + str(n)))
                n += 1
                if p.eat(')'):
                    break
                p.expect(',')
        # split in blocks
        blocks = []   # (label, [instr lines])
        cur = None
        for l in body:
            if not l:
                continue
            if l[0] != ' ':
                k = l.index(':') if l[0] != '"' else l.index('":') + 1
                lab = l[:k]
                cur = ['%' + lab, []]
                blocks.append(cur)
            else:
                if cur is None:
                    cur = ['%entry$', []]
                    blocks.append(cur)
                s = l.strip()
                if s.startswith('#dbg'):
                    continue
                if cur[1] and cur[1][-1].startswith('switch') and not cur[1][-1].rstrip().endswith(']') and ']' not in cur[1][-1]:
                    cur[1][-1] += ' ' + s
                elif s.startswith('to label ') and cur[1] and 'invoke ' in cur[1][-1]:
                    cur[1][-1] += ' ' + s
                else:
                    cur[1].append(s)
        self.bno = {b[0]: i for i, b in enumerate(blocks)}
        # phis
        self.phis = {}
        for lab, ins in blocks:
            ph = []
            for s in ins:
                m = re.match(r'(%(?:"[^"]*"|[-\w.$]+)) = phi ', s)
                if not m:
                    break
                p = P(TOK.findall(s), self.m)
                dst = self.reg(p.next())
                p.expect('=')
                p.expect('phi')
                while not p.is_type():
                    p.next()
                t = p.type()
                inc = {}
                while True:
                    p.expect('[')
                    v = self.val(p, t)
                    p.expect(',')
                    inc[p.next()] = v
                    p.expect(']')
                    if not p.eat(','):
                        break
                    if p.peek() != '[':
                        break
                ph.append((dst, inc))
            self.phis[lab] = ph
        code = []
        for bi, (lab, ins) in enumerate(blocks):
            out = []
            cid = self.cov(lab, ins)
            out.append('COV[%d]=1' % cid)
            self.cur = lab
            for s in ins:
                if ' = phi ' in s:
                    continue
                try:
                    self.instr(s, out)
                except X.Unsupported as e:
                    out.append('raise Unsupported(%r)' % (str(e),))
                    break
            code.append(out)
        src = ['def fn(%s):' % ', '.join(params), ' STEP()' if False else ' pass']
        src.append(' bb=0')
        src.append(' while True:')

        def disp(lo, hi, ind):
            if hi - lo == 1:
                for o in code[lo]:
                    for ln in o.split('\n'):
                        src.append(' ' * ind + ln)
                return
            mid = (lo + hi) // 2
            src.append(' ' * ind + 'if bb<%d:' % mid)
            disp(lo, mid, ind + 1)
            src.append(' ' * ind + 'else:')
            disp(mid, hi, ind + 1)
        disp(0, len(code), 2)
        return '\n'.join(src)

    def cov(self, lab, ins):
        refs = set()
        for s in ins:
            k = s.rfind('!dbg !')
            if k >= 0:
                m = re.match(r'!dbg (!\d+)', s[k:])
                refs.add(m.group(1))
        self.m.cov_blocks.append((self.f.name, lab, refs))
        return len(self.m.cov_blocks) - 1

    def goto(self, lab):
        """statements for jumping to label from the current block"""
        ph = self.phis[lab]
        r = ''
        if ph:
            ds = [d for d, _ in ph]
            vs = [inc[self.cur] for _, inc in ph]
            prs = [(d, v) for d, v in zip(ds, vs) if d != v]
            if len(prs) == 1:
                r = '%s=%s; ' % prs[0]
            elif prs:
                r = '%s=%s; ' % (','.join(d for d, _ in prs), ','.join(v for _, v in prs))
        return r + 'bb=%d' % self.bno[lab]

    def mask(self, w):
        return '0x%x' % ((1 << w) - 1)

    def instr(self, s, out):
        p = P(TOK.findall(s), self.m)
        dst = None
        if p.peek()[0] == '%' and p.peek(1) == '=':
            dst = self.reg(p.next())
            p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()
        fn = getattr(self, 'i_' + op, None)
        if fn is None:
            raise X.Unsupported('instruction ' + op + ': ' + s[:100])
        fn(p, dst, out)

    # --- terminators
    def i_ret(self, p, d, o):
        t = p.type()
        if t == VOID:
            o.append('return None')
        else:
            o.append('return ' + self.val(p, t))

    def i_br(self, p, d, o):
        if p.peek() == 'label':
            p.next()
            o.append(self.goto(p.next()))
            return
        t, c = self.tval(p)
        p.expect(','); p.expect('label')
        a = p.next()
        p.expect(','); p.expect('label')
        b = p.next()
        o.append('if (%s if %s.__class__ is not E else D(%s)): %s' % (c, c, c, self.goto(a)) if c not in ('True', 'False') else 'if %s: %s' % (c, self.goto(a)))
        o.append('else: ' + self.goto(b))

    def i_switch(self, p, d, o):
        t, v = self.tval(p)
        p.expect(','); p.expect('label')
        dflt = p.next()
        p.expect('[')
        cases = []
        while not p.eat(']'):
            ct = p.type()
            cv = p.const(ct)
            p.expect(','); p.expect('label')
            cases.append((cv, p.next()))
        o.append('sw=%s if %s.__class__ is not E else SWITCH(%s,(%s))' % (v, v, v, ''.join('%r,' % c for c, _ in cases)))
        kw = 'if'
        for c, lab in cases:
            o.append('%s sw==%r: %s' % (kw, c, self.goto(lab)))
            kw = 'elif'
        if cases:
            o.append('else: ' + self.goto(dflt))
        else:
            o.append(self.goto(dflt))

    def i_unreachable(self, p, d, o):
        o.append('raise PathError("unreachable executed")')

    # --- binary ops
    def _bin(self, p):
        while not p.is_type():
            p.next()
        t = p.type()
        a = self.val(p, t)
        p.expect(',')
        b = self.val(p, t)
        return t, a, b

    def _arith(self, op, p, d, o):
        t, a, b = self._bin(p)
        if t[0] == 'v':
            o.append('%s=VBIN(%r,%s,%s,%d)' % (d, op, a, b, t[2][1]))
            return
        w = t[1]
        if w == 1:
            pyop = {'add': '^', 'sub': '^', 'mul': '&'}.get(op) or BINOP[op]
            o.append('%s=%s%s%s' % (d, a, pyop, b))
        elif op in ('and', 'or', 'xor'):
            o.append('%s=%s%s%s' % (d, a, BINOP[op], b))
        else:
            o.append('%s=(%s%s%s)&%s' % (d, a, BINOP[op], b, self.mask(w)))

    def i_add(self, p, d, o): self._arith('add', p, d, o)
    def i_sub(self, p, d, o): self._arith('sub', p, d, o)
    def i_mul(self, p, d, o): self._arith('mul', p, d, o)
    def i_and(self, p, d, o): self._arith('and', p, d, o)
    def i_or(self, p, d, o): self._arith('or', p, d, o)
    def i_xor(self, p, d, o): self._arith('xor', p, d, o)

    def _shift(self, op, p, d, o):
        t, a, b = self._bin(p)
        if t[0] == 'v':
            o.append('%s=VBIN(%r,%s,%s,%d)' % (d, op, a, b, t[2][1]))
            return
        w = t[1]
        if op == 'lshr' and b.isdigit():
            o.append('%s=%s>>%s' % (d, a, b))
        else:
            o.append('%s=%s(%s,%s,%d)' % (d, op, a, b, w))

    def i_shl(self, p, d, o): self._shift('shl', p, d, o)
    def i_lshr(self, p, d, o): self._shift('lshr', p, d, o)
    def i_ashr(self, p, d, o): self._shift('ashr', p, d, o)

    def _div(self, op, p, d, o):
        t, a, b = self._bin(p)
        o.append('%s=%s(%s,%s,%d)' % (d, op, a, b, t[1]))

    def i_udiv(self, p, d, o): self._div('udiv', p, d, o)
    def i_urem(self, p, d, o): self._div('urem', p, d, o)
    def i_sdiv(self, p, d, o): self._div('sdiv', p, d, o)
    def i_srem(self, p, d, o): self._div('srem', p, d, o)

    def _fbin(self, op, p, d, o):
        t, a, b = self._bin(p)
        if t == F64:
            o.append('%s=%s(%s,%s)' % (d, op, a, b))
        elif t == F32 and op != 'frem':
            # rounding to double first does not change the result of these
            o.append('%s=F32(%s(%s,%s))' % (d, op, a, b))
        else:
            raise X.Unsupported('float type %r' % (t,))

    def i_fadd(self, p, d, o): self._fbin('fadd', p, d, o)
    def i_fsub(self, p, d, o): self._fbin('fsub', p, d, o)
    def i_fmul(self, p, d, o): self._fbin('fmul', p, d, o)
    def i_fdiv(self, p, d, o): self._fbin('fdiv', p, d, o)
    def i_frem(self, p, d, o): self._fbin('frem', p, d, o)

    def i_fneg(self, p, d, o):
        while not p.is_type():
            p.next()
        t, a = self.tval(p)
        o.append('%s=fneg(%s)' % (d, a))

    # --- casts
    def _cast(self, p):
        while not p.is_type():
            p.next()
        t, a = self.tval(p)
        p.expect('to')
        t2 = p.type()
        return t, a, t2

    def i_trunc(self, p, d, o):
        t, a, t2 = self._cast(p)
        if t[0] == 'v':
            raise X.Unsupported('vector trunc')
        if t2[1] == 1:
            o.append('%s=(%s&1)!=0 if %s.__class__ is not E else extract(%s,0,1)' % (d, a, a, a))
        else:
            o.append('%s=%s&%s if %s.__class__ is not E else extract(%s,0,%d)' % (d, a, self.mask(t2[1]), a, a, t2[1]))

    def i_zext(self, p, d, o):
        t, a, t2 = self._cast(p)
        if t[0] == 'v':
            raise X.Unsupported('vector zext')
        if t[1] == 1:
            o.append('%s=int(%s) if %s.__class__ is not E else zext(%s,%d,%d)' % (d, a, a, a, t[1], t2[1]))
        else:
            o.append('%s=%s if %s.__class__ is not E else zext(%s,%d,%d)' % (d, a, a, a, t[1], t2[1]))

    def i_sext(self, p, d, o):
        t, a, t2 = self._cast(p)
        if t[0] == 'v':
            raise X.Unsupported('vector sext')
        o.append('%s=sext(%s,%d,%d)' % (d, a, t[1], t2[1]))

    def i_ptrtoint(self, p, d, o):
        t, a, t2 = self._cast(p)
        if t2[1] == 64:
            o.append('%s=%s' % (d, a))
        else:
            o.append('%s=extract(%s,0,%d)' % (d, a, t2[1]))
    i_ptrtoaddr = i_ptrtoint

    def i_inttoptr(self, p, d, o):
        t, a, t2 = self._cast(p)
        o.append('%s=%s' % (d, a))

    def i_bitcast(self, p, d, o):
        t, a, t2 = self._cast(p)
        if t == F64 and t2 == ('i', 64):
            o.append('%s=f2b(%s)' % (d, a))
        elif t == ('i', 64) and t2 == F64:
            o.append('%s=b2f(%s)' % (d, a))
        elif t == t2:
            o.append('%s=%s' % (d, a))
        elif t[0] == 'v' and t[2] == I1 and t2[0] == 'i':
            o.append('%s=VMASK(%s)' % (d, a))
        else:
            raise X.Unsupported('bitcast %r %r' % (t, t2))

    def i_fptoui(self, p, d, o):
        t, a, t2 = self._cast(p)
        o.append('%s=f2ui(%s,%d)' % (d, a, t2[1]))

    def i_fptosi(self, p, d, o):
        t, a, t2 = self._cast(p)
        o.append('%s=f2si(%s,%d)' % (d, a, t2[1]))

    def i_uitofp(self, p, d, o):
        t, a, t2 = self._cast(p)
        if t2 != F64:
            raise X.Unsupported('uitofp %r' % (t2,))
        o.append('%s=ui2f(%s)' % (d, a))

    def i_sitofp(self, p, d, o):
        t, a, t2 = self._cast(p)
        if t2 != F64:
            raise X.Unsupported('sitofp %r' % (t2,))
        o.append('%s=si2f(%s,%d)' % (d, a, t[1]))

    def i_fptrunc(self, p, d, o):
        t, a, t2 = self._cast(p)
        o.append('%s=F32(%s)' % (d, a))

    def i_fpext(self, p, d, o):
        t, a, t2 = self._cast(p)
        o.append('%s=%s' % (d, a))

    def i_freeze(self, p, d, o):
        t, a = self.tval(p)
        o.append('%s=%s' % (d, a))

    # --- compares
    def i_icmp(self, p, d, o):
        if p.peek() == 'samesign':
            p.next()
        cc = p.next()
        if cc == 'samesign':
            cc = p.next()
        t, a = self.tval(p)
        p.expect(',')
        b = self.val(p, t)
        if t[0] == 'v':
            o.append('%s=VICMP(%r,%s,%s,%d)' % (d, cc, a, b, t[2][1]))
            return
        w = t[1] if t[0] == 'i' else 64
        py = {'eq': '==', 'ne': '!=', 'ult': '<', 'ugt': '>', 'ule': '<=', 'uge': '>='}.get(cc)
        if py:
            o.append('%s=%s%s%s' % (d, a, py, b))
        else:
            f, x, y = {'slt': ('slt', a, b), 'sgt': ('slt', b, a), 'sle': ('sle', a, b), 'sge': ('sle', b, a)}[cc]
            o.append('%s=%s(%s,%s,%d)' % (d, f, x, y, w))

    def i_fcmp(self, p, d, o):
        cc = p.next()
        while cc in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
            cc = p.next()
        t, a = self.tval(p)
        p.expect(',')
        b = self.val(p, t)
        if t[0] == 'v':
            raise X.Unsupported('vector fcmp')
        e = {'oeq': '%s==%s', 'olt': '%s<%s', 'ogt': '%s>%s', 'ole': '%s<=%s', 'oge': '%s>=%s', 'une': '%s!=%s'}.get(cc)
        if e:
            e = e % (a, b)
        elif cc in ('ult', 'ugt', 'ule', 'uge'):
            e = 'not_(%s%s%s)' % (a, {'ult': '>=', 'ugt': '<=', 'ule': '>', 'uge': '<'}[cc], b)
        elif cc == 'one':
            e = '(%s<%s)|(%s>%s)' % (a, b, a, b)
        elif cc == 'ueq':
            e = 'not_((%s<%s)|(%s>%s))' % (a, b, a, b)
        elif cc == 'ord':
            e = 'not_(isnan(%s)|isnan(%s))' % (a, b)
        elif cc == 'uno':
            e = 'isnan(%s)|isnan(%s)' % (a, b)
        elif cc == 'true':
            e = 'True'
        else:
            e = 'False'
        o.append('%s=%s' % (d, e))

    def i_select(self, p, d, o):
        while not p.is_type():
            p.next()
        ct, c = self.tval(p)
        p.expect(',')
        t, a = self.tval(p)
        p.expect(',')
        t2, b = self.tval(p)
        if ct[0] == 'v':
            raise X.Unsupported('vector select')
        if t[0] == 'f':
            w = X.F
        elif t[0] == 'i':
            w = t[1]
        elif t[0] == 'p':
            w = 64
        else:
            w = 0
        o.append('%s=(%s if %s else %s) if %s.__class__ is not E else SEL(%s,%s,%s,%d)' % (d, a, c, b, c, c, a, b, w))

    # --- memory
    def i_alloca(self, p, d, o):
        t = p.type()
        n = tsize(t)
        if p.peek() == ',' and p.peek(1) != 'align':
            p.next()
            if p.is_type():
                _, k = self.tval(p)
                o.append('%s=ALLOCA(%d*%s)' % (d, n, k))
                return
        o.append('%s=ALLOCA(%d)' % (d, n))

    def i_load(self, p, d, o):
        while p.peek() in ('volatile', 'atomic'):
            p.next()
        t = p.type()
        p.expect(',')
        _, a = self.tval(p)
        o.append('%s=%s' % (d, self.ldexpr(t, a)))

    def ldexpr(self, t, a):
        if t[0] == 'i':
            n = tsize(t)
            if t[1] == 1:
                return 'LDB(%s)' % a
            if t[1] % 8:
                return 'trunc(LDI(%s,%d),%d)' % (a, (t[1] + 7) // 8, t[1])
            return 'LDI(%s,%d)' % (a, t[1] // 8)
        if t[0] == 'p':
            return 'LDI(%s,8)' % a
        if t == F64:
            return 'LDF(%s)' % a
        return 'LDT(%s,%r)' % (a, t)

    def i_store(self, p, d, o):
        while p.peek() in ('volatile', 'atomic'):
            p.next()
        t, v = self.tval(p)
        p.expect(',')
        _, a = self.tval(p)
        if t[0] == 'i':
            o.append('STI(%s,%d,%s)' % (a, (t[1] + 7) // 8, v))
        elif t[0] == 'p':
            o.append('STI(%s,8,%s)' % (a, v))
        elif t == F64:
            o.append('STF(%s,%s)' % (a, v))
        else:
            o.append('STT(%s,%r,%s)' % (a, t, v))

    def i_getelementptr(self, p, d, o):
        while not p.is_type():
            if p.peek() == '(':
                p.skip_bal()
            else:
                p.next()
        bt = p.type()
        p.expect(',')
        _, base = self.tval(p)
        off = 0
        terms = []
        first = True
        while p.eat(','):
            if p.peek()[0] == '!':
                break
            t, v = self.tval(p)
            const = re.fullmatch(r'-?\d+', v) is not None
            if first:
                sz = tsize(bt)
                first = False
                if const:
                    off += X.sgn(int(v), t[1]) * sz
                    continue
            elif bt[0] == 's':
                i = int(v)
                off += field_off(bt, i)
                bt = bt[1][i]
                continue
            else:
                bt = bt[2]
                sz = tsize(bt)
                if const:
                    off += X.sgn(int(v), t[1]) * sz
                    continue
            if t[1] != 64:
                v = 'sext(%s,%d,64)' % (v, t[1])
            terms.append(v if sz == 1 else '%s*%d' % (v, sz))
        if not terms and off == 0:
            o.append('%s=%s' % (d, base))
            return
        e = '+'.join([base] + terms)
        if off:
            e += '+%d' % off if off > 0 else '-%d' % -off
        o.append('%s=(%s)&0xffffffffffffffff' % (d, e))

    def i_fence(self, p, d, o):
        pass

    def i_cmpxchg(self, p, d, o):
        while p.peek() in ('weak', 'volatile'):
            p.next()
        _, a = self.tval(p)
        p.expect(',')
        t, c = self.tval(p)
        p.expect(',')
        _, n = self.tval(p)
        o.append('%s=CMPXCHG(%s,%s,%s,%d)' % (d, a, c, n, tsize(t)))

    def i_atomicrmw(self, p, d, o):
        while p.peek() in ('volatile',):
            p.next()
        op = p.next()
        _, a = self.tval(p)
        p.expect(',')
        t, v = self.tval(p)
        o.append('%s=ATOMICRMW(%r,%s,%s,%d)' % (d, op, a, v, tsize(t)))

    # --- aggregates
    def i_extractvalue(self, p, d, o):
        t, v = self.tval(p)
        idx = []
        while p.eat(','):
            if p.peek()[0] == '!':
                break
            idx.append(int(p.next()))
        o.append('%s=%s%s' % (d, v, ''.join('[%d]' % i for i in idx)))

    def i_insertvalue(self, p, d, o):
        t, v = self.tval(p)
        p.expect(',')
        _, x = self.tval(p)
        idx = []
        while p.eat(','):
            if p.peek()[0] == '!':
                break
            idx.append(int(p.next()))
        o.append('%s=INSV(%s,%s,%r)' % (d, v, x, tuple(idx)))

    def i_extractelement(self, p, d, o):
        t, v = self.tval(p)
        p.expect(',')
        _, i = self.tval(p)
        o.append('%s=%s[%s]' % (d, v, i))

    def i_insertelement(self, p, d, o):
        t, v = self.tval(p)
        p.expect(',')
        _, x = self.tval(p)
        p.expect(',')
        _, i = self.tval(p)
        o.append('%s=INSV(%s,%s,(%s,))' % (d, v, x, i))

    # --- calls
    def i_call(self, p, d, o):
        # skip calling convention, return attributes
        while not p.is_type():
            if p.peek() == '(':
                p.skip_bal()
            else:
                p.next()
        t = p.type()
        if p.peek() == '(':
            p.skip_bal()
        callee = p.next()
        if callee == 'asm':
            o.append('raise Unsupported("inline asm")')
            return
        p.expect('(')
        args = []
        if not p.eat(')'):
            while True:
                at = p.type()
                if at[0] == 'metadata':
                    # skip metadata argument
                    while p.peek() not in (',', ')'):
                        if p.peek() == '(':
                            p.skip_bal()
                        else:
                            p.next()
                    args.append('None')
                else:
                    p.skip_attrs()
                    args.append(self.val(p, at))
                if p.eat(')'):
                    break
                p.expect(',')
        lhs = '%s=' % d if d else ''
        if callee[0] == '@':
            nm = callee[1:].strip('"')
            if nm.startswith('llvm.'):
                self.intrinsic(nm, args, d, o, t)
                return
            idx = self.m.resolve_alias(self.m.gidx[callee])
            o.append('%sFN[%d](%s)' % (lhs, idx, ','.join(args)))
        else:
            o.append('%sICALL(%s)(%s)' % (lhs, self.reg(callee), ','.join(args)))

    def i_invoke(self, p, d, o):
        # a panic ends the path (panic=abort), so the unwind edge is never taken
        self.i_call(p, d, o)
        while p.next() != 'to':
            pass
        p.expect('label')
        o.append(self.goto(p.next()))

    def i_landingpad(self, p, d, o):
        o.append('raise PathError("landing pad")')

    def i_resume(self, p, d, o):
        o.append('raise PathError("resume")')

    def intrinsic(self, nm, a, d, o, t):
        base = nm[5:]
        for pre in ('lifetime.', 'experimental.noalias', 'assume', 'dbg.', 'donothing', 'prefetch', 'invariant.', 'var.annotation'):
            if base.startswith(pre):
                return
        if base.startswith('memcpy') or base.startswith('memmove'):
            o.append('MEMCPY(%s,%s,%s)' % tuple(a[:3]))
            return
        if base.startswith('memset'):
            o.append('MEMSET(%s,%s,%s)' % tuple(a[:3]))
            return
        if base in ('trap', 'debugtrap', 'ubsantrap'):
            o.append('raise PathError("trap")')
            return
        if base.startswith('expect') or base.startswith('threadlocal.address') or base.startswith('launder') or base.startswith('strip.inv') or base.startswith('ssa.copy'):
            o.append('%s=%s' % (d, a[0]))
            return
        if base.startswith('is.constant'):
            o.append('%s=False' % d)
            return
        m = re.match(r'([a-z.]+[a-z])\.(?:i(\d+)|f(\d+)|p0)', base)
        parts = base.split('.')
        w = None
        for x in parts:
            if re.fullmatch(r'i\d+', x):
                w = int(x[1:])
                break
        if base.startswith('fptoui.sat'):
            o.append('%s=f2ui(%s,%d)' % (d, a[0], t[1]))
            return
        if base.startswith('fptosi.sat'):
            o.append('%s=f2si(%s,%d)' % (d, a[0], t[1]))
            return
        if base.startswith('is.fpclass'):
            o.append('%s=FPCLASS(%s,%s)' % (d, a[0], a[1]))
            return
        if base.endswith('.f64') or '.f64.' in base:
            name = base.split('.f64')[0]
            simple = {'sqrt': 'sqrt', 'floor': 'floor', 'ceil': 'ceil', 'trunc': 'ftrunc', 'rint': 'rint', 'nearbyint': 'rint', 'roundeven': 'rint', 'round': 'round',
                      'exp': 'exp', 'log': 'log', 'log2': 'log2', 'log10': 'log10', 'exp2': 'exp2', 'sin': 'sin', 'cos': 'cos', 'tan': 'tan'}
            if name == 'fabs':
                o.append('%s=fabs(%s)' % (d, a[0]))
            elif name in simple:
                o.append('%s=fun(%r,%s)' % (d, simple[name], a[0]))
            elif name == 'pow':
                o.append('%s=POW(%s,%s)' % (d, a[0], a[1]))
            elif name == 'powi':
                o.append('%s=POWI(%s,%s)' % (d, a[0], a[1]))
            elif name in ('fma', 'fmuladd'):
                o.append('%s=FMA(%s,%s,%s)' % (d, a[0], a[1], a[2]))
            elif name == 'copysign':
                o.append('%s=COPYSIGN(%s,%s)' % (d, a[0], a[1]))
            elif name in ('minnum', 'maxnum', 'minimumnum', 'maximumnum', 'minimum', 'maximum'):
                o.append('%s=FMINMAX(%r,%s,%s)' % (d, name, a[0], a[1]))
            else:
                raise X.Unsupported('intrinsic ' + nm)
            return
        if t[0] == 'v':
            raise X.Unsupported('vector intrinsic ' + nm)
        name = base.rsplit('.i', 1)[0] if w else base
        if w is not None:
            fn = name.replace('.', '_').upper()
            if re.match(r'[us](cmp)', name):
                name = name[:4]
                w = int(parts[2][1:])
                fn = name.upper()
            o.append('%s=I_%s(%s,%d)' % (d, fn, ','.join(a), w))
            return
        raise X.Unsupported('intrinsic ' + nm)
