"""Hash-consed symbolic expressions over booleans, bit-vectors and IEEE doubles.

Concrete values are plain Python ints (bit-vectors, unsigned), bools (i1) and
floats (doubles).  A symbolic value is an E.  width w: 1 = Bool, >1 = BV,
-64 = double.
"""
import struct, math

F = -64
_tab = {}
_ids = [0]


def fbits(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def bitsf(b):
    return struct.unpack('<d', struct.pack('<Q', b & 0xFFFFFFFFFFFFFFFF))[0]


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


class Unsupported(Exception):
    pass


class E:
    __slots__ = ('op', 'w', 'a', 'id', 'vs', '__weakref__')

    def __hash__(self):
        return self.id

    def __bool__(self):
        raise Unsupported('implicit bool() of a symbolic value: %s' % (self,))

    __index__ = None

    def __repr__(self):
        return show(self)

    # --- arithmetic (BV modular, or double)
    def __add__(s, o): return add(s, o)
    def __radd__(s, o): return add(o, s)
    def __sub__(s, o): return sub(s, o)
    def __rsub__(s, o): return sub(o, s)
    def __mul__(s, o): return mul(s, o)
    def __rmul__(s, o): return mul(o, s)
    def __and__(s, o): return band(s, o)
    def __rand__(s, o): return band(s, o)
    def __or__(s, o): return bor(s, o)
    def __ror__(s, o): return bor(s, o)
    def __xor__(s, o): return bxor(s, o)
    def __rxor__(s, o): return bxor(s, o)
    def __rshift__(s, o): return lshr(s, o, s.w)
    # --- comparisons: unsigned for BV, ordered for doubles
    def __eq__(s, o): return eq(s, o)
    def __ne__(s, o): return not_(eq(s, o))
    def __lt__(s, o): return lt(s, o)
    def __gt__(s, o): return lt(o, s)
    def __le__(s, o): return le(s, o)
    def __ge__(s, o): return le(o, s)


def _k(x):
    c = x.__class__
    if c is E:
        return x.id
    if c is float:
        return ('f', fbits(x))
    if c is bool:
        return ('i', int(x))
    if c is int:
        return ('i', x)
    return x


_EMPTY = frozenset()


def mk(op, w, *a):
    key = (op, w) + tuple(_k(x) for x in a)
    e = _tab.get(key)
    if e is None:
        e = E()
        e.op = op
        e.w = w
        e.a = a
        _ids[0] += 1
        e.id = _ids[0]
        vs = None
        for x in a:
            if x.__class__ is E:
                vs = x.vs if vs is None else (vs if x.vs <= vs else vs | x.vs)
        e.vs = vs if vs is not None else _EMPTY
        _tab[key] = e
    return e


def var(name, w):
    e = mk('var', w, name)
    if not e.vs:
        e.vs = frozenset([name])
    return e


def isE(x):
    return x.__class__ is E


def isf(a, b):
    return (a.w if a.__class__ is E else (F if a.__class__ is float else (b.w if b.__class__ is E else 0))) == F


def width(a, b):
    return a.w if a.__class__ is E else b.w


# ---------------------------------------------------------------- BV / FP ops
def add(a, b):
    if isf(a, b):
        return fop('fadd', a, b)
    w = width(a, b)
    if a.__class__ is not E:
        a, b = b, a
    if b.__class__ is not E:
        b &= (1 << w) - 1
        if b == 0:
            return a
        if a.op == 'add' and a.a[1].__class__ is not E:
            return add(a.a[0], (a.a[1] + b) & ((1 << w) - 1))
        if a.op == 'ite' and a.a[1].__class__ is not E and a.a[2].__class__ is not E:
            m = (1 << w) - 1
            return ite(a.a[0], (a.a[1] + b) & m, (a.a[2] + b) & m, w)
    elif a.id > b.id:
        a, b = b, a
    return mk('add', w, a, b)


def sub(a, b):
    if isf(a, b):
        return fop('fsub', a, b)
    w = width(a, b)
    if a is b:
        return 0
    if b.__class__ is not E:
        return add(a, (-b) & ((1 << w) - 1))
    return mk('sub', w, a & ((1 << w) - 1) if a.__class__ is not E else a, b)


def mul(a, b):
    if isf(a, b):
        return fop('fmul', a, b)
    w = width(a, b)
    if a.__class__ is not E:
        a, b = b, a
    if b.__class__ is not E:
        b &= (1 << w) - 1
        if b == 0:
            return 0
        if b == 1:
            return a
        if a.op == 'ite' and a.a[1].__class__ is not E and a.a[2].__class__ is not E:
            m = (1 << w) - 1
            return ite(a.a[0], (a.a[1] * b) & m, (a.a[2] * b) & m, w)
    elif a.id > b.id:
        a, b = b, a
    return mk('mul', w, a, b)


def band(a, b):
    if a.__class__ is not E:
        a, b = b, a
    w = a.w
    if b.__class__ is not E:
        if w == 1:
            return a if b else False
        m = (1 << w) - 1
        b &= m
        if b == m:
            return a
        if b == 0:
            return 0
        if b == 0x7FFFFFFFFFFFFFFF and w == 64 and a.op == 'f2b':
            return f2b(fabs(a.a[0]))
        if a.op == 'zext' and b & ((1 << a.a[0].w) - 1) == (1 << a.a[0].w) - 1:
            return a
        if a.op == 'ite' and a.a[1].__class__ is not E and a.a[2].__class__ is not E:
            return ite(a.a[0], a.a[1] & b, a.a[2] & b, w)
        return mk('and', w, a, b)
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    if w == 1:
        if (a.op == 'not' and a.a[0] is b) or (b.op == 'not' and b.a[0] is a):
            return False
    return mk('and', w, a, b)


def bor(a, b):
    if a.__class__ is not E:
        a, b = b, a
    w = a.w
    if b.__class__ is not E:
        if w == 1:
            return True if b else a
        m = (1 << w) - 1
        b &= m
        if b == 0:
            return a
        if b == m:
            return m
        return mk('or', w, a, b)
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    if w == 1:
        if (a.op == 'not' and a.a[0] is b) or (b.op == 'not' and b.a[0] is a):
            return True
    return mk('or', w, a, b)


def bxor(a, b):
    if a.__class__ is not E:
        a, b = b, a
    w = a.w
    if b.__class__ is not E:
        if w == 1:
            return not_(a) if b else a
        b &= (1 << w) - 1
        if b == 0:
            return a
        return mk('xor', w, a, b)
    if a is b:
        return False if w == 1 else 0
    if a.id > b.id:
        a, b = b, a
    if w == 1:
        return mk('xor', 1, a, b)
    return mk('xor', w, a, b)


def not_(a):
    if a.__class__ is not E:
        return not a
    if a.op == 'not':
        return a.a[0]
    return mk('not', 1, a)


def shl(a, b, w):
    if a.__class__ is not E and b.__class__ is not E:
        return (a << b) & ((1 << w) - 1) if b < w else 0
    if b.__class__ is not E:
        if b == 0:
            return a
        if b >= w:
            return 0
    elif a.__class__ is not E and a == 0:
        return 0
    return mk('shl', w, a, b)


def lshr(a, b, w):
    if a.__class__ is not E and b.__class__ is not E:
        return a >> b if b < w else 0
    if b.__class__ is not E:
        if b == 0:
            return a
        if b >= w:
            return 0
        if a.op == 'zext' and b >= a.a[0].w:
            return 0
        if a.op == 'ite' and a.a[1].__class__ is not E and a.a[2].__class__ is not E:
            return ite(a.a[0], a.a[1] >> b, a.a[2] >> b, w)
    elif a.__class__ is not E and a == 0:
        return 0
    return mk('lshr', w, a, b)


def ashr(a, b, w):
    if a.__class__ is not E and b.__class__ is not E:
        return (sgn(a, w) >> min(b, w - 1)) & ((1 << w) - 1)
    return mk('ashr', w, a, b)


def udiv(a, b, w):
    if a.__class__ is not E and b.__class__ is not E:
        return a // b
    if b.__class__ is not E and b == 1:
        return a
    return mk('udiv', w, a, b)


def urem(a, b, w):
    if a.__class__ is not E and b.__class__ is not E:
        return a % b
    return mk('urem', w, a, b)


def sdiv(a, b, w):
    if a.__class__ is not E and b.__class__ is not E:
        x, y = sgn(a, w), sgn(b, w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & ((1 << w) - 1)
    return mk('sdiv', w, a, b)


def srem(a, b, w):
    if a.__class__ is not E and b.__class__ is not E:
        x, y = sgn(a, w), sgn(b, w)
        r = abs(x) % abs(y)
        return (-r if x < 0 else r) & ((1 << w) - 1)
    return mk('srem', w, a, b)


def eq(a, b):
    if a.__class__ is not E:
        if b.__class__ is not E:
            return a == b
        a, b = b, a
    w = a.w
    if w == F:
        if b.__class__ is not E:
            if b != b:
                return False
        elif a is b:
            return not_(isnan(a))
        elif a.id > b.id:
            a, b = b, a
        return mk('feq', 1, a, b)
    if a is b:
        return True
    if w == 1:
        if b.__class__ is not E:
            return a if b else not_(a)
        return not_(bxor(a, b))
    if b.__class__ is not E:
        b &= (1 << w) - 1
        if a.op == 'zext':
            iw = a.a[0].w
            if b >> iw:
                return False
            return eq(a.a[0], b if iw > 1 else bool(b))
        if a.op == 'ite':
            c, x, y = a.a
            if x.__class__ is not E or y.__class__ is not E:
                ex = eq(x, b) if x.__class__ is E else (x & ((1 << w) - 1)) == b
                ey = eq(y, b) if y.__class__ is E else (y & ((1 << w) - 1)) == b
                return ite(c, ex, ey, 1)
        if a.op == 'add' and a.a[1].__class__ is not E:
            return eq(a.a[0], (b - a.a[1]) & ((1 << w) - 1))
        if a.op == 'xor' and a.a[1].__class__ is not E:
            return eq(a.a[0], b ^ a.a[1])
        if a.op == 'or' and a.a[1].__class__ is not E and (a.a[1] & ~b):
            return False
    else:
        if a.op == 'f2b' and b.op == 'f2b' and a.a[0] is b.a[0]:
            return True
        if a.op == 'zext' and b.op == 'zext' and a.a[0].w == b.a[0].w:
            return eq(a.a[0], b.a[0])
        if a.id > b.id:
            a, b = b, a
    return mk('eq', 1, a, b)


def lt(a, b):
    if isf(a, b):
        if a is b:
            return False
        return mk('flt', 1, a, b)
    if a is b:
        return False
    w = width(a, b)
    if b.__class__ is not E:
        b &= (1 << w) - 1
        if b == 0:
            return False
        if a.op == 'zext' and b >> a.a[0].w:
            return True
        if b == 1:
            return eq(a, 0)
        if a.op == 'ite' and a.a[1].__class__ is not E and a.a[2].__class__ is not E:
            return ite(a.a[0], a.a[1] < b, a.a[2] < b, 1)
    elif a.__class__ is not E:
        m = (1 << w) - 1
        a &= m
        if a == m:
            return False
        if b.op == 'zext' and a >= (1 << b.a[0].w) - 1:
            return False
        if b.op == 'ite' and b.a[1].__class__ is not E and b.a[2].__class__ is not E:
            return ite(b.a[0], a < b.a[1], a < b.a[2], 1)
        if a == 0:
            return not_(eq(b, 0))
    return mk('ult', 1, a, b)


def le(a, b):
    if isf(a, b):
        if a is b:
            return not_(isnan(a))
        return mk('fle', 1, a, b)
    return not_(lt(b, a))


def slt(a, b, w):
    if a.__class__ is not E and b.__class__ is not E:
        return sgn(a, w) < sgn(b, w)
    if a is b:
        return False
    if a.__class__ is E and a.op == 'ite' and b.__class__ is not E and a.a[1].__class__ is not E and a.a[2].__class__ is not E:
        return ite(a.a[0], slt(a.a[1], b, w), slt(a.a[2], b, w), 1)
    if b.__class__ is E and b.op == 'ite' and a.__class__ is not E and b.a[1].__class__ is not E and b.a[2].__class__ is not E:
        return ite(b.a[0], slt(a, b.a[1], w), slt(a, b.a[2], w), 1)
    if a.__class__ is E and b.__class__ is not E and b == 0 and a.op == 'f2b':
        return mk('fsign', 1, a.a[0])
    return mk('slt', 1, a, b)


def sle(a, b, w):
    return not_(slt(b, a, w))


def zext(a, w0, w):
    if a.__class__ is not E:
        return int(a)
    if a.op == 'zext':
        return mk('zext', w, a.a[0])
    if a.op == 'ite' and w0 > 1 and a.a[1].__class__ is not E and a.a[2].__class__ is not E:
        return ite(a.a[0], a.a[1], a.a[2], w)
    return mk('zext', w, a)


def sext(a, w0, w):
    if a.__class__ is not E:
        return sgn(int(a), w0) & ((1 << w) - 1)
    if w0 == 1:
        return ite(a, (1 << w) - 1, 0, w)
    return mk('sext', w, a)


def trunc(a, w):
    return extract(a, 0, w)


def extract(a, lo, w):
    """w bits of a starting at bit lo"""
    if a.__class__ is not E:
        r = (int(a) >> lo) & ((1 << w) - 1)
        return bool(r) if w == 1 else r
    if a.w == 1:
        if lo == 0:
            return a if w == 1 else mk('zext', w, a)
        return 0
    if lo == 0 and w == a.w:
        return a
    if a.op == 'zext':
        iw = a.a[0].w
        if lo == 0:
            if iw == w:
                return a.a[0]
            if iw < w:
                return mk('zext', w, a.a[0])
            return extract(a.a[0], 0, w)
        if lo >= iw:
            return False if w == 1 else 0
    if a.op == 'extract':
        return extract(a.a[0], a.a[1] + lo, w)
    if a.op == 'concat':  # (hi, lo)
        h, l = a.a
        lw = a.a[1].w if a.a[1].__class__ is E else a.w - a.a[0].w
        if lo >= lw:
            return extract(h, lo - lw, w)
        if lo + w <= lw:
            return extract(l, lo, w)
    if a.op == 'ite' and (a.a[1].__class__ is not E or a.a[2].__class__ is not E):
        return ite(a.a[0], extract(a.a[1], lo, w), extract(a.a[2], lo, w), w)
    if w == 1:
        if lo == 0:
            return mk('eq', 1, mk('extract', 2, mk('and', a.w, a, 1), 0), 1) if a.w > 2 else mk('eq', 1, band(a, 1), 1)
        return not_(eq(mk('and', a.w, a, 1 << lo), 0))
    return mk('extract', w, a, lo)


def concat(hi, lo, wh, wl):
    if hi.__class__ is not E and lo.__class__ is not E:
        return (hi << wl) | lo
    if hi.__class__ is not E and hi == 0:
        return zext(lo, wl, wh + wl)
    if (hi.__class__ is E and lo.__class__ is E and hi.op == 'extract' and lo.op == 'extract'
            and hi.a[0] is lo.a[0] and hi.a[1] == lo.a[1] + wl):
        return extract(hi.a[0], lo.a[1], wh + wl)
    if hi.__class__ is E and hi.w == 1:
        hi = mk('zext', wh, hi)
    if lo.__class__ is E and lo.w == 1:
        lo = mk('zext', wl, lo)
    return mk('concat', wh + wl, hi, lo)


def _same(x, y):
    if x.__class__ is E or y.__class__ is E:
        return x is y
    if x.__class__ is float or y.__class__ is float:
        return fbits(float(x)) == fbits(float(y))
    return int(x) == int(y)


def ite(c, x, y, w):
    if c.__class__ is not E:
        return x if c else y
    if _same(x, y):
        return x
    if c.op == 'not':
        return ite(c.a[0], y, x, w)
    if w == 1:
        if x.__class__ is not E:
            return bor(c, y) if x else band(not_(c), y)
        if y.__class__ is not E:
            return bor(not_(c), x) if y else band(c, x)
    return mk('ite', w, c, x, y)


# ---------------------------------------------------------------- doubles
def cfop(op, x, y):
    try:
        if op == 'fadd':
            return x + y
        if op == 'fsub':
            return x - y
        if op == 'fmul':
            return x * y
        if op == 'fdiv':
            if y == 0.0:
                if x == 0.0 or x != x:
                    return math.nan
                return math.copysign(math.inf, x) * math.copysign(1.0, y)
            return x / y
        if op == 'frem':
            if y == 0.0 or math.isinf(x):
                return math.nan
            return math.fmod(x, y)
    except (OverflowError, ValueError):
        return math.nan


def notnegzero(a, d=0):
    """certainly not -0.0 (so that adding 0.0 leaves it as it is)"""
    if a.__class__ is not E:
        return not (a == 0.0 and fbits(a) >> 63)
    if d > 20:
        return False
    if a.op == 'fmul':
        return a.a[0] is a.a[1]
    if a.op == 'fadd':
        return notnegzero(a.a[0], d + 1) or notnegzero(a.a[1], d + 1)
    return a.op in ('fabs', 'ui2f', 'exp')


def fop(op, a, b):
    ca, cb = a.__class__ is not E, b.__class__ is not E
    if ca and cb:
        return cfop(op, a, b)
    if op in ('fmul', 'fadd', 'fsub'):
        if not ca and a.op == 'ite' and a.a[1].__class__ is not E and a.a[2].__class__ is not E:
            return ite(a.a[0], fop(op, a.a[1], b), fop(op, a.a[2], b), F)
        if not cb and b.op == 'ite' and b.a[1].__class__ is not E and b.a[2].__class__ is not E:
            return ite(b.a[0], fop(op, a, b.a[1]), fop(op, a, b.a[2]), F)
    # exact IEEE identities only
    if op == 'fadd':
        if not cb and b.op == 'fneg':
            return fop('fsub', a, b.a[0])
        if not ca and a.op == 'fneg':
            return fop('fsub', b, a.a[0])
        if a is b:
            return mk('fmul', F, a, 2.0)
        if ca and a == 0.0 and fbits(a) >> 63:
            return b
        if cb and b == 0.0 and fbits(b) >> 63:
            return a
        if ca and a == 0.0 and notnegzero(b):
            return b
        if cb and b == 0.0 and notnegzero(a):
            return a
        if not ca and not cb and a.id > b.id or ca:
            a, b = b, a
    elif op == 'fsub':
        if not cb and b.op == 'fneg':
            return fop('fadd', a, b.a[0])
        if cb and b == 0.0 and not fbits(b) >> 63:
            return a
    elif op == 'fmul':
        if ca and a == 1.0:
            return b
        if cb and b == 1.0:
            return a
        if ca and a == -1.0:
            return fneg(b)
        if cb and b == -1.0:
            return fneg(a)
        if not ca and a.op == 'fneg':
            return fneg(fop('fmul', a.a[0], b))
        if not cb and b.op == 'fneg':
            return fneg(fop('fmul', a, b.a[0]))
        if not ca and not cb and a.id > b.id or ca:
            a, b = b, a
    elif op == 'fdiv':
        if cb and b == 1.0:
            return a
    return mk(op, F, a, b)


def fadd(a, b): return fop('fadd', a, b)
def fsub(a, b): return fop('fsub', a, b)
def fmul(a, b): return fop('fmul', a, b)
def fdiv(a, b): return fop('fdiv', a, b)
def frem(a, b): return fop('frem', a, b)


def fneg(a):
    if a.__class__ is not E:
        return -a
    if a.op == 'fneg':
        return a.a[0]
    return mk('fneg', F, a)


def fabs(a):
    if a.__class__ is not E:
        return abs(a)
    if a.op == 'fneg':
        return fabs(a.a[0])
    if a.op == 'fabs':
        return a
    return mk('fabs', F, a)


def isnan(a):
    if a.__class__ is not E:
        return a != a
    if a.op in ('fneg', 'fabs'):
        return isnan(a.a[0])
    if a.op in ('ui2f', 'si2f') or mag(a) is not None:
        return False
    if a.op == 'sqrt':
        n, l = isnan(a.a[0]), lt(a.a[0], 0.0)
        return bor(n, l) if (n.__class__ is E or l.__class__ is E) else n or l
    if a.op == 'ite':
        c, x, y = a.a[0], isnan(a.a[1]), isnan(a.a[2])
        return y if x is y else ite(c, x, y, 1)
    return mk('fisnan', 1, a)


MAG = {}


def mag(a):
    """an upper bound of |a| for a double made of inputs of known range; None: unknown, infinite or NaN"""
    if a.__class__ is not E:
        return abs(a) if abs(a) < 1e300 else None
    if a.id in MAG:
        return MAG[a.id]
    r = None
    if a.op == 'var':
        if a.a[0] in RANGE:
            r = max(abs(x) for x in RANGE[a.a[0]])
    elif a.op in ('fneg', 'fabs'):
        r = mag(a.a[0])
    elif a.op in ('ui2f', 'si2f'):
        r = 4e19
    elif a.op in ('fadd', 'fsub', 'fmul'):
        x, y = mag(a.a[0]), mag(a.a[1])
        if x is not None and y is not None:
            r = (x * y if a.op == 'fmul' else x + y) * 1.0001
    elif a.op == 'fdiv' and a.a[1].__class__ is not E and a.a[1]:
        x = mag(a.a[0])
        if x is not None:
            r = x / abs(a.a[1]) * 1.0001
    elif a.op == 'ite':
        x, y = mag(a.a[1]), mag(a.a[2])
        if x is not None and y is not None:
            r = max(x, y)
    if r is not None and not r < 1e300:
        r = None
    MAG[a.id] = r
    return r


def c_un(op, x):
    try:
        if op == 'sqrt':
            return math.sqrt(x) if x >= 0 else (x if x == 0 else math.nan)
        if op == 'floor':
            return x if math.isinf(x) or x != x else math.copysign(float(math.floor(x)), x)
        if op == 'ceil':
            return x if math.isinf(x) or x != x else math.copysign(float(math.ceil(x)), x)
        if op == 'ftrunc':
            return x if math.isinf(x) or x != x else math.copysign(float(math.trunc(x)), x)
        if op == 'round':
            if math.isinf(x) or x != x:
                return x
            r = math.floor(abs(x))
            if abs(x) - r >= 0.5:
                r += 1
            return math.copysign(float(r), x)
        if op == 'rint':
            return x if math.isinf(x) or x != x else math.copysign(float(round(x)), x)
        if op == 'exp':
            return math.exp(x)
        if op == 'log':
            return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)
        if op == 'log2':
            return math.log2(x) if x > 0 else (-math.inf if x == 0 else math.nan)
        if op == 'log10':
            return math.log10(x) if x > 0 else (-math.inf if x == 0 else math.nan)
        if op == 'exp2':
            return math.pow(2.0, x)
        if op == 'sin':
            return math.sin(x)
        if op == 'cos':
            return math.cos(x)
        if op == 'tan':
            return math.tan(x)
        if op == 'cbrt':
            return math.cbrt(x)
    except OverflowError:
        return math.inf
    except ValueError:
        return math.nan
    raise Unsupported('concrete ' + op)


def c_pow(x, y):
    try:
        return math.pow(x, y)
    except OverflowError:
        return math.inf
    except (ValueError, ZeroDivisionError):
        return math.nan if x < 0 else math.inf


def c_hypot(x, y):
    return math.hypot(x, y)


def c_fma(x, y, z):
    if not (math.isfinite(x) and math.isfinite(y) and math.isfinite(z)):
        return x * y + z
    from fractions import Fraction as Q
    try:
        r = Q(x) * Q(y) + Q(z)
        return float(r) if r else x * y + z
    except OverflowError:
        return math.inf if r > 0 else -math.inf


def fun(op, a):
    if a.__class__ is not E:
        return c_un(op, a)
    return mk(op, F, a)


def c_dig(x, kind, prec):
    return float(('%.' + str(prec) + kind) % x)


def c_f32(x):
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def f32(a):
    """a double rounded to single precision"""
    if a.__class__ is not E:
        return c_f32(a)
    return a if a.op == 'f32' else mk('f32', F, a)


def c_t32(x):
    x = c_f32(x)
    if math.isfinite(x):
        for p in range(1, 10):
            y = float('%.*g' % (p, x))
            if c_f32(y) == x:
                return y
    return x


def t32(a):
    """the double read back from the shortest text of a in single precision"""
    if a.__class__ is not E:
        return c_t32(a)
    return mk('t32', F, a)


def dig(a, kind, prec):
    """a as read back from its text with prec digits after the point"""
    if a.__class__ is not E:
        return c_dig(a, kind, prec)
    return mk('dig', F, a, kind, prec)


def fpow(a, b):
    if a.__class__ is not E and b.__class__ is not E:
        return c_pow(a, b)
    return mk('pow', F, a, b)


def powi(a, n):
    """compiler-rt __powidf2"""
    recip = n < 0
    n = abs(n)
    r = 1.0
    while True:
        if n & 1:
            r = fmul(r, a)
        n >>= 1
        if n == 0:
            break
        a = fmul(a, a)
    return fdiv(1.0, r) if recip else r


def f2b(a):
    if a.__class__ is not E:
        return fbits(a)
    if a.op == 'b2f':
        return a.a[0]
    return mk('f2b', 64, a)


def b2f(a):
    if a.__class__ is not E:
        return bitsf(a)
    if a.op == 'f2b':
        return a.a[0]
    if a.op == 'ite':
        return ite(a.a[0], b2f(a.a[1]), b2f(a.a[2]), F)
    if a.op == 'xor' and a.a[1].__class__ is int and a.a[1] == 1 << 63:
        return fneg(b2f(a.a[0]))
    return mk('b2f', F, a)


def c_f2ui(x, w):
    if x != x or x <= 0:
        return 0
    m = (1 << w) - 1
    return m if x >= m else int(x)


def c_f2si(x, w):
    if x != x:
        return 0
    hi, lo = (1 << (w - 1)) - 1, -(1 << (w - 1))
    v = hi if x >= hi else lo if x <= lo else int(x)
    return v & ((1 << w) - 1)


def f2ui(a, w):
    """saturating"""
    if a.__class__ is not E:
        return c_f2ui(a, w)
    return mk('f2ui', w, a)


def f2si(a, w):
    if a.__class__ is not E:
        return c_f2si(a, w)
    return mk('f2si', w, a)


def ui2f(a):
    if a.__class__ is not E:
        return float(a)
    if a.op == 'ite' and (a.a[1].__class__ is not E and a.a[2].__class__ is not E):
        return ite(a.a[0], ui2f(a.a[1]), ui2f(a.a[2]), F)
    return mk('ui2f', F, a)


def si2f(a, w):
    if a.__class__ is not E:
        return float(sgn(a, w))
    if a.op == 'ite' and (a.a[1].__class__ is not E and a.a[2].__class__ is not E):
        return ite(a.a[0], si2f(a.a[1], w), si2f(a.a[2], w), F)
    return mk('si2f', F, a)


# ---------------------------------------------------------------- evaluation
def evalE(e, m, memo):
    """Evaluate under a model (var name -> concrete); exact IEEE semantics."""
    if e.__class__ is not E:
        return e
    st = [e]
    while st:
        x = st[-1]
        if x.id in memo:
            st.pop()
            continue
        pend = [y for y in x.a if y.__class__ is E and y.id not in memo]
        if pend:
            st.extend(pend)
            continue
        st.pop()
        memo[x.id] = _ev(x, m, [memo[y.id] if y.__class__ is E else y for y in x.a])
    return memo[e.id]


def _ev(x, m, a):
    op, w = x.op, x.w
    if op == 'var':
        return m[a[0]]
    if w > 1:
        M = (1 << w) - 1
        if op == 'add': return (a[0] + a[1]) & M
        if op == 'sub': return (a[0] - a[1]) & M
        if op == 'mul': return (a[0] * a[1]) & M
        if op == 'and': return a[0] & a[1]
        if op == 'or': return a[0] | a[1]
        if op == 'xor': return a[0] ^ a[1]
        if op == 'shl': return shl(a[0], a[1], w)
        if op == 'lshr': return lshr(a[0], a[1], w)
        if op == 'ashr': return ashr(a[0], a[1], w)
        if op == 'udiv': return a[0] // a[1] if a[1] else M
        if op == 'urem': return a[0] % a[1] if a[1] else a[0]
        if op == 'sdiv': return sdiv(a[0], a[1], w) if a[1] else M
        if op == 'srem': return srem(a[0], a[1], w) if a[1] else a[0]
        if op == 'zext': return int(a[0])
        if op == 'sext': return sgn(a[0], x.a[0].w) & M
        if op == 'extract': return (a[0] >> a[1]) & M
        if op == 'concat':
            lw = x.a[1].w if x.a[1].__class__ is E else w - x.a[0].w
            return (a[0] << lw) | a[1]
        if op == 'ite': return a[1] if a[0] else a[2]
        if op == 'f2b': return fbits(a[0])
        if op == 'f2ui': return c_f2ui(a[0], w)
        if op == 'f2si': return c_f2si(a[0], w)
    elif w == 1:
        if op == 'eq': return a[0] == a[1]
        if op == 'ult': return a[0] < a[1]
        if op == 'slt':
            ww = width(*x.a)
            return slt(a[0], a[1], ww)
        if op == 'feq': return a[0] == a[1]
        if op == 'flt': return a[0] < a[1]
        if op == 'fle': return a[0] <= a[1]
        if op == 'fisnan': return a[0] != a[0]
        if op == 'fsign': return bool(fbits(a[0]) >> 63)
        if op == 'not': return not a[0]
        if op == 'and': return bool(a[0]) and bool(a[1])
        if op == 'or': return bool(a[0]) or bool(a[1])
        if op == 'xor': return bool(a[0]) != bool(a[1])
        if op == 'ite': return a[1] if a[0] else a[2]
    else:
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'): return cfop(op, a[0], a[1])
        if op == 'fneg': return -a[0]
        if op == 'fabs': return abs(a[0])
        if op == 'ite': return a[1] if a[0] else a[2]
        if op == 'b2f': return bitsf(a[0])
        if op == 'ui2f': return float(a[0])
        if op == 'si2f': return float(sgn(a[0], x.a[0].w))
        if op == 'pow': return c_pow(a[0], a[1])
        if op == 'dig': return c_dig(a[0], a[1], a[2])
        if op == 'copysign': return math.copysign(a[0], a[1])
        if op == 'f32': return c_f32(a[0])
        if op == 't32': return c_t32(a[0])
        return c_un(op, a[0])
    raise Unsupported('eval ' + op)


HASINT = {}


def conversions(e):
    """float->integer conversions in e, innermost first"""
    if e.__class__ is not E:
        return ()
    st = [e]
    while st:
        x = st[-1]
        if x.id in HASINT:
            st.pop()
            continue
        pend = [y for y in x.a if y.__class__ is E and y.id not in HASINT]
        if pend:
            st.extend(pend)
            continue
        st.pop()
        r = ()
        for y in x.a:
            if y.__class__ is E:
                r += tuple(z for z in HASINT[y.id] if not any(z is q for q in r))
        if x.op in ('f2ui', 'f2si'):
            r += (x,)
        HASINT[x.id] = r
    return HASINT[e.id]


def subst(e, memo, known=None):
    """e with the nodes of memo (id -> value) replaced"""
    if e.__class__ is not E:
        return e
    st = [e]
    while st:
        x = st[-1]
        if x.id in memo:
            st.pop()
            continue
        pend = [y for y in x.a if y.__class__ is E and y.id not in memo]
        if pend:
            st.extend(pend)
            continue
        st.pop()
        if x.op == 'var':
            memo[x.id] = x
            continue
        y = rebuild(x, [memo[y.id] if y.__class__ is E else y for y in x.a])
        if known is not None and y.__class__ is E and y.op == 'ite':
            k = known(y.a[0])
            if k is not None:
                y = y.a[1] if k else y.a[2]
        memo[x.id] = y
    return memo[e.id]


def rebuild(x, a):
    if all(p is q for p, q in zip(x.a, a)):
        return x
    op, w = x.op, x.w
    if not any(y.__class__ is E for y in a):
        return _ev(x, None, a)
    if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
        return fop(op, a[0], a[1])
    f = REBUILD.get(op)
    return f(x, *a) if f else mk(op, w, *a)


REBUILD = {
    'add': lambda x, a, b: mask(add(a, b), x.w), 'mul': lambda x, a, b: mask(mul(a, b), x.w), 'and': lambda x, a, b: band(a, b), 'or': lambda x, a, b: bor(a, b),
    'eq': lambda x, a, b: eq(a, b), 'ult': lambda x, a, b: lt(a, b), 'not': lambda x, a: not_(a), 'ite': lambda x, c, a, b: ite(c, a, b, x.w),
    'flt': lambda x, a, b: lt(a, b), 'fle': lambda x, a, b: le(a, b), 'fneg': lambda x, a: fneg(a), 'fabs': lambda x, a: fabs(a), 'ui2f': lambda x, a: ui2f(a),
}


def mask(a, w):
    return a if a.__class__ is E else a & ((1 << w) - 1)


def show(e, d=0):
    if e.__class__ is not E:
        return repr(e)
    if e.op == 'var':
        return str(e.a[0])
    if d > 6:
        return '…'
    return '%s(%s)' % (e.op, ','.join(show(x, d + 1) for x in e.a))


# comparisons of a saturating float->unsigned conversion with a constant become
# comparisons of doubles (exact for constants below 2^53)
_eq0, _lt0 = eq, lt


RANGE = {}   # inputs of the current path: name -> (least, greatest)
_le0 = le


def fcmp(strict, a, b):
    """a < b or a <= b of doubles, one of them constant: known from the range of an input, or moved through floor and ceil"""
    if b.__class__ is not E:
        if b != b:
            return False
        if a.op == 'var' and a.a[0] in RANGE:
            lo, hi = RANGE[a.a[0]]
            if hi < b or (not strict and hi <= b):
                return True
            if lo > b or (strict and lo >= b):
                return False
        if a.op in ('floor', 'ceil') and abs(b) < 2.0 ** 52:
            if a.op == 'floor':      # floor(x) < b  <=>  x < ceil(b);   floor(x) <= b  <=>  x < floor(b) + 1
                return lt(a.a[0], float(math.ceil(b) if strict else math.floor(b) + 1))
            return le(a.a[0], float(math.ceil(b) - 1 if strict else math.floor(b)))
    else:
        if a != a:
            return False
        if b.op == 'var' and b.a[0] in RANGE:
            lo, hi = RANGE[b.a[0]]
            if lo > a or (not strict and lo >= a):
                return True
            if hi < a or (strict and hi <= a):
                return False
        if b.op in ('floor', 'ceil') and abs(a) < 2.0 ** 52:
            if b.op == 'floor':      # a < floor(x)  <=>  floor(a) + 1 <= x;   a <= floor(x)  <=>  ceil(a) <= x
                return le(float(math.floor(a) + 1 if strict else math.ceil(a)), b.a[0])
            return lt(float(math.floor(a) if strict else math.ceil(a) - 1), b.a[0])
    return None


def le(a, b):
    if isf(a, b) and (a.__class__ is E) != (b.__class__ is E):
        r = fcmp(False, a, b)
        if r is not None:
            return r
    return _le0(a, b)


def eq(a, b):
    for x, y in ((a, b), (b, a)):
        if x.__class__ is E and x.op == 'f2ui' and y.__class__ is not E and y < 1 << 52:
            v = x.a[0]
            if y == 0:
                return not_(le(1.0, v))
            return band(le(float(y), v), lt(v, float(y + 1)))
    return _eq0(a, b)


def lt(a, b):
    if a.__class__ is E and a.op == 'f2ui' and b.__class__ is not E and 0 < b < 1 << 52:
        return not_(le(float(b), a.a[0]))
    if b.__class__ is E and b.op == 'f2ui' and a.__class__ is not E and a < 1 << 52:
        return le(float(a + 1), b.a[0])
    if isf(a, b) and (a.__class__ is E) != (b.__class__ is E):
        r = fcmp(True, a, b)
        if r is not None:
            return r
    return _lt0(a, b)
