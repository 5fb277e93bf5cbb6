"""Translation of expr.E to z3 and satisfiability queries.

Float theories (chosen per harness, stated in the evidence):
  E   exact IEEE-754 binary64, round-to-nearest-even (SMT FP theory)
  U   as E, but mul/div/sqrt/transcendentals are uninterpreted functions of
      their operands that map NaN to NaN (sound over-approximation)
  R   mathematical reals (rounding, overflow and NaN outside the claim)
  D   reals with an explicit rounding error per operation,
      |fl(v)-v| <= 2^-53 |v| (+2^-1074 for mul/div) and rounding monotone
      towards every compared value; overflow and NaN outside the claim
"""
import math, time, fractions
import z3
import expr as X
from expr import E, F, Unsupported

RNE = z3.RNE()
RTZ = z3.RTZ()
DBL = z3.Float64()
UF = {}


def uf(name, n, mode):
    k = (name, n, mode)
    if k not in UF:
        s = DBL if mode in 'EU' else z3.RealSort()
        UF[k] = z3.Function('uf_' + name + mode, *([s] * (n + 1)))
    return UF[k]


def fpc(x):
    if x != x:
        return z3.fpNaN(DBL)
    if x in (float('inf'), float('-inf')):
        return z3.fpInfinity(DBL, x < 0)
    if x == 0.0:
        return z3.fpMinusZero(DBL) if X.fbits(x) >> 63 else z3.fpPlusZero(DBL)
    return z3.FPVal(x, DBL)


def realc(x):
    if x != x or x in (float('inf'), float('-inf')):
        raise Unsupported('non-finite constant in real arithmetic')
    f = fractions.Fraction(x)
    return z3.RealVal('%d/%d' % (f.numerator, f.denominator)) if f.denominator != 1 else z3.RealVal(f.numerator)


U53 = z3.RealVal('1/%d' % (2 ** 53))
ETA = z3.RealVal('1/%d' % (2 ** 1074))


def zabs(t):
    return z3.If(t >= 0, t, -t)


def ispow2(x):
    if x.__class__ is not float or x == 0:
        return False
    import math
    return abs(math.frexp(x)[0]) == 0.5


class Tr:
    def __init__(self, mode):
        self.mode = mode
        self.c = {}       # id -> z3 term
        self.side = {}    # id -> list of side constraints
        self.exact = {}   # id -> unrounded real term (mode D)
        self.real = mode in 'RD'

    def konst(self, v, w):
        if w == F:
            return realc(v) if self.real else fpc(v)
        if w == 1:
            return z3.BoolVal(bool(v))
        return z3.BitVecVal(int(v), w)

    def arg(self, x, w):
        if x.__class__ is E:
            return self.c[x.id]
        return self.konst(x, w)

    def run(self, roots):
        """translate; returns the set of nodes reachable"""
        seen = {}
        st = list(roots)
        while st:
            e = st[-1]
            if e.id in seen:
                st.pop()
                continue
            pend = [y for y in e.a if y.__class__ is E and y.id not in seen]
            if pend:
                st.extend(pend)
                continue
            st.pop()
            seen[e.id] = e
            if e.id not in self.c:
                self.c[e.id] = self.node(e)
        return seen

    def addside(self, e, *cs):
        self.side.setdefault(e.id, []).extend(cs)

    def rounded(self, e, s, mul=False):
        """mode D: rounded version of the real term s"""
        if self.mode != 'D':
            return s
        r = z3.Real('r%d' % e.id)
        b = U53 * zabs(s)
        if mul:
            b = b + ETA
        self.addside(e, r - s <= b, s - r <= b)
        self.exact[e.id] = s
        return r

    def anchors(self, e, a, c):
        """a logarithm divided by the constant c: where it passes the multiples of c/2"""
        if a.__class__ is not E or a.op not in LOGS or not (0 < abs(c) < 1e3) or self.mode in 'EU':
            return
        x, t = self.arg(a.a[0], F), self.c[a.id]
        one, eps = fractions.Fraction(1), fractions.Fraction(1, 10 ** 12)
        cs = []
        for j in range(-2, 60):
            v = fractions.Fraction(c) * j / 2
            try:
                p = fractions.Fraction(LOGS[a.op](float(v)))
            except OverflowError:
                break
            if p < fractions.Fraction(1, 10 ** 30) or p > 10 ** 30:
                continue
            hi, lo = p * (one + eps), p * (one - eps)
            cs.append(z3.Implies(x >= z3.Q(hi.numerator, hi.denominator), t > z3.Q(v.numerator, v.denominator)))
            cs.append(z3.Implies(x <= z3.Q(lo.numerator, lo.denominator), t < z3.Q(v.numerator, v.denominator)))
        self.addside(e, *cs)

    def node(self, e):
        op, w, a = e.op, e.w, e.a
        if op == 'var':
            if w == F:
                return z3.Real(a[0]) if self.real else z3.FP(a[0], DBL)
            return z3.Bool(a[0]) if w == 1 else z3.BitVec(a[0], w)
        if w == F:
            return self.fnode(e, op, a)
        if w == 1:
            if op in ('feq', 'flt', 'fle'):
                x, y = self.arg2f(a[0], a[1])
                if x is None:
                    return z3.BoolVal(y)
                if self.real:
                    return x == y if op == 'feq' else x < y if op == 'flt' else x <= y
                return z3.fpEQ(x, y) if op == 'feq' else z3.fpLT(x, y) if op == 'flt' else z3.fpLEQ(x, y)
            if op == 'fisnan':
                return z3.BoolVal(False) if self.real else z3.fpIsNaN(self.arg(a[0], F))
            if op == 'fsign':
                if self.real:
                    return self.arg(a[0], F) < 0
                return z3.fpIsNegative(self.arg(a[0], F))
            if op == 'not':
                return z3.Not(self.arg(a[0], 1))
            if op == 'and':
                return z3.And(self.arg(a[0], 1), self.arg(a[1], 1))
            if op == 'or':
                return z3.Or(self.arg(a[0], 1), self.arg(a[1], 1))
            if op == 'xor':
                return z3.Xor(self.arg(a[0], 1), self.arg(a[1], 1))
            if op == 'ite':
                return z3.If(self.arg(a[0], 1), self.arg(a[1], 1), self.arg(a[2], 1))
            ww = X.width(*a)
            x, y = self.arg(a[0], ww), self.arg(a[1], ww)
            if op == 'eq':
                return x == y
            if op == 'ult':
                return z3.ULT(x, y)
            if op == 'slt':
                return x < y
            raise Unsupported('smt bool ' + op)
        # bit-vectors
        if op == 'zext':
            x = a[0]
            if x.w == 1:
                return z3.If(self.arg(x, 1), z3.BitVecVal(1, w), z3.BitVecVal(0, w))
            return z3.ZeroExt(w - x.w, self.arg(x, x.w))
        if op == 'sext':
            return z3.SignExt(w - a[0].w, self.arg(a[0], a[0].w))
        if op == 'extract':
            return z3.Extract(a[1] + w - 1, a[1], self.arg(a[0], a[0].w))
        if op == 'concat':
            if a[1].__class__ is E:
                lw = a[1].w
            else:
                lw = w - a[0].w
            return z3.Concat(self.arg(a[0], w - lw), self.arg(a[1], lw))
        if op == 'ite':
            return z3.If(self.arg(a[0], 1), self.arg(a[1], w), self.arg(a[2], w))
        if op == 'f2b':
            if self.real:
                raise Unsupported('bits of a double in real arithmetic')
            return z3.fpToIEEEBV(self.arg(a[0], F))
        if op == 'f2ui':
            if self.real:
                raise Unsupported('f2ui in real arithmetic')
            x = self.arg(a[0], F)
            return z3.If(z3.Or(z3.fpIsNaN(x), z3.fpLEQ(x, fpc(0.0))), z3.BitVecVal(0, w),
                         z3.If(z3.fpGEQ(x, fpc(float(2 ** w))), z3.BitVecVal(2 ** w - 1, w), z3.fpToUBV(RTZ, x, z3.BitVecSort(w))))
        if op == 'f2si':
            if self.real:
                raise Unsupported('f2si in real arithmetic')
            x = self.arg(a[0], F)
            return z3.If(z3.fpIsNaN(x), z3.BitVecVal(0, w),
                         z3.If(z3.fpGEQ(x, fpc(float(2 ** (w - 1)))), z3.BitVecVal(2 ** (w - 1) - 1, w),
                               z3.If(z3.fpLEQ(x, fpc(-float(2 ** (w - 1)))), z3.BitVecVal(2 ** (w - 1), w), z3.fpToSBV(RTZ, x, z3.BitVecSort(w)))))
        x, y = self.arg(a[0], w), self.arg(a[1], w)
        if op == 'add': return x + y
        if op == 'sub': return x - y
        if op == 'mul': return x * y
        if op == 'and': return x & y
        if op == 'or': return x | y
        if op == 'xor': return x ^ y
        if op == 'shl': return x << y
        if op == 'lshr': return z3.LShR(x, y)
        if op == 'ashr': return x >> y
        if op == 'udiv': return z3.UDiv(x, y)
        if op == 'urem': return z3.URem(x, y)
        if op == 'sdiv': return x / y
        if op == 'srem': return z3.SRem(x, y)
        raise Unsupported('smt bv ' + op)

    def arg2f(self, p, q):
        """operands of a comparison; (None, verdict) is never returned for finite values"""
        return self.argf(p), self.argf(q)

    def argf(self, x):
        if x.__class__ is E:
            return self.c[x.id]
        if self.real and x in (float('inf'), float('-inf')):
            # every value is finite in the real theories: far beyond the stated ranges
            return z3.RealVal(10 ** 400 if x > 0 else -10 ** 400)
        return self.konst(x, F)

    def fnode(self, e, op, a):
        if op == 'ite':
            return z3.If(self.arg(a[0], 1), self.arg(a[1], F), self.arg(a[2], F))
        if op == 'b2f':
            if self.real:
                k = a[0]
                # [1,2) mantissa pattern built by rand: (x >> 12) | 0x3ff0...
                if k.op == 'or' and k.a[1].__class__ is int and k.a[1] == 0x3FF0000000000000 and k.a[0].__class__ is E and k.a[0].op == 'lshr' and k.a[0].a[1] == 12:
                    r = z3.Real('m%d' % e.id)
                    self.addside(e, r >= 1, r <= realc(2 - 2.0 ** -52))
                    MANT[e.id] = (k.a[0].a[0], 'm', r)
                    return r
                raise Unsupported('double from bits in real arithmetic')
            return z3.fpBVToFP(self.arg(a[0], 64), DBL)
        if op in ('ui2f', 'si2f'):
            iw = a[0].w
            if self.real:
                k = a[0]
                if op == 'ui2f' and k.op == 'lshr' and k.a[1].__class__ is int and k.a[0].op == 'var':
                    r = z3.Real('i%d' % e.id)
                    self.addside(e, r >= 0, r <= realc(float(2 ** (k.w - k.a[1]) - 1)))
                    MANT[e.id] = (k.a[0], k.a[1], r)
                    return r
                t = z3.BV2Int(self.arg(k, iw), op == 'si2f')
                return z3.ToReal(t)
            x = self.arg(a[0], iw)
            return z3.fpToFP(RNE, x, DBL) if op == 'si2f' else z3.fpToFPUnsigned(RNE, x, DBL)
        if op == 'fneg':
            return -self.arg(a[0], F) if self.real else z3.fpNeg(self.arg(a[0], F))
        if op == 'fabs':
            return zabs(self.arg(a[0], F)) if self.real else z3.fpAbs(self.arg(a[0], F))
        if op == 'dig':
            if not self.real:
                raise Unsupported('rounding to decimal digits')
            x = self.arg(a[0], F)
            r = z3.Real('d%d' % e.id)
            b = realc(0.5000001 * 10.0 ** -a[2])
            if a[1] == 'e':
                b = b * zabs(x)
            self.addside(e, r - x <= b, x - r <= b, z3.Implies(x >= 0, r >= 0), z3.Implies(x <= 0, r <= 0))
            return r
        if op in ('f32', 't32'):
            x = self.arg(a[0], F)
            if self.real:
                r = z3.Real('%s%d' % (op, e.id))
                b = realc(2.0 ** -24 if op == 'f32' else 2.0 ** -23) * zabs(x) + realc(1e-45)
                self.addside(e, r - x <= b, x - r <= b, z3.Implies(x >= 0, r >= 0), z3.Implies(x <= 0, r <= 0))
                return r
            s = z3.fpToFP(RNE, x, z3.Float32())
            if op == 'f32':
                return z3.fpToFP(RNE, s, DBL)
            r = z3.FP('t32_%d' % e.id, DBL)
            self.addside(e, z3.fpToFP(RNE, r, z3.Float32()) == s, z3.fpIsNaN(r) == z3.fpIsNaN(x))
            return r
        xs = [self.arg(x, F) for x in a]
        if self.real:
            if op in ('fadd', 'fsub'):
                t = xs[0] + xs[1] if op == 'fadd' else xs[0] - xs[1]
                if (a[0].__class__ is float and a[0] == 0.0) or (a[1].__class__ is float and a[1] == 0.0):
                    return t
                # rand: (mantissa in [1,2)) - (1 - 2^-53) or - 1 is exact
                for p, q in ((a[0], a[1]), (a[1], a[0])):
                    if p.__class__ is E and p.op == 'b2f' and q.__class__ is float and abs(q) in (1.0, 1.0 - 2.0 ** -53) and (q < 0) == (op == 'fadd'):
                        return t
                return self.rounded(e, t)
            if op == 'fmul':
                if ispow2(a[0]) or ispow2(a[1]):
                    return xs[0] * xs[1]
                return self.rounded(e, xs[0] * xs[1], True)
            if op == 'fdiv':
                if ispow2(a[1]):
                    return xs[0] / xs[1]
                if a[1].__class__ is not E:
                    self.anchors(e, a[0], a[1])
                    return self.rounded(e, xs[0] / xs[1], True)
                # the run-time layer forked on a zero denominator before building this node
                q = z3.Real('q%d' % e.id)
                self.addside(e, q * xs[1] == xs[0])
                return self.rounded(e, q, True)
            if op == 'sqrt':
                s = z3.Real('s%d' % e.id)
                self.addside(e, s >= 0, s * s == xs[0])
                return self.rounded(e, s)
            if op in ('floor', 'ceil', 'ftrunc'):
                fl = z3.ToReal(z3.ToInt(xs[0]))
                if op == 'floor':
                    return fl
                ce = -z3.ToReal(z3.ToInt(-xs[0]))
                return ce if op == 'ceil' else z3.If(xs[0] >= 0, fl, ce)
            if op in ('round', 'rint'):
                raise Unsupported('round in real arithmetic')
            if op == 'frem':
                raise Unsupported('frem')
            if op in MONO:
                # strictly increasing; the axioms relating its applications are added per query
                t = z3.Real('%s%d' % (op, e.id))
                if op in ('log2', 'log10'):
                    self.c[e.id] = t
                    self.anchors(e, e, 1.0)
            else:
                t = uf(op, len(xs), self.mode)(*xs)
            if op in ('exp', 'exp2'):
                self.addside(e, t > 0)
                self.addside(e, z3.Implies(xs[0] >= 0, t >= 1), z3.Implies(xs[0] <= 0, t <= 1))
            if op == 'pow':
                self.addside(e, z3.Implies(xs[0] > 0, t > 0))
            return t
        if op == 'fadd': return z3.fpAdd(RNE, *xs)
        if op == 'fsub': return z3.fpSub(RNE, *xs)
        if self.mode == 'E' or (op == 'fmul' and (ispow2(a[0]) or ispow2(a[1]))) or (op == 'fdiv' and ispow2(a[1])):
            if op == 'fmul': return z3.fpMul(RNE, *xs)
            if op == 'fdiv': return z3.fpDiv(RNE, *xs)
            if op == 'sqrt': return z3.fpSqrt(RNE, *xs)
        if op == 'floor': return z3.fpRoundToIntegral(z3.RTN(), xs[0])
        if op == 'ceil': return z3.fpRoundToIntegral(z3.RTP(), xs[0])
        if op == 'ftrunc': return z3.fpRoundToIntegral(RTZ, xs[0])
        if op == 'round': return z3.fpRoundToIntegral(z3.RNA(), xs[0])
        if op == 'rint': return z3.fpRoundToIntegral(RNE, xs[0])
        t = uf(op, len(xs), self.mode)(*xs)
        if op in ('fmul', 'fdiv', 'sqrt', 'exp', 'log'):
            # NaN in, NaN out
            self.addside(e, z3.Implies(z3.Or(*[z3.fpIsNaN(x) for x in xs]), z3.fpIsNaN(t)))
        return t


LOGS = {'log': math.exp, 'log2': lambda v: math.pow(2.0, v), 'log10': lambda v: math.pow(10.0, v)}
MANT = {}
TRS = {}
STATS = {'queries': 0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'time': 0.0, 'cached': 0, 'max': 0.0}
CACHE = {}
MONO = ('exp', 'exp2', 'log', 'log2', 'log10')


def to_float(v):
    """z3 real value -> nearest double"""
    if z3.is_algebraic_value(v):
        v = v.approx(30)
    f = v.as_fraction()
    try:
        return f.numerator / f.denominator
    except OverflowError:
        return 1e308 if f > 0 else -1e308


def slice_pc(pc, cond):
    vs = set(cond.vs)
    rest = [c for c in pc]
    out = []
    ch = True
    while ch:
        ch = False
        nr = []
        for c in rest:
            if c.vs & vs:
                out.append(c)
                if not c.vs <= vs:
                    vs |= c.vs
                    ch = True
            else:
                nr.append(c)
        rest = nr
    return out, vs


def rleaves(tr, p):
    """rounded results that reach p through abs/neg/select"""
    out, st = [], [p]
    while st:
        x = st.pop()
        if x.__class__ is not E:
            continue
        if x.id in tr.exact:
            out.append(x)
        elif x.op in ('fabs', 'fneg'):
            st.append(x.a[0])
        elif x.op == 'ite':
            st += [x.a[1], x.a[2]]
    return out


VARW = {}   # var name -> width, filled by the runtime
LOG = None


def query(pc, cond, mode, timeout=20.0):
    """-> ('unsat',None) | ('sat', {var: value}) | ('unknown', None).
    pc: list of E (bool), cond: E (bool) to be satisfied together with pc."""
    cs, vs = slice_pc(pc, cond)
    cs.append(cond)
    key = (mode,) + tuple(sorted(c.id for c in cs))
    r = CACHE.get(key)
    if r is not None:
        STATS['cached'] += 1
        return r
    tr = TRS.get(mode)
    if tr is None:
        tr = TRS[mode] = Tr(mode)
    t0 = time.time()
    nodes = tr.run(cs)
    s = solver(mode, nodes)
    s.set('timeout', int(timeout * 1000))
    mant = []
    insts = {}
    for i, e in nodes.items():
        for c in tr.side.get(i, ()):
            s.add(c)
        if tr.real and e.id in MANT:
            mant.append(MANT[e.id])
        if tr.real and e.op in MONO:
            insts.setdefault(e.op, []).append(e)
        if mode == 'D' and e.op in ('flt', 'fle', 'feq'):
            for p, q in ((e.a[0], e.a[1]), (e.a[1], e.a[0])):
                lv = rleaves(tr, p)
                if lv:
                    qq = tr.argf(q)
                    for x in lv:
                        ex, r_ = tr.exact[x.id], tr.c[x.id]
                        s.add(z3.Implies(ex <= qq, r_ <= qq), z3.Implies(ex >= qq, r_ >= qq))
                        s.add(z3.Implies(ex <= -qq, r_ <= -qq), z3.Implies(ex >= -qq, r_ >= -qq))
    for op, l in insts.items():
        for i in range(len(l)):
            for j in range(i):
                x, y = tr.arg(l[i].a[0], F), tr.arg(l[j].a[0], F)
                fx, fy = tr.c[l[i].id], tr.c[l[j].id]
                s.add(z3.Implies(x < y, fx < fy), z3.Implies(y < x, fy < fx), z3.Implies(x == y, fx == fy))
    for c in cs:
        s.add(tr.c[c.id])
    r = s.check()
    dt = time.time() - t0
    STATS['queries'] += 1
    STATS['time'] += dt
    STATS['max'] = max(STATS['max'], dt)
    if LOG:
        LOG(dt, r, cs)
    if r == z3.unsat:
        STATS['unsat'] += 1
        res = ('unsat', None)
    elif r == z3.sat:
        STATS['sat'] += 1
        m = s.model()
        md = {}
        for v in vs:
            w = VARW[v]
            if w == F:
                if tr.real:
                    md[v] = to_float(m.eval(z3.Real(v), True))
                else:
                    fv = m.eval(z3.FP(v, DBL), True)
                    if z3.is_true(z3.simplify(z3.fpIsNaN(fv))):
                        md[v] = float('nan')
                    else:
                        b = z3.simplify(z3.fpToIEEEBV(fv))
                        md[v] = X.bitsf(b.as_long()) if z3.is_bv_value(b) else 0.0
            elif w == 1:
                md[v] = z3.is_true(m.eval(z3.Bool(v), True))
            else:
                md[v] = m.eval(z3.BitVec(v, w), True).as_long()
        for x, kind, rv in mant:
            if x.op == 'var':
                val = to_float(m.eval(rv, True))
                if kind == 'm':
                    md[x.a[0]] = min(max(int((val - 1.0) * 2.0 ** 52), 0), 2 ** 52 - 1) << 12
                else:
                    md[x.a[0]] = min(int(val), 2 ** (64 - kind) - 1) << kind
        res = ('sat', md)
    else:
        STATS['unknown'] += 1
        res = ('unknown', None)
    CACHE[key] = res
    return res


def solver(mode, nodes):
    if mode in 'EU':
        return z3.Solver() if mode == 'U' else z3.SolverFor('QF_FPBV')
    return z3.Solver()
