"""Run-time of the symbolic executor: memory, decisions, environment model."""
import os
import re, struct, math, time, sys
import expr as X
from expr import E, F, Unsupported
import smt
import ir

M64 = (1 << 64) - 1


class PathError(Exception):
    """undefined behaviour / memory error met on a feasible path"""


class PathEnd(Exception):
    """path is infeasible or cut by a stated bound"""


class Panic(Exception):
    def __init__(self, loc):
        self.loc = loc


class PathTimeout(Exception):
    pass


class Obj:
    __slots__ = ('b', 's', 'n', 'ro')

    def __init__(self, b, ro=False):
        self.b = b
        self.s = None
        self.n = len(b)
        self.ro = ro


class Rt:
    def __init__(self, mod, mode='E', qtimeout=20.0, rng_cap=64, path_timeout=120.0, feas_timeout=5.0):
        self.mod = mod
        self.mode = mode
        self.qtimeout = qtimeout
        self.feas_timeout = feas_timeout
        self.rng_cap = rng_cap
        self.path_timeout = path_timeout
        self.real = mode in 'RD'
        self.etimeout = 20.0
        self.ns = self.namespace()
        self.FN = self.ns['FN']
        self.hooks()
        self.static = {}   # constant globals, shared between paths

    # ------------------------------------------------------------ decisions
    def reset(self, prefix=(), model=None):
        self.M = {}
        self.next = len(self.mod.globals) + 16
        self.prefix = prefix
        self.pos = 0
        self.trail = []
        self.pc = []
        self.pcset = set()
        self.iv = {}
        self.model = model
        self.memo = {}
        self.nd = []          # (name, width, value)
        self.new = []         # alternatives found: (prefix, model)
        self.checks = {}
        self.covers = set()
        self.viol = []
        self.unk = []
        self.pinned = None
        self.nrng = 0
        self.fs = {}
        self.fds = {}
        self.tokens = {}
        self.tokmemo = {}
        self.tls = {}
        self.deadline = time.time() + self.path_timeout
        self.t0 = time.time()
        self.rngcap_now = self.rng_cap
        self.gauss = []
        self.trace = None

    def assume_pc(self, c):
        if c.__class__ is E:
            if c.op == 'and':
                self.assume_pc(c.a[0])
                self.assume_pc(c.a[1])
                return
            if c.op == 'not' and c.a[0].op == 'or':
                self.assume_pc(X.not_(c.a[0].a[0]))
                self.assume_pc(X.not_(c.a[0].a[1]))
                return
            if c.id not in self.pcset:
                self.pcset.add(c.id)
                self.pc.append(c)
                if self.real:
                    self.learn(c)

    def learn(self, c):
        """bounds of a term compared with constants on this path (no NaN over the reals)"""
        pos = True
        if c.op == 'not':
            c, pos = c.a[0], False
        if c.op not in ('fle', 'flt'):
            return
        a, b = c.a
        if b.__class__ is not E:
            # a <= b, a < b or their negations b < a, b <= a
            x, v, upper, strict = a, b, pos, (c.op == 'flt') == pos
        elif a.__class__ is not E:
            x, v, upper, strict = b, a, not pos, (c.op == 'flt') == pos
        else:
            return
        lo, hi = self.iv.get(x.id, ((-math.inf, 0), (math.inf, 0)))
        if upper:
            hi = min(hi, (v, -1 if strict else 0))
        else:
            lo = max(lo, (v, 1 if strict else 0))
        self.iv[x.id] = (lo, hi)

    def known(self, c):
        """truth of c as far as the bounds tell, or None"""
        if c.__class__ is not E:
            return bool(c)
        op = c.op
        if op == 'not':
            r = self.known(c.a[0])
            return None if r is None else not r
        if op == 'and' and c.w == 1:
            r, q = self.known(c.a[0]), self.known(c.a[1])
            return False if r is False or q is False else True if r and q else None
        if op == 'or' and c.w == 1:
            r, q = self.known(c.a[0]), self.known(c.a[1])
            return True if r or q else False if r is False and q is False else None
        if op in ('fle', 'flt'):
            a, b = c.a
            if b.__class__ is not E and a.id in self.iv:
                lo, hi = self.iv[a.id]
                if hi <= (b, -1 if op == 'flt' else 0):
                    return True
                if lo >= (b, 0 if op == 'flt' else 1):
                    return False
            elif a.__class__ is not E and b.id in self.iv:
                lo, hi = self.iv[b.id]
                if lo >= (a, 1 if op == 'flt' else 0):
                    return True
                if hi <= (a, 0 if op == 'flt' else -1):
                    return False
        return None

    def ev(self, c):
        """value of an expression under the current model"""
        try:
            return X.evalE(c, self.model, self.memo)
        except KeyError:
            for nm, w, v in self.nd:
                if nm not in self.model:
                    self.model[nm] = self.defaults[nm]
            return X.evalE(c, self.model, self.memo)

    def setmodel(self, m):
        if m is None:
            self.model = None
        else:
            b = dict(self.model) if self.model is not None else dict(self.lastmodel)
            b.update(m)
            for nm, w, v in self.nd:
                if nm not in b:
                    b[nm] = self.defaults[nm]
            self.model = b
        self.memo = {}

    def merged(self, m):
        b = dict(self.model) if self.model is not None else dict(self.lastmodel)
        b.update(m)
        return b

    def q(self, cond, timeout=None):
        if cond.__class__ is not E:
            return ('sat', {}) if cond else ('unsat', None)
        try:
            return smt.query(self.pc, cond, self.mode, timeout or self.feas_timeout)
        except Unsupported as e:
            self.unsup.add(str(e))
            return ('unsupported', None)

    def D(self, c):
        """decide a symbolic branch condition"""
        if c.__class__ is not E:
            return bool(c)
        if time.time() > self.deadline:
            raise PathTimeout()
        if self.pinned is not None:
            return bool(self.evpin(c))
        if self.real and X.conversions(c):
            c = self.integers(c)
            if c.__class__ is not E or self.pinned is not None:
                return bool(self.evpin(c) if c.__class__ is E else c)
        if self.iv:
            k = self.known(c)
            if k is not None:
                return k
        n = X.not_(c)
        if c.id in self.pcset:
            return True
        if n.__class__ is E and n.id in self.pcset:
            return False
        if self.pos < len(self.prefix):
            t = self.prefix[self.pos]
            self.pos += 1
            self.trail.append(t)
            if t is True or t is False:
                self.assume_pc(c if t else n)
                return t
            if t == 'p':
                self.pin()
                return bool(self.evpin(c))
            # implied decisions are recorded as 'T' / 'F'
            return t == 'T'
        if self.model is None:
            r1, m1 = self.q(c)
            if r1 == 'unsupported':
                return self.dpin(c)
            if r1 == 'unsat':
                self.trail.append('F')
                return False
            r2, m2 = self.q(n)
            if r2 == 'unsupported':
                return self.dpin(c)
            if r2 == 'unsat':
                self.trail.append('T')
                return True
            self.new.append((self.trail + [False], self.okmodel(m2, n)))
            self.trail.append(True)
            self.assume_pc(c)
            self.setmodel(self.okmodel(m1, c))
            return True
        v = bool(self.ev(c))
        o = n if v else c
        r, m = self.q(o)
        if r == 'unsupported':
            return self.dpin(c)
        if r == 'unsat':
            self.trail.append('T' if v else 'F')
            return v
        self.new.append((self.trail + [not v], self.okmodel(m, o)))
        self.trail.append(v)
        self.assume_pc(c if v else n)
        return v

    def okmodel(self, m, cond):
        """full model, or None when exact evaluation does not confirm it"""
        if m is None:
            return None
        b = self.merged(m)
        for nm, w, v in self.nd:
            if nm not in b:
                b[nm] = self.defaults[nm]
        memo = {}
        try:
            for c in self.pc:
                if not X.evalE(c, b, memo):
                    return None
            if not X.evalE(cond, b, memo):
                return None
        except (Unsupported, KeyError):
            return None
        return b

    def getmodel(self):
        """some model of the path condition (exact when self.model is set)"""
        if self.model is not None:
            for nm, w, v in self.nd:
                if nm not in self.model:
                    self.model[nm] = self.defaults[nm]
            return self.model
        b = dict(self.lastmodel)
        done = set()
        for nm, w, v in self.nd:
            b.setdefault(nm, self.defaults[nm])
        for c in self.pc:
            if not (c.vs <= done):
                r, m = self.q(c, self.qtimeout)
                if r == 'sat':
                    b.update(m)
                    done |= set(m)
        return b

    def pin(self):
        """fall back to a concrete run under one model of the path"""
        if self.pinned is None:
            self.pinexact = self.model is not None
            self.pinned = dict(self.getmodel())
            self.pmemo = {}

    def dpin(self, c):
        self.trail.append('p')
        self.pin()
        return bool(self.evpin(c))

    def evpin(self, c):
        if c.__class__ is not E:
            return c
        return X.evalE(c, self.pinned, self.pmemo)

    def integers(self, c):
        """c with every integer converted from a real fixed to one of its values (forks over them)"""
        memo = {}
        for e in X.conversions(c):
            if e.id not in self.fixed:
                self.fixed[e.id] = self.conc(X.rebuild(e, [X.subst(y, memo) for y in e.a]))
            memo[e.id] = self.fixed[e.id]
        return X.subst(c, memo, self.known)

    def conc(self, e):
        """concrete value of a symbolic bit-vector: forks over all feasible values"""
        if e.__class__ is not E:
            return e
        v = self.conc_(e)
        if self.pinned is None:
            self.fixed[e.id] = v
        return v

    def conc_(self, e):
        if e.op == 'ite' and e.a[1].__class__ is not E and e.a[2].__class__ is not E:
            return e.a[1] if self.D(e.a[0]) else e.a[2]
        if e.id in self.fixed and self.pinned is None:
            return self.fixed[e.id]
        if self.real and self.pinned is None and e.op not in ('f2ui', 'f2si') and X.conversions(e):
            e = self.integers(e)
            if e.__class__ is not E:
                return e
            if e.op == 'ite' and e.a[1].__class__ is not E and e.a[2].__class__ is not E:
                return e.a[1] if self.D(e.a[0]) else e.a[2]
        while True:
            if self.pinned is not None:
                return self.evpin(e)
            if self.pos < len(self.prefix):
                t = self.prefix[self.pos]
                self.pos += 1
                self.trail.append(t)
                if t == 'p':
                    self.pin()
                    return self.evpin(e)
                k, v, tk = t
                c = X.eq(e, v)
                if tk == 'T':
                    return v
                if tk:
                    self.assume_pc(c)
                    return v
                self.assume_pc(X.not_(c))
                continue
            if self.model is None:
                r, m = self.q(X.eq(e, e) if False else X.not_(X.eq(e, 0)))
                if r == 'unsupported':
                    self.trail.append('p')
                    self.pin()
                    return self.evpin(e)
                if r == 'sat':
                    b = self.merged(m)
                    for nm, w, vv in self.nd:
                        b.setdefault(nm, self.defaults[nm])
                    v = X.evalE(e, b, {})
                else:
                    v = 0
            else:
                v = self.ev(e)
            c = X.eq(e, v)
            n = X.not_(c)
            if c.__class__ is not E:
                return v
            r, m = self.q(n)
            if r == 'unsupported':
                self.trail.append('p')
                self.pin()
                return self.evpin(e)
            if r == 'unsat':
                self.trail.append(('v', v, 'T'))
                return v
            if c.id in self.npc:
                # a proposal already excluded: look for the least value instead
                v = self.least(e)
                if v is None:
                    self.trail.append('p')
                    self.pin()
                    return self.evpin(e)
                c = X.eq(e, v)
                n = X.not_(c)
                r, m = self.q(n)
                if r == 'unsat':
                    self.trail.append(('v', v, 'T'))
                    return v
            self.new.append((self.trail + [('v', v, False)], self.okmodel(m, n)))
            if self.model is None:
                r, m = self.q(c)
                if r == 'unsat':
                    # value proposed by a relaxed model only; follow the other side
                    self.new.pop()
                    self.trail.append(('v', v, False))
                    self.assume_pc(n)
                    self.npc.add(c.id)
                    continue
                self.setmodel(self.okmodel(m, c) if m else None)
            self.trail.append(('v', v, True))
            self.assume_pc(c)
            return v

    def least(self, e):
        """least value of e not excluded on this path"""
        k = 1
        while self.q(X.lt(e, k))[0] == 'unsat':
            k *= 2
            if k > 1 << 20:
                return None
        lo, hi = k // 2, k          # not below lo, below hi
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if self.q(X.lt(e, mid))[0] == 'unsat':
                lo = mid
            else:
                hi = mid
        return lo

    def SWITCH(self, v, cases):
        if self.pinned is not None:
            return self.evpin(v)
        if self.pos >= len(self.prefix) and self.model is not None and len(cases) > 2:
            pass
        for c in cases:
            e = X.eq(v, c)
            if self.D(e):
                return c
        return -1

    # ------------------------------------------------------------ nd API
    def newvar(self, w, default, *cons):
        nm = 'x%d' % len(self.nd)
        if w != F:
            nm = 'b%d_%d' % (w, len(self.nd))
        smt.VARW[nm] = w
        self.defaults[nm] = default
        if self.pinned is not None:
            v = self.pinned.setdefault(nm, default)
            self.nd.append((nm, w, v))
            return v
        v = X.var(nm, w)
        self.nd.append((nm, w, v))
        if self.model is not None and nm not in self.model:
            self.model[nm] = default
        return v

    defaults = {}
    lastmodel = {}

    def nd_f64(self, lo, hi):
        d = 0.5 * (lo + hi)
        if lo < 0.37 < hi and hi < 1e6:
            d = 0.37 if not (lo <= 1.0 <= hi) else 0.75
        v = self.newvar(F, d)
        if v.__class__ is E:
            self.assume_pc(X.le(lo, v))
            self.assume_pc(X.le(v, hi))
            X.RANGE[v.a[0]] = (lo, hi)
        return v

    def nd_f64_any(self):
        return self.newvar(F, 1.0)

    def nd_choose(self, n):
        return self.conc(self.nd_u64(0, self.conc(n) - 1))

    def nd_split(self, c):
        return 1 if self.D(c) else 0

    def nd_u64(self, lo, hi):
        lo, hi = self.conc(lo), self.conc(hi)
        if lo == hi:
            v = self.newvar(64, lo)
            if v.__class__ is E:
                self.assume_pc(X.eq(v, lo))
            return lo
        v = self.newvar(64, lo)
        if v.__class__ is E:
            if lo:
                self.assume_pc(X.not_(X.lt(v, lo)))
            if hi != M64:
                self.assume_pc(X.not_(X.lt(hi, v)))
        return v

    def nd_rng(self):
        self.nrng += 1
        if self.nrng > self.rngcap_now:
            self.cut = 'rng'
            raise PathEnd('rng cap')
        return self.newvar(64, 0x8000000000000000 - (self.nrng << 50))

    def nd_assume(self, c):
        if c.__class__ is not E:
            if not c:
                raise PathEnd('assume')
            return
        if self.pinned is not None:
            if not self.evpin(c):
                raise PathEnd('assume')
            return
        if c.id in self.pcset:
            return
        if self.pos < len(self.prefix):
            # every later decision was taken after this assumption held
            self.assume_pc(c)
            return
        if self.model is not None and self.ev(c):
            self.assume_pc(c)
            return
        r, m = self.q(c, self.qtimeout)
        if r == 'unsat':
            raise PathEnd('assume')
        ok = self.okmodel(m, c) if m else None
        self.assume_pc(c)
        self.setmodel(ok)

    def string(self, p, n):
        o = self.obj(p)
        off = p & 0xffffffff
        return bytes(o.b[off:off + n]).decode('utf8', 'replace')

    def nd_check(self, c, p, n):
        ident = self.string(p, n)
        self.check(c, ident)

    def check(self, c, ident):
        self.checks[ident] = self.checks.get(ident, 0) + 1
        if self.real and self.pinned is None and c.__class__ is E and X.conversions(c):
            c = self.integers(c)
        if c.__class__ is not E:
            if not c:
                self.fail(ident)
                raise PathEnd('violated')
            self.trivial += 1
            return
        if self.pinned is not None:
            if not self.evpin(c):
                self.violation(ident, self.pinned)
                raise PathEnd('violated')
            return
        if self.pos < len(self.prefix):
            # already decided on the path this one was forked from
            self.assume_pc(c)
            return
        n = X.not_(c)
        if self.model is not None and not self.ev(c):
            self.violation(ident, self.model)
            # go on with the inputs that satisfy it
            self.nd_assume(c)
            return
        try:
            r, m = smt.query(self.pc, n, self.mode, self.qtimeout)
        except Unsupported as e:
            self.unsup.add(str(e))
            self.unk.append((ident, 'unsupported: %s' % e))
            return
        if r == 'sat':
            r, ok = self.confirm(n, m)
            if r == 'sat':
                self.violation(ident, ok)
                self.nd_assume(c)
                return
            if r == 'unknown':
                self.unk.append((ident, 'counterexample of the relaxed theory not confirmed on doubles'))
                self.violation(ident, ok, exact=False)
                self.nd_assume(c)
                return
        elif r == 'unknown':
            w = self.search(n, {})
            if w is not None:
                self.violation(ident, w)
                self.nd_assume(c)
                return
            self.unk.append((ident, 'solver timeout'))
            return
        self.proved += 1
        self.assume_pc(c)

    def confirm(self, n, m):
        """n is satisfiable in the relaxed theory; decide it on doubles"""
        ok = self.okmodel(m, n) if m is not None else None
        if ok is not None:
            return 'sat', ok
        if self.mode != 'E':
            try:
                r, m2 = smt.query(self.pc, n, 'E', self.etimeout)
                if r == 'unsat':
                    return 'unsat', None
                if r == 'sat':
                    ok = self.okmodel(m2, n)
                    if ok is not None:
                        return 'sat', ok
            except Unsupported:
                pass
        w = self.search(n, m or {})
        if w is not None:
            return 'sat', w
        b = self.merged(m or {})
        for nm, w, v in self.nd:
            b.setdefault(nm, self.defaults[nm])
        return 'unknown', b

    def search(self, n, m, budget=4.0):
        """concrete witness near a relaxed model (n: expression that must hold with the path condition)"""
        import random
        rnd = random.Random(1)
        cs, vs = smt.slice_pc(self.pc, n)
        cs = [n] + cs
        if not vs or not all(c.__class__ is E for c in cs):
            return None
        base = self.merged(m)
        for nm, w, v in self.nd:
            base.setdefault(nm, self.defaults[nm])
        vs = sorted(vs)
        fv = [base[v] for v in vs if smt.VARW[v] == F] + [1.0, 2.0, 0.5]
        t1 = time.time() + budget
        cur, cursc = base, self.score(cs, base)
        k = 0
        while time.time() < t1:
            k += 1
            b = dict(cur if rnd.random() < 0.7 else base)
            wide = rnd.random() < 0.3
            for v in (vs if wide else rnd.sample(vs, min(len(vs), rnd.choice((1, 1, 2, 3))))):
                w = smt.VARW[v]
                if w == F:
                    x = b[v]
                    h = rnd.random()
                    if h < 0.25:
                        x = x * rnd.uniform(0.2, 4)
                    elif h < 0.4:
                        x = x * (1 + rnd.uniform(-1, 1) * 10 ** rnd.uniform(-16, -1))
                    elif h < 0.5:
                        x = rnd.choice(fv) * rnd.choice((1, -1, 0.5, 2))
                    elif h < 0.6:
                        x = math.nextafter(x, rnd.choice((-math.inf, math.inf)))
                    elif h < 0.8:
                        x = rnd.uniform(-5, 5)
                    else:
                        x = rnd.choice((1, -1)) * 10 ** rnd.uniform(-6, 6)
                    b[v] = x
                elif w == 1:
                    b[v] = not b[v]
                else:
                    h = rnd.random()
                    x = b[v]
                    if h < 0.3:
                        x = x + rnd.choice((-1, 1, 2, -2))
                    elif h < 0.6:
                        x = rnd.getrandbits(w)
                    elif h < 0.8:
                        x = x ^ (1 << rnd.randrange(w))
                    else:
                        x = rnd.randrange(0, 8)
                    b[v] = x & ((1 << w) - 1)
            sc = self.score(cs, b)
            if sc == len(cs):
                return b
            if sc >= cursc:
                cur, cursc = b, sc
        return None

    @staticmethod
    def score(cs, b):
        memo = {}
        k = 0
        for c in cs:
            try:
                if X.evalE(c, b, memo):
                    k += 1
            except (Unsupported, KeyError, OverflowError, ValueError):
                pass
        return k

    def fail(self, ident):
        """a violation independent of further inputs on this path: is the path real?"""
        if self.pinned is not None or self.model is not None:
            self.violation(ident, self.pinned or self.getmodel(), self.pinned is None or self.pinexact)
            return
        b = dict(self.lastmodel)
        done = set()
        exact = True
        for c in self.pc:
            if c.vs <= done:
                continue
            try:
                r, m = smt.query(self.pc, c, self.mode, self.qtimeout)
            except Unsupported:
                r, m = 'unknown', {}
            if r == 'unsat':
                return
            keep = self.lastmodel
            r, m = self.confirm_slice(c, m or {})
            if r == 'unsat':
                return
            if r == 'unknown':
                exact = False
            b.update(m)
            done |= smt.slice_pc(self.pc, c)[1]
        for nm, w, v in self.nd:
            b.setdefault(nm, self.defaults[nm])
        self.violation(ident, b, exact)
        if not exact:
            self.unk.append((ident, 'path of the relaxed theory not confirmed on doubles'))

    def confirm_slice(self, c, m):
        cs, vs = smt.slice_pc(self.pc, c)
        b = self.merged(m)
        for nm, w, v in self.nd:
            b.setdefault(nm, self.defaults[nm])
        pick = lambda d: {v: d[v] for v in vs if v in d}
        if self.score(cs, b) == len(cs):
            return 'sat', pick(b)
        if self.mode != 'E':
            try:
                r, m2 = smt.query(self.pc, c, 'E', self.etimeout)
                if r == 'unsat':
                    return 'unsat', {}
                if r == 'sat':
                    b2 = dict(b)
                    b2.update(m2)
                    if self.score(cs, b2) == len(cs):
                        return 'sat', pick(b2)
            except Unsupported:
                pass
        w = self.search(c, m)
        if w is not None:
            return 'sat', pick(w)
        return 'unknown', pick(b)

    def violation(self, ident, model, exact=True):
        vals = []
        for nm, w, v in self.nd:
            x = model.get(nm, self.defaults[nm])
            vals.append((w, X.fbits(x) if w == F else int(x)))
        self.viol.append({'check': ident, 'values': vals, 'exact': exact})

    def nd_cover(self, p, n):
        self.covers.add(self.string(p, n))

    def nd_catch(self, fp, data):
        try:
            self.ICALL(fp)(data)
            return False
        except Panic as e:
            self.lastpanic = e.loc
            return True

    def nd_rngcap(self, n):
        n = self.conc(n)
        self.rngcap_now = self.nrng + n

    def nd_trace(self, p, n):
        pass

    # ------------------------------------------------------------ memory
    def alloc(self, n):
        if n.__class__ is E:
            n = self.conc(n)
        i = self.next
        self.next = i + 1
        if n > 1 << 28:
            raise Unsupported('allocation of %d bytes' % n)
        self.M[i] = Obj(bytearray(n))
        return i << 32

    def obj(self, p):
        o = self.M.get(p >> 32)
        if o is None:
            o = self.glob(p >> 32)
        return o

    def glob(self, i):
        if i <= 0 or i >= len(self.mod.globals):
            raise PathError('access to invalid address (object %d)' % i)
        o = self.static.get(i)
        if o is None:
            g = self.mod.globals[i]
            if g is None or g[0] != 'g':
                raise PathError('data access to function or null')
            if ' alias ' in g[1]:
                raise PathError('alias access')
            b, wr = self.mod.ginit(i)
            o = Obj(b, not wr)
            self.static[i] = o
        if not o.ro:
            o = Obj(bytearray(o.b))
        self.M[i] = o
        return o

    def LDI(self, a, n):
        if a.__class__ is not int:
            a = self.conc(a)
        o = self.M.get(a >> 32)
        if o is None:
            o = self.glob(a >> 32)
        f = a & 0xffffffff
        if o.s is None:
            if f + n > o.n:
                raise PathError('load out of bounds')
            return int.from_bytes(o.b[f:f + n], 'little')
        return self.ldslow(o, f, n)

    def ldslow(self, o, f, n):
        if f + n > o.n:
            raise PathError('load out of bounds')
        e = o.s.get(f)
        if e is not None and e[0] == n:
            v = e[1]
            if v.__class__ is E and v.w == F:
                return X.f2b(v)
            return v
        # any symbolic byte?
        r = None
        w = 0
        i = 0
        s = o.s
        anysym = False
        for k in range(f - 15, f + n):
            e = s.get(k)
            if e is not None and k + e[0] > f:
                anysym = True
                break
        if not anysym:
            return int.from_bytes(o.b[f:f + n], 'little')
        pieces = []
        i = f
        while i < f + n:
            hit = None
            for k in range(i, i - 16, -1):
                e = s.get(k)
                if e is not None:
                    if k + e[0] > i:
                        hit = (k, e)
                    break
            if hit:
                k, (sz, v) = hit
                end = min(k + sz, f + n)
                if v.__class__ is E and v.w == F:
                    v = X.f2b(v)
                if v.__class__ is E and v.w == 1:
                    v = X.zext(v, 1, 8 * sz)
                pieces.append((X.extract(v, (i - k) * 8, (end - i) * 8), end - i))
                i = end
            else:
                pieces.append((o.b[i], 1))
                i += 1
        r, w = pieces[0]
        for v, k in pieces[1:]:
            r = X.concat(v, r, 8 * k, 8 * w)
            w += k
        return r

    def LDB(self, a):
        v = self.LDI(a, 1)
        return X.extract(v, 0, 1) if v.__class__ is E else bool(v & 1)

    def LDF(self, a):
        if a.__class__ is not int:
            a = self.conc(a)
        o = self.M.get(a >> 32)
        if o is None:
            o = self.glob(a >> 32)
        f = a & 0xffffffff
        if o.s is not None:
            e = o.s.get(f)
            if e is not None and e[0] == 8:
                v = e[1]
                return v if v.w == F else X.b2f(v)
            v = self.ldslow(o, f, 8)
            return X.b2f(v)
        if f + 8 > o.n:
            raise PathError('load out of bounds')
        return struct.unpack_from('<d', o.b, f)[0]

    def clear(self, o, f, n):
        """forget symbolic bytes in [f, f+n)"""
        s = o.s
        for k in range(f - 15, f + n):
            e = s.get(k)
            if e is not None and k + e[0] > f:
                del s[k]
                sz, v = e
                if k < f or k + sz > f + n:
                    if v.w == F:
                        v = X.f2b(v)
                    if v.w == 1:
                        v = X.zext(v, 1, 8 * sz)
                    for j in range(sz):
                        if not (f <= k + j < f + n):
                            x = X.extract(v, 8 * j, 8)
                            if x.__class__ is E:
                                s[k + j] = (1, x)
                            else:
                                o.b[k + j] = x

    def wobj(self, a):
        o = self.M.get(a >> 32)
        if o is None:
            o = self.glob(a >> 32)
        if o.ro:
            raise PathError('write to constant memory')
        return o

    def STI(self, a, n, v):
        if a.__class__ is not int:
            a = self.conc(a)
        o = self.M.get(a >> 32)
        if o is None or o.ro:
            o = self.wobj(a)
        f = a & 0xffffffff
        if f + n > o.n:
            raise PathError('store out of bounds')
        if o.s is not None:
            self.clear(o, f, n)
        if v.__class__ is E:
            if v.op == 'f2b' and n == 8:
                v = v.a[0]
            if o.s is None:
                o.s = {}
            if n > 16:
                raise Unsupported('wide symbolic store')
            o.s[f] = (n, v)
        else:
            o.b[f:f + n] = int(v).to_bytes(n, 'little')

    def STF(self, a, v):
        if a.__class__ is not int:
            a = self.conc(a)
        o = self.M.get(a >> 32)
        if o is None or o.ro:
            o = self.wobj(a)
        f = a & 0xffffffff
        if f + 8 > o.n:
            raise PathError('store out of bounds')
        if o.s is not None:
            self.clear(o, f, 8)
        if v.__class__ is E:
            if o.s is None:
                o.s = {}
            o.s[f] = (8, v)
        else:
            struct.pack_into('<d', o.b, f, v)

    def LDT(self, a, t):
        k = t[0]
        a = self.conc(a)
        if k == 'i':
            if t[1] == 1:
                return self.LDB(a)
            n = (t[1] + 7) // 8
            v = self.LDI(a, n)
            return X.trunc(v, t[1]) if t[1] % 8 else v
        if k == 'p':
            return self.LDI(a, 8)
        if t == ir.F64:
            return self.LDF(a)
        if t == ir.F32:
            v = self.LDI(a, 4)
            if v.__class__ is E:
                if v.op != 'f2b32':
                    raise Unsupported('single-precision value from symbolic bits')
                return v.a[0]
            return struct.unpack('<f', struct.pack('<I', v))[0]
        if k == 's':
            return tuple(self.LDT(a + ir.field_off(t, i), x) for i, x in enumerate(t[1]))
        if k in 'av':
            s = ir.tsize(t[2])
            return tuple(self.LDT(a + i * s, t[2]) for i in range(t[1]))
        raise Unsupported('load %r' % (t,))

    def STT(self, a, t, v):
        k = t[0]
        a = self.conc(a)
        if k == 'i':
            self.STI(a, (t[1] + 7) // 8, v)
        elif k == 'p':
            self.STI(a, 8, v)
        elif t == ir.F64:
            self.STF(a, v)
        elif t == ir.F32:
            self.STI(a, 4, X.mk('f2b32', 32, v) if v.__class__ is E else struct.unpack('<I', struct.pack('<f', v))[0])
        elif k == 's':
            for i, x in enumerate(t[1]):
                self.STT(a + ir.field_off(t, i), x, v[i])
        elif k in 'av':
            s = ir.tsize(t[2])
            for i in range(t[1]):
                self.STT(a + i * s, t[2], v[i])
        else:
            raise Unsupported('store %r' % (t,))

    def MEMCPY(self, d, s, n):
        n = self.conc(n)
        if n == 0:
            return
        d = self.conc(d)
        s = self.conc(s)
        so = self.obj(s)
        do = self.wobj(d)
        sf, df = s & 0xffffffff, d & 0xffffffff
        if sf + n > so.n or df + n > do.n:
            raise PathError('memcpy out of bounds')
        data = so.b[sf:sf + n]
        syms = []
        if so.s:
            ks = so.s.items() if len(so.s) < n + 16 else [(k, so.s[k]) for k in range(sf - 15, sf + n) if k in so.s]
            for k, (sz, v) in ks:
                if k < sf + n and k + sz > sf:
                    if k >= sf and k + sz <= sf + n:
                        syms.append((k - sf + df, sz, v))
                    else:
                        if v.w == F:
                            v = X.f2b(v)
                        if v.w == 1:
                            v = X.zext(v, 1, 8 * sz)
                        for j in range(sz):
                            if sf <= k + j < sf + n:
                                x = X.extract(v, 8 * j, 8)
                                if x.__class__ is E:
                                    syms.append((k + j - sf + df, 1, x))
                                else:
                                    data[k + j - sf] = x
        if do.s:
            self.clear(do, df, n)
        do.b[df:df + n] = data
        if syms:
            if do.s is None:
                do.s = {}
            for k, sz, v in syms:
                do.s[k] = (sz, v)

    def MEMSET(self, d, v, n):
        n = self.conc(n)
        if n == 0:
            return
        d = self.conc(d)
        o = self.wobj(d)
        f = d & 0xffffffff
        if f + n > o.n:
            raise PathError('memset out of bounds')
        if o.s:
            self.clear(o, f, n)
        v = self.conc(v)
        o.b[f:f + n] = bytes([v]) * n

    def cmpbytes(self, a, b, n):
        n = self.conc(n)
        if n == 0:
            return []
        a = self.conc(a)
        b = self.conc(b)
        oa, ob = self.obj(a), self.obj(b)
        fa, fb = a & 0xffffffff, b & 0xffffffff
        if fa + n > oa.n or fb + n > ob.n:
            raise PathError('memcmp out of bounds')
        if not oa.s and not ob.s:
            x, y = oa.b[fa:fa + n], ob.b[fb:fb + n]
            return None if x == y else [(p, q) for p, q in zip(x, y)]
        return [(self.LDI(a + i, 1), self.LDI(b + i, 1)) for i in range(n)]

    def bcmp(self, a, b, n):
        l = self.cmpbytes(a, b, n)
        if not l:
            return 0
        r = True
        for x, y in l:
            c = x == y
            if c is False:
                return 1
            r = r & c
        return X.ite(r, 0, 1, 32)

    def memcmp(self, a, b, n):
        l = self.cmpbytes(a, b, n)
        if not l:
            return 0
        for x, y in l:
            if not self.D(x == y):
                return 0xffffffff if self.D(x < y) else 1
        return 0

    def CMPXCHG(self, a, c, n, sz):
        v = self.LDI(a, sz)
        if self.D(v == c):
            self.STI(a, sz, n)
            return (v, True)
        return (v, False)

    def ATOMICRMW(self, op, a, v, sz):
        o = self.LDI(a, sz)
        m = (1 << (8 * sz)) - 1
        if op == 'xchg': n = v
        elif op == 'add': n = (o + v) & m
        elif op == 'sub': n = (o - v) & m
        elif op == 'and': n = o & v
        elif op == 'or': n = o | v
        elif op == 'xor': n = o ^ v
        else: raise Unsupported('atomicrmw ' + op)
        self.STI(a, sz, n)
        return o

    # ------------------------------------------------------------ helpers for generated code
    def SEL(self, c, a, b, w):
        if w == 0 or a.__class__ is tuple or a.__class__ is list:
            return a if self.D(c) else b
        return X.ite(c, a, b, w)

    def ICALL(self, p):
        p = self.conc(p)
        i = p >> 32
        if i <= 0 or i >= len(self.FN) or p & 0xffffffff:
            raise PathError('call of invalid function pointer')
        return self.FN[self.mod.resolve_alias(i)]

    def div_zero(self, b):
        """real theories: fork on a zero denominator, and leave the theory on that side"""
        if b.__class__ is E and self.pinned is None:
            if self.D(X.mk('feq', 1, b, 0.0)):
                self.trail.append('z') if False else None
                self.pin()
                return True
        return False

    def fdiv(self, a, b):
        if self.pinned is not None:
            return X.cfop('fdiv', self.evpin(a), self.evpin(b))
        if self.real and b.__class__ is E:
            if self.div_zero(b):
                return X.cfop('fdiv', self.evpin(a), self.evpin(b))
        elif self.real and b == 0.0 and a.__class__ is E:
            self.pin()
            return X.cfop('fdiv', self.evpin(a), b)
        return X.fdiv(a, b)

    def fadd(self, a, b):
        if self.pinned is not None:
            return X.cfop('fadd', self.evpin(a), self.evpin(b))
        if self.real and self.nonfin(a, b):
            self.pin()
            return X.cfop('fadd', self.evpin(a), self.evpin(b))
        return X.fadd(a, b)

    def fsub(self, a, b):
        if self.pinned is not None:
            return X.cfop('fsub', self.evpin(a), self.evpin(b))
        if self.real and self.nonfin(a, b):
            self.pin()
            return X.cfop('fsub', self.evpin(a), self.evpin(b))
        return X.fsub(a, b)

    def fmul(self, a, b):
        if self.pinned is not None:
            return X.cfop('fmul', self.evpin(a), self.evpin(b))
        if self.real and self.nonfin(a, b):
            self.pin()
            return X.cfop('fmul', self.evpin(a), self.evpin(b))
        return X.fmul(a, b)

    @staticmethod
    def nonfin(a, b):
        for x in (a, b):
            if x.__class__ is float and (x != x or x in (math.inf, -math.inf)):
                return (a.__class__ is E) or (b.__class__ is E)
        return False

    def fun(self, op, a):
        if a.__class__ is E:
            if self.pinned is not None:
                return X.c_un(op, self.evpin(a))
            if self.real and op in ('sqrt', 'log', 'log2', 'log10'):
                bad = X.mk('flt', 1, a, 0.0) if op == 'sqrt' else X.mk('fle', 1, a, 0.0)
                if not (op == 'sqrt' and self.nonneg(a)) and self.D(bad):
                    self.pin()
                    return X.c_un(op, self.evpin(a))
            if self.real and op in ('round', 'rint') and self.mode in 'RD':
                pass
        return X.fun(op, a)

    def nonneg(self, a, d=0):
        if a.__class__ is not E:
            return a >= 0
        if d > 40:
            return False
        if a.op == 'fmul':
            return a.a[0] is a.a[1] or (self.nonneg(a.a[0], d + 1) and self.nonneg(a.a[1], d + 1))
        if a.op in ('fadd', 'fdiv'):
            return self.nonneg(a.a[0], d + 1) and self.nonneg(a.a[1], d + 1)
        if a.op in ('fabs', 'sqrt', 'exp', 'ui2f'):
            return True
        return False

    def POW(self, a, b):
        if self.pinned is not None:
            return X.c_pow(self.evpin(a), self.evpin(b))
        if (a.__class__ is float and a == 1.0) or (b.__class__ is float and b == 0.0):
            return 1.0
        if b.__class__ is not E and a.__class__ is E and abs(b) <= 16 and b == int(b) and abs(b) <= 16 and self.real:
            return self.powi_(a, int(b))
        if b.__class__ is not E and a.__class__ is E and b in (0.5, -0.5) and self.real:
            s = self.fun('sqrt', a)
            return s if b > 0 else self.fdiv(1.0, s)
        if a.__class__ is E or b.__class__ is E:
            if self.real and a.__class__ is E:
                if self.D(X.mk('fle', 1, a, 0.0)):
                    self.pin()
                    return X.c_pow(self.evpin(a), self.evpin(b))
        return X.fpow(a, b)

    def FMA(self, a, b, c):
        if self.pinned is not None:
            a, b, c = self.evpin(a), self.evpin(b), self.evpin(c)
        if E not in (a.__class__, b.__class__, c.__class__):
            return X.c_fma(a, b, c)
        if not self.real:
            raise Unsupported('fma')
        return self.fadd(self.fmul(a, b), c)

    def HYPOT(self, a, b):
        if self.pinned is not None:
            a, b = self.evpin(a), self.evpin(b)
        if E not in (a.__class__, b.__class__):
            return X.c_hypot(a, b)
        if not self.real:
            raise Unsupported('hypot')
        return self.fun('sqrt', self.fadd(self.fmul(a, a), self.fmul(b, b)))

    def powi_(self, a, n):
        recip = n < 0
        n = abs(n)
        r = 1.0
        while True:
            if n & 1:
                r = self.fmul(r, a)
            n >>= 1
            if n == 0:
                break
            a = self.fmul(a, a)
        return self.fdiv(1.0, r) if recip else r

    def POWI(self, a, n):
        n = X.sgn(self.conc(n), 32)
        return self.powi_(a, n)

    def COPYSIGN(self, a, b):
        if a.__class__ is E or b.__class__ is E:
            if self.real:
                return X.ite(X.mk('flt', 1, b, 0.0) if b.__class__ is E else math.copysign(1, b) < 0, X.fneg(X.fabs(a)), X.fabs(a), F)
            if b.__class__ is E:
                return X.ite(X.mk('fsign', 1, b), X.fneg(X.fabs(a)), X.fabs(a), F)
            return X.fneg(X.fabs(a)) if math.copysign(1, b) < 0 else X.fabs(a)
        return math.copysign(a, b)

    def FMINMAX(self, name, a, b):
        if name.startswith('min'):
            c = a < b
        else:
            c = a > b
        if c.__class__ is not E and a.__class__ is not E and b.__class__ is not E:
            if a != a:
                return b
            if b != b:
                return a
            return a if c else b
        r = X.ite(c, a, b, F)
        na, nb = X.isnan(a), X.isnan(b)
        r = X.ite(nb, a, r, F) if nb is not False else r
        r = X.ite(na, b, r, F) if na is not False else r
        return r

    def FPCLASS(self, x, mask):
        names = ['snan', 'qnan', 'ninf', 'nnorm', 'nsub', 'nzero', 'pzero', 'psub', 'pnorm', 'pinf']
        ms = {n for i, n in enumerate(names) if mask >> i & 1}
        if x.__class__ is not E:
            if x != x:
                return 'qnan' in ms
            neg = math.copysign(1, x) < 0
            if x in (math.inf, -math.inf):
                c = 'inf'
            elif x == 0:
                c = 'zero'
            elif abs(x) < 2.2250738585072014e-308:
                c = 'sub'
            else:
                c = 'norm'
            return ('n' if neg else 'p') + c in ms
        r = False
        ax = X.fabs(x)
        sign = X.mk('fsign', 1, x)
        cl = {'inf': X.eq(ax, math.inf), 'zero': X.eq(ax, 0.0),
              'sub': X.band(X.lt(0.0, ax), X.lt(ax, 2.2250738585072014e-308)),
              'norm': X.band(X.le(2.2250738585072014e-308, ax), X.lt(ax, math.inf))}
        for k, c in cl.items():
            p, n = 'p' + k in ms, 'n' + k in ms
            if p and n:
                r = r | c
            elif p:
                r = r | (c & X.not_(sign))
            elif n:
                r = r | (c & sign)
        if 'qnan' in ms or 'snan' in ms:
            r = r | X.isnan(x)
        return r

    def namespace(self):
        def INSV(v, x, idx):
            l = list(v)
            if len(idx) == 1:
                l[idx[0]] = x
            else:
                l[idx[0]] = INSV(l[idx[0]], x, idx[1:])
            return tuple(l)

        def i_ovf(kind, signed):
            def f(a, b, w):
                if a.__class__ is not E and b.__class__ is not E:
                    if signed:
                        r = eval_(X.sgn(a, w), X.sgn(b, w))
                        return (r & ((1 << w) - 1), not (-(1 << (w - 1)) <= r < (1 << (w - 1))))
                    r = eval_(a, b)
                    return (r & ((1 << w) - 1), not (0 <= r < (1 << w)))
                if kind == 'add' and not signed:
                    r = X.add(a, b)
                    if a.__class__ is E and b.__class__ is not E:
                        return (r, X.lt(((1 << w) - 1) - b, a))
                    if b.__class__ is E and a.__class__ is not E:
                        return (r, X.lt(((1 << w) - 1) - a, b))
                    return (r, X.lt(r, a))
                if kind == 'sub' and not signed:
                    return (X.sub(a, b), X.lt(a, b))
                w2 = 2 * w if kind == 'mul' else w + 1
                ext = (lambda v: X.sext(v, w, w2)) if signed else (lambda v: X.zext(v, w, w2))
                op = {'add': X.add, 'sub': X.sub, 'mul': X.mul}[kind]
                r2 = op(ext(a), ext(b))
                r = X.extract(r2, 0, w)
                return (r, X.not_(X.eq(ext(r), r2)))
            eval_ = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y}[kind]
            return f

        def usubsat(a, b, w):
            if a.__class__ is not E and b.__class__ is not E:
                return max(a - b, 0)
            return X.ite(X.lt(a, b), 0, X.sub(a, b), w)

        def uaddsat(a, b, w):
            if a.__class__ is not E and b.__class__ is not E:
                return min(a + b, (1 << w) - 1)
            r = X.add(a, b)
            return X.ite(X.lt(r, a), (1 << w) - 1, r, w)

        def mm(f):
            def g(a, b, w):
                return f(a, b, w)
            return g

        def cond(c, a, b, w):
            return (a if c else b) if c.__class__ is not E else X.ite(c, a, b, w)

        def iabs(a, p, w):
            return cond(X.slt(a, 0, w), X.sub(0, a) if a.__class__ is E else (-a) & ((1 << w) - 1), a, w)

        conc = self.conc

        def ctlz(a, z, w):
            a = conc(a)
            return w - a.bit_length()

        def cttz(a, z, w):
            if a.__class__ is E:
                a = conc(a)
            return w if a == 0 else (a & -a).bit_length() - 1

        def bswap(a, w):
            if a.__class__ is E:
                r = None
                for i in range(w // 8):
                    x = X.extract(a, 8 * i, 8)
                    r = x if r is None else X.concat(r, x, 8 * i, 8)
                return r
            return int.from_bytes(a.to_bytes(w // 8, 'little'), 'big')

        def fsh(a, b, c, w, left):
            c = conc(c) % w
            if not left:
                c = (w - c) % w
                if c == 0:
                    return b
            if c == 0:
                return a
            if a.__class__ is not E and b.__class__ is not E:
                return ((a << c) | (b >> (w - c))) & ((1 << w) - 1)
            return X.bor(X.shl(a, c, w), X.lshr(b, w - c, w)) if (a.__class__ is E or b.__class__ is E) else 0

        def ucmp(a, b, w):
            if a.__class__ is not E and b.__class__ is not E:
                return 255 if a < b else (0 if a == b else 1)
            return X.ite(X.lt(a, b), 255, X.ite(X.eq(a, b), 0, 1, 8), 8)

        def scmp(a, b, w):
            return cond(X.slt(a, b, w), 255, cond(X.slt(b, a, w), 1, 0, 8), 8)

        ns = dict(E=E, D=self.D, SWITCH=self.SWITCH, LDI=self.LDI, LDB=self.LDB, LDF=self.LDF, LDT=self.LDT,
                  STI=self.STI, STF=self.STF, STT=self.STT, MEMCPY=self.MEMCPY, MEMSET=self.MEMSET,
                  ALLOCA=self.alloc, ICALL=self.ICALL, CMPXCHG=self.CMPXCHG, ATOMICRMW=self.ATOMICRMW, SEL=self.SEL,
                  INSV=INSV, fdiv=self.fdiv, frem=X.frem, fneg=X.fneg, fabs=X.fabs, isnan=X.isnan, not_=X.not_, fadd=self.fadd, fsub=self.fsub, fmul=self.fmul,
                  f2b=X.f2b, b2f=X.b2f, f2ui=self.f2ui, f2si=self.f2si, ui2f=X.ui2f, si2f=X.si2f, fun=self.fun, POW=self.POW, POWI=self.POWI, FMA=self.FMA, HYPOT=self.HYPOT,
                  COPYSIGN=self.COPYSIGN, FMINMAX=self.FMINMAX, FPCLASS=self.FPCLASS, F32=X.f32,
                  zext=X.zext, sext=X.sext, trunc=X.trunc, extract=X.extract, shl=X.shl, lshr=X.lshr, ashr=X.ashr,
                  udiv=self.udiv, urem=X.urem, sdiv=X.sdiv, srem=X.srem, slt=X.slt, sle=X.sle,
                  NAN=math.nan, INF=math.inf, NINF=-math.inf, PathError=PathError, Unsupported=Unsupported,
                  I_UADD_WITH_OVERFLOW=i_ovf('add', False), I_SADD_WITH_OVERFLOW=i_ovf('add', True),
                  I_USUB_WITH_OVERFLOW=i_ovf('sub', False), I_SSUB_WITH_OVERFLOW=i_ovf('sub', True),
                  I_UMUL_WITH_OVERFLOW=i_ovf('mul', False), I_SMUL_WITH_OVERFLOW=i_ovf('mul', True),
                  I_USUB_SAT=usubsat, I_UADD_SAT=uaddsat,
                  I_UMAX=lambda a, b, w: cond(a < b, b, a, w), I_UMIN=lambda a, b, w: cond(a < b, a, b, w),
                  I_SMAX=lambda a, b, w: cond(X.slt(a, b, w), b, a, w), I_SMIN=lambda a, b, w: cond(X.slt(a, b, w), a, b, w),
                  I_ABS=iabs, I_CTLZ=ctlz, I_CTTZ=cttz, I_CTPOP=lambda a, w: bin(conc(a)).count('1'),
                  I_BSWAP=bswap, I_BITREVERSE=lambda a, w: int(format(conc(a), '0%db' % w)[::-1], 2),
                  I_FSHL=lambda a, b, c, w: fsh(a, b, c, w, True), I_FSHR=lambda a, b, c, w: fsh(a, b, c, w, False),
                  I_UCMP=ucmp, I_SCMP=scmp)
        ns['COV'] = self.COV = bytearray(200000)
        ns['FN'] = [None] * len(self.mod.globals)
        return ns

    def udiv(self, a, b, w):
        if b.__class__ is not E and b == 0:
            raise PathError('division by zero')
        return X.udiv(a, b, w)

    def f2ui(self, a, w):
        if a.__class__ is E and self.pinned is not None:
            a = self.evpin(a)
        return X.f2ui(a, w)

    def f2si(self, a, w):
        if a.__class__ is E:
            if self.pinned is not None:
                a = self.evpin(a)
            elif self.real:
                # non-negative side reads as the unsigned conversion
                if not self.D(X.mk('flt', 1, a, 0.0)):
                    return X.f2ui(a, w)
        return X.f2si(a, w)

    # ------------------------------------------------------------ functions
    def hooks(self):
        FN = self.FN
        from env import HOOKS
        for g in self.mod.funcs:
            h = None
            for rx, mkh in HOOKS:
                if rx.search(g.name):
                    h = mkh(self, g)
                    break
            if h is not None:
                FN[g.idx] = h
            elif g.defined:
                FN[g.idx] = self.lazy(g)
            else:
                FN[g.idx] = self.missing(g.name)

    def missing(self, name):
        def f(*a):
            raise Unsupported('external function ' + name)
        return f

    def original(self, g):
        """the function itself, for a hook that wraps it"""
        f = [None]

        def call(*a):
            if f[0] is None:
                src = ir.Compiler(self.mod, g).compile()
                d = {}
                exec(compile(src, '<%s>' % g.name[-60:], 'exec'), self.ns, d)
                f[0] = g.py = d['fn']
            return f[0](*a)
        return call

    def lazy(self, g):
        def stub(*a):
            src = ir.Compiler(self.mod, g).compile()
            code = compile(src, '<%s>' % g.name[-60:], 'exec')
            d = {}
            exec(code, self.ns, d)
            f = d['fn']
            g.py = f
            self.FN[g.idx] = f
            if len(self.mod.cov_blocks) >= len(self.COV):
                raise Exception('coverage table full')
            return f(*a)
        return stub

    # ------------------------------------------------------------ one path
    def run(self, fname, prefix=(), model=None):
        X.RANGE.clear()
        X.MAG.clear()
        self.npc = set()
        self.fixed = {}
        self.defaults = {}
        self.lastmodel = dict(model or {})
        self.unsup = set()
        self.proved = 0
        self.trivial = 0
        self.cut = None
        self.lastpanic = None
        self.reset(prefix, dict(model) if model is not None else (None if prefix else {}))
        status = 'ok'
        detail = ''
        try:
            self.FN[self.mod.func(fname).idx]()
        except PathEnd as e:
            status = 'cut' if self.cut else 'end'
            detail = str(e)
        except Panic as e:
            status = 'panic'
            detail = e.loc
            self.fail('panic at ' + e.loc)
        except PathTimeout:
            status = 'hang'
            self.fail('hang')
        except PathError as e:
            status = 'error'
            detail = str(e)
            self.fail('memory error: ' + detail)
        except Unsupported as e:
            status = 'unsupported'
            detail = str(e)
            if os.environ.get('LLSYM_TRACE'):
                import traceback
                traceback.print_exc()
        except RecursionError as e:
            status = 'unsupported'
            detail = 'recursion'
        endmodel = None
        if status == 'ok' and not self.viol and (self.pinexact if self.pinned is not None else self.model is not None):
            m = self.pinned if self.pinned is not None else self.getmodel()
            vals = []
            for nm, w, v in self.nd:
                x = m.get(nm, self.defaults[nm])
                vals.append((w, X.fbits(x) if w == F else int(x)))
            endmodel = (vals, sum(self.checks.values()))
        return dict(endmodel=endmodel, status=status, detail=detail, new=self.new, viol=self.viol, unk=self.unk, checks=self.checks, covers=self.covers,
                    proved=self.proved, trivial=self.trivial, pinned=self.pinned is not None, unsup=self.unsup, cut=self.cut)
