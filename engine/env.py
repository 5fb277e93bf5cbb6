"""Environment model: allocator, panics, randomness hooks, std internals replaced by their contract."""
import re, math
import expr as X, ir
from expr import E, F, Unsupported
import rt as R

HOOKS = []


def hook(rx):
    def d(f):
        HOOKS.append((re.compile(rx), f))
        return f
    return d


@hook(r'___rust_alloc$|___rust_alloc_zeroed$|^__rust_alloc(_zeroed)?$')
def _(rt, g):
    return lambda n, al=1: rt.alloc(n)


@hook(r'___rust_dealloc$')
def _(rt, g):
    def f(p, n, al):
        p = rt.conc(p)
        if p >> 32 not in rt.M or p & 0xffffffff:
            raise R.PathError('invalid free')
        del rt.M[p >> 32]
    return f


def realloc(rt, p, old, new):
    q = rt.alloc(new)
    rt.MEMCPY(q, p, min(rt.conc(old), rt.conc(new)))
    del rt.M[p >> 32]
    return q


@hook(r'___rust_realloc$')
def _(rt, g):
    return lambda p, old, al, new: realloc(rt, rt.conc(p), old, new)


@hook(r'^malloc$')
def _(rt, g):
    return lambda n: rt.alloc(n)


@hook(r'^calloc$')
def _(rt, g):
    return lambda n, m: rt.alloc(rt.conc(n) * rt.conc(m))


@hook(r'^free$')
def _(rt, g):
    return lambda p: rt.M.pop(rt.conc(p) >> 32, None) and None


@hook(r'^realloc$')
def _(rt, g):
    return lambda p, n: realloc(rt, rt.conc(p), rt.obj(p).n if p else 0, n) if rt.conc(p) else rt.alloc(n)


@hook(r'rust_no_alloc_shim')
def _(rt, g):
    return lambda *a: None


@hook(r'^bcmp$')
def _(rt, g):
    return rt.bcmp


@hook(r'^memcmp$')
def _(rt, g):
    return rt.memcmp


@hook(r'^(memcpy|memmove)$')
def _(rt, g):
    def f(d, s, n):
        rt.MEMCPY(d, s, n)
        return d
    return f


@hook(r'^memset$')
def _(rt, g):
    def f(d, v, n):
        rt.MEMSET(d, v & 255, n)
        return d
    return f


# the mathematical functions of libm, over the reals
@hook(r'^hypot$')
def _(rt, g):
    return rt.HYPOT


@hook(r'^fma$')
def _(rt, g):
    return rt.FMA


@hook(r'^expm1$')
def _(rt, g):
    return lambda x: rt.fsub(rt.fun('exp', x), 1.0)


@hook(r'^log1p$')
def _(rt, g):
    return lambda x: rt.fun('log', rt.fadd(1.0, x))


@hook(r'^cbrt$')
def _(rt, g):
    return lambda x: rt.fun('cbrt', x)


@hook(r'^(exp|exp2|log|log2|log10|sin|cos|tan|sqrt|floor|ceil|round|rint)$')
def _(rt, g):
    return lambda x: rt.fun(g.name, x)


@hook(r'^trunc$')
def _(rt, g):
    return lambda x: rt.fun('ftrunc', x)


@hook(r'^pow$')
def _(rt, g):
    return rt.POW


@hook(r'^strlen$')
def _(rt, g):
    def f(p):
        o = rt.obj(rt.conc(p))
        k = p & 0xffffffff
        return o.b.index(0, k) - k
    return f


def location(rt, p):
    """core::panic::Location {file: &str, line, col}"""
    try:
        fp, fl, line = rt.LDI(p, 8), rt.LDI(p + 8, 8), rt.LDI(p + 16, 4)
        return '%s:%d' % (rt.string(fp, fl).rstrip('\0'), line)
    except Exception:
        return '?'


@hook(r'4core9panicking(9panic_fmt|19panic_nounwind_fmt|14panic_nounwind|26panic_nounwind_nobacktrace|5panic|11panic_const.*|18panic_bounds_check)$|4core9panicking11panic_const|^_RINvNt[A-Za-z0-9_]*3std9panicking11begin_panic|26___rust_end_short_backtrace|9panicking15panic_with_hook$|4core9panicking19panic_cannot_unwind$')
def _(rt, g):
    def f(*a):
        loc = '?'
        for p in reversed(a):
            if p.__class__ is int and p >> 32:
                loc = location(rt, p)
                break
        raise R.Panic(loc)
    return f


@hook(r'5alloc5alloc18handle_alloc_error|__rust_alloc_error_handler|5alloc7raw_vec12handle_error|5alloc7raw_vec17capacity_overflow')
def _(rt, g):
    def f(*a):
        raise R.Panic('allocation failure')
    return f


@hook(r'^abort$')
def _(rt, g):
    def f(*a):
        raise R.Panic('abort')
    return f


for nm in ('nd_f64', 'nd_f64_any', 'nd_u64', 'nd_rng', 'nd_assume', 'nd_check', 'nd_cover', 'nd_catch', 'nd_rngcap', 'nd_choose', 'nd_split'):
    def _mk(nm):
        @hook('^%s$' % nm)
        def _(rt, g):
            return getattr(rt, nm)
    _mk(nm)


@hook(r'hashmap_random_keys')
def _(rt, g):
    return lambda *a: (0x0123456789abcdef, 0xfedcba9876543210)


@hook(r'3std2io5stdio6__?print$|3std2io5stdio7_eprint$|3std2io5stdio6_print$')
def _(rt, g):
    return lambda *a: None


@hook(r'^nd_gauss$')
def _(rt, g):
    def f():
        x = rt.nd_f64(-16.0, 16.0)
        rt.gauss.append(x)
        return x
    return f


@hook(r'^nd_gauss_count$')
def _(rt, g):
    return lambda: len(rt.gauss)


@hook(r'^nd_gauss_at$')
def _(rt, g):
    def f(i):
        i = rt.conc(i)
        return rt.gauss[i] if i < len(rt.gauss) else 0.0
    return f


# ------------------------------------------------------------ text of symbolic numbers
# A symbolic number is written as a text unique to it (a token of digits), and
# reading exactly that text gives the number back: the contract of the standard
# library's shortest decimal form.  A precision rounds the number within half
# a unit of the last digit first.  Symbolic integers are written digit by digit.
class Text:
    """bytes, some of them symbolic"""


def emit(rt, fm, bs):
    """write bytes (ints or E of width 8) to a Formatter, padded to its width"""
    flags = rt.conc(rt.LDI(fm + 16, 4))
    width = rt.LDI(fm + 20, 2) if flags >> 27 & 1 else 0
    width = rt.conc(width)
    pad = max(0, width - len(bs))
    if flags >> 24 & 1:
        if bs and bs[0] == 45:
            bs = bs[:1] + [48] * pad + bs[1:]
        else:
            bs = [48] * pad + bs
    elif pad:
        al = flags >> 29 & 3
        left = 0 if al == 0 else pad // 2 if al == 2 else pad
        fill = list(chr(flags & 0x1fffff).encode())
        bs = fill * left + bs + fill * (pad - left)
    buf, vt = rt.conc(rt.LDI(fm, 8)), rt.conc(rt.LDI(fm + 8, 8))
    p = rt.alloc(len(bs))
    for i, x in enumerate(bs):
        rt.STI(p + i, 1, x)
    return rt.ICALL(rt.LDI(vt + 24, 8))(buf, p, len(bs))


def symbolic(rt, p, n):
    o = rt.obj(p)
    f = p & 0xffffffff
    return bool(o.s) and any(k < f + n and k + v[0] > f for k, v in o.s.items())


def token(rt, x, kind, prec):
    neg = bool(rt.D(X.lt(x, 0.0)))
    k = (x.id, kind, prec)
    t = rt.tokmemo.get(k)
    if t is None:
        n = len(rt.tokmemo) + 1
        v = X.fabs(x) if neg else x
        if prec is not None:
            v = X.dig(v, kind, prec)
        # all tokens have their own digits; a value with a precision shows that many
        if kind == 'e':
            t = '%d.%s%de%d' % (1 + n % 9, '7' * 5, 1000 + n, 0) if prec is None else '%d.%s%de%d' % (1 + n % 9, '7' * max(prec - 4, 0), 1000 + n, 0)
        else:
            t = '%d.%s1' % (1000 + n, '7' * 4) if prec is None else '%d.%s' % (1000 + n, '7' * prec) if prec else '%d' % (1000 + n)
        rt.tokmemo[k] = t
        rt.tokens[t] = v
        if neg:
            rt.tokens['-' + t] = X.fneg(v)
    return ('-' if neg else '') + t


def float_fmt(kind, single=False):
    def mkh(rt, g):
        orig = rt.original(g)

        def f(p, fm):
            x = rt.LDT(p, ir.F32) if single else rt.LDF(p)
            if x.__class__ is E and rt.pinned is not None:
                x = rt.evpin(x)
                if single:
                    rt.STT(p, ir.F32, x)
                else:
                    rt.STF(p, x)
            if x.__class__ is not E:
                return orig(p, fm)
            if single:
                x = X.t32(x)
            flags = rt.conc(rt.LDI(fm + 16, 4))
            prec = rt.conc(rt.LDI(fm + 22, 2)) if flags >> 28 & 1 else None
            if not rt.real:
                if prec is not None:
                    raise Unsupported('text of a symbolic double with a precision outside the real theories')
                if rt.D(X.isnan(x)):
                    return emit(rt, fm, list(b'NaN'))
                if X.mag(x) is None and not rt.D(X.le(X.fabs(x), 1.7976931348623157e308)):
                    return emit(rt, fm, list(b'-inf' if rt.D(X.lt(x, 0.0)) else b'inf'))
            t = token(rt, x, kind, prec)
            if flags >> 21 & 1 and t[0] != '-':
                t = '+' + t
            return emit(rt, fm, list(t.encode()))
        return f
    return mkh


HOOKS.append((re.compile(r'3fmt5floatfNt\w+_7Display3fmt$'), float_fmt('f', True)))
HOOKS.append((re.compile(r'3fmt5floatfNt\w+_8LowerExp3fmt$'), float_fmt('e', True)))
HOOKS.append((re.compile(r'3fmt5floatdNt\w+_7Display3fmt$'), float_fmt('f')))
HOOKS.append((re.compile(r'3fmt5floatdNt\w+_8LowerExp3fmt$'), float_fmt('e')))


@hook(r'11float_parsedNt\w*7FromStr8from_str$')
def _(rt, g):
    orig = rt.original(g)

    def f(ret, p, n):
        n, p = rt.conc(n), rt.conc(p)
        if rt.tokens and n and not symbolic(rt, p, n):
            v = rt.tokens.get(rt.string(p, n))
            if v is not None:
                rt.STI(ret, 1, 0)
                rt.STF(ret + 8, v)
                return
        return orig(ret, p, n)
    return f


def int_fmt(size, signed):
    def mkh(rt, g):
        orig = rt.original(g)

        def f(p, fm):
            x = rt.LDI(p, size)
            if x.__class__ is E and rt.pinned is not None:
                x = rt.evpin(x)
                rt.STI(p, size, x)
            if x.__class__ is not E:
                return orig(p, fm)
            if signed or size > 8:
                raise Unsupported('text of a symbolic signed or 128-bit integer')
            x = X.zext(x, 8 * size, 64)
            k = 1
            while k < 19 and not rt.D(X.lt(x, 10 ** k)):
                k += 1
            w = 8 if k <= 2 else 16 if k <= 4 else 32 if k <= 9 else 64
            x = X.extract(x, 0, w)
            bs = []
            for i in range(k - 1, -1, -1):
                d = x if i == 0 else X.udiv(x, 10 ** i, w)
                d = d if i == k - 1 else X.urem(d, 10, w)
                bs.append(X.add(X.extract(d, 0, 8), 48))
            return emit(rt, fm, bs)
        return f
    return mkh


for _c, _n, _s in (('h', 1, 0), ('t', 2, 0), ('m', 4, 0), ('y', 8, 0), ('j', 8, 0), ('l', 4, 1), ('x', 8, 1), ('o', 16, 0)):
    HOOKS.append((re.compile(r'3fmt3num(3imp)?%sNt\w+_7Display3fmt$' % _c), int_fmt(_n, _s)))


# ------------------------------------------------------------ an in-memory file system
# rt.fs: path -> [kind, object base, size]; rt.fds: fd -> [path, position, append]
import posixpath
ENOENT, EEXIST, ENOTDIR, EISDIR, EBADF, ENOSPC = 2, 17, 20, 21, 9, 28
MINUS1 = (1 << 64) - 1


def errno(rt, e):
    if not rt.fds.get('errno'):
        rt.fds['errno'] = rt.alloc(8)
    rt.STI(rt.fds['errno'], 4, e)
    return MINUS1


def cpath(rt, p):
    p = rt.conc(p)
    o = rt.obj(p)
    k = p & 0xffffffff
    n = o.b.index(0, k) - k
    if symbolic(rt, p, n):
        # a name with symbolic digits: one path per name
        t = bytes(rt.conc(rt.LDI(p + i, 1)) for i in range(n)).decode()
    else:
        t = bytes(o.b[k:k + n]).decode('utf8', 'replace')
    if '/nd' not in rt.fs:
        rt.fs['/nd'] = ['d', 0, 0]
    return posixpath.normpath(t)


@hook(r'^__errno_location$')
def _(rt, g):
    def f():
        if not rt.fds.get('errno'):
            rt.fds['errno'] = rt.alloc(8)
        return rt.fds['errno']
    return f


# ------------------------------------------------------------ faults: the k-th operation that changes files fails
@hook(r'^nd_fault$')
def _(rt, g):
    def f(k):
        fired = rt.fds.get('fault') == 'fired'
        rt.fds['fault'] = rt.conc(k)
        return 1 if fired else 0
    return f


def faulty(rt):
    k = rt.fds.get('fault', 0)
    if not k or k == 'fired':
        return False
    rt.fds['fault'] = k - 1 if k > 1 else 'fired'
    return k == 1


@hook(r'^open(64)?$')
def _(rt, g):
    def f(p, flags, mode=0):
        t = cpath(rt, p)
        flags = rt.conc(flags)
        if flags & 3 and faulty(rt):
            return errno(rt, ENOSPC) & 0xffffffff
        x = rt.fs.get(t)
        if x is None:
            if not flags & 0o100:
                return errno(rt, ENOENT) & 0xffffffff
            up = rt.fs.get(posixpath.dirname(t))
            if up is None or up[0] != 'd':
                return errno(rt, ENOENT) & 0xffffffff
            x = rt.fs[t] = ['f', rt.alloc(256), 0]
        elif flags & 0o200 and flags & 0o100:
            return errno(rt, EEXIST) & 0xffffffff
        elif x[0] == 'd' and flags & 3:
            return errno(rt, EISDIR) & 0xffffffff
        if flags & 0o1000 and x[0] == 'f':
            x[1], x[2] = rt.alloc(256), 0
        fd = 3
        while fd in rt.fds:
            fd += 1
        rt.fds[fd] = [t, 0, bool(flags & 0o2000)]
        return fd
    return f


def fget(rt, fd):
    fd = rt.conc(fd) & 0xffffffff
    h = rt.fds.get(fd)
    return (h, rt.fs.get(h[0])) if h else (None, None)


@hook(r'^close$')
def _(rt, g):
    def f(fd):
        rt.fds.pop(rt.conc(fd) & 0xffffffff, None)
        return 0
    return f


@hook(r'^read$')
def _(rt, g):
    def f(fd, buf, n):
        h, x = fget(rt, fd)
        if x is None:
            return errno(rt, EBADF)
        if x[0] == 'd':
            return errno(rt, EISDIR)
        k = min(rt.conc(n), max(0, x[2] - h[1]))
        if k:
            rt.MEMCPY(buf, x[1] + h[1], k)
        h[1] += k
        return k
    return f


def fwrite(rt, fd, buf, n, sure=False):
    if rt.conc(fd) & 0xffffffff in (1, 2):
        return n
    if not sure and faulty(rt):
        return errno(rt, ENOSPC)
    h, x = fget(rt, fd)
    if x is None:
        return errno(rt, EBADF)
    if h[2]:
        h[1] = x[2]
    need = h[1] + n
    cap = rt.obj(x[1]).n
    if need > cap:
        q = rt.alloc(max(need, 2 * cap))
        rt.MEMCPY(q, x[1], x[2])
        del rt.M[x[1] >> 32]
        x[1] = q
    if n:
        rt.MEMCPY(x[1] + h[1], buf, n)
    h[1] = need
    x[2] = max(x[2], need)
    return n


@hook(r'^write$')
def _(rt, g):
    return lambda fd, buf, n: fwrite(rt, fd, rt.conc(buf), rt.conc(n))


@hook(r'^writev$')
def _(rt, g):
    def f(fd, iov, n):
        t = 0
        iov = rt.conc(iov)
        if rt.conc(fd) & 0xffffffff not in (1, 2) and faulty(rt):
            return errno(rt, ENOSPC)
        for i in range(rt.conc(n)):
            t += fwrite(rt, fd, rt.conc(rt.LDI(iov + 16 * i, 8)), rt.conc(rt.LDI(iov + 16 * i + 8, 8)), True)
        return t
    return f


@hook(r'^lseek(64)?$')
def _(rt, g):
    def f(fd, off, wh):
        h, x = fget(rt, fd)
        if x is None:
            return errno(rt, EBADF)
        off = X.sgn(rt.conc(off), 64)
        h[1] = off + (0 if wh == 0 else h[1] if wh == 1 else x[2])
        return h[1]
    return f


@hook(r'^(mkdir)$')
def _(rt, g):
    def f(p, mode):
        t = cpath(rt, p)
        if faulty(rt):
            return errno(rt, ENOSPC) & 0xffffffff
        if t in rt.fs:
            return errno(rt, EEXIST) & 0xffffffff
        up = rt.fs.get(posixpath.dirname(t))
        if up is None or up[0] != 'd':
            return errno(rt, ENOENT) & 0xffffffff
        rt.fs[t] = ['d', 0, 0]
        return 0
    return f


def put_statx(rt, buf, x):
    rt.MEMSET(buf, 0, 256)
    rt.STI(buf, 4, 0x7ff)
    rt.STI(buf + 4, 4, 4096)
    rt.STI(buf + 16, 4, 1)
    rt.STI(buf + 28, 2, 0o100644 if x[0] == 'f' else 0o40755)
    rt.STI(buf + 32, 8, 1 + list(map(id, rt.fs.values())).index(id(x)))
    rt.STI(buf + 40, 8, x[2])


@hook(r'^statx$')
def _(rt, g):
    def f(dirfd, p, flags, mask, buf):
        if not rt.conc(p) or not rt.conc(buf):
            return errno(rt, 14) & 0xffffffff
        t = cpath(rt, p)
        if p and rt.LDI(p, 1) == 0:
            h, x = fget(rt, dirfd)
        else:
            x = rt.fs.get(t)
        if x is None:
            return errno(rt, ENOENT) & 0xffffffff
        put_statx(rt, rt.conc(buf), x)
        return 0
    return f


@hook(r'^opendir$')
def _(rt, g):
    def f(p):
        t = cpath(rt, p)
        x = rt.fs.get(t)
        if x is None or x[0] != 'd':
            errno(rt, ENOENT)
            return 0
        d = rt.alloc(8)
        rt.fds[('dir', d)] = [sorted(k for k in rt.fs if posixpath.dirname(k) == t), 0, None]
        return d
    return f


@hook(r'^readdir64$')
def _(rt, g):
    def f(d):
        h = rt.fds[('dir', rt.conc(d))]
        if h[1] >= len(h[0]):
            return 0
        t = h[0][h[1]]
        h[1] += 1
        nm = posixpath.basename(t).encode()
        e = rt.alloc(280)
        rt.STI(e, 8, 10 + h[1])
        rt.STI(e + 16, 2, 280)
        rt.STI(e + 18, 1, 8 if rt.fs[t][0] == 'f' else 4)
        for i, b in enumerate(nm + b'\0'):
            rt.STI(e + 19 + i, 1, b)
        return e
    return f


@hook(r'^closedir$')
def _(rt, g):
    return lambda d: 0


@hook(r'^dirfd$')
def _(rt, g):
    return lambda d: 99


@hook(r'^memchr$')
def _(rt, g):
    def f(p, c, n):
        p, n = rt.conc(p), rt.conc(n)
        o = rt.obj(p)
        k = p & 0xffffffff
        c &= 255
        if k + n > o.n:
            raise R.PathError('memchr out of bounds')
        if not symbolic(rt, p, n):
            i = o.b.find(c, k, k + n)
            return p + i - k if i >= 0 else 0
        for i in range(n):
            if rt.D(X.eq(rt.LDI(p + i, 1), c)):
                return p + i
        return 0
    return f


@hook(r'^memrchr$')
def _(rt, g):
    def f(p, c, n):
        p, n = rt.conc(p), rt.conc(n)
        for i in range(n - 1, -1, -1):
            if rt.D(X.eq(rt.LDI(p + i, 1), c & 255)):
                return p + i
        return 0
    return f


@hook(r'^clock_gettime$')
def _(rt, g):
    def f(c, p):
        rt.STI(p, 8, 1700000000)
        rt.STI(p + 8, 8, 0)
        return 0
    return f


@hook(r'^(pthread_mutex_\w+|fcntl|pthread_rwlock_\w+)$')
def _(rt, g):
    return lambda *a: 0


# ------------------------------------------------------------ the words of the command line
@hook(r'^nd_set_args$')
def _(rt, g):
    def f(n, p):
        for name, v in (('4ARGC', n), ('4ARGV', p)):
            k = [x for x in rt.mod.gidx if re.search(r'4args\w*3imp%s(\.\d+)?$' % name, x.strip('"'))]
            if not k:
                raise Unsupported('where the words of the command line are kept')
            for x in k:
                rt.STI(rt.mod.gidx[x] << 32, 8, v)
    return f
