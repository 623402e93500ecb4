"""Models of the C/C++ library used by the analysed program.

Only what lies outside /repo is modelled here; every /repo function is interpreted from its own code.
A model is  m(eng, st, args, instr, fn) -> list of (state, return value)  or None (= interpret the body)."""
import re
from lin import *
from ai import *

RULES = []


def model(*pats):
    def d(f):
        for p in pats:
            RULES.append((re.compile(p), f))
        return f
    return d


def lookup(fn):
    for r, f in RULES:
        if r.match(fn.dem):
            return f
    return None


def ret(s, v=None):
    return [(s, v)]


# ------------------------------------------------------------------ LLVM intrinsics
@model(r'llvm\.lifetime\.start')
def m_lifestart(e, s, a, i, fn):
    p = a[1]
    if isinstance(p, Ptr) and p.obj.kind == 'alloca':
        s = s.copy()
        s.mem[p.obj] = EMPTY
    return ret(s)


@model(r'llvm\.lifetime\.end')
def m_lifeend(e, s, a, i, fn):
    p = a[1]
    if isinstance(p, Ptr) and p.obj.kind == 'alloca':
        s = s.copy()
        s.mem[p.obj] = EMPTY
    return ret(s)


@model(r'llvm\.(dbg|experimental\.noalias|invariant|assume|prefetch|donothing)')
def m_nop(e, s, a, i, fn):
    return ret(s)


@model(r'llvm\.(expect|launder|strip|is\.constant)')
def m_id(e, s, a, i, fn):
    return ret(s, ZERO if 'is.constant' in fn.dem else a[0])


@model(r'llvm\.trap', r'abort$', r'exit$', r'_exit$', r'std::terminate', r'std::__throw_', r'__cxa_pure_virtual',
       r'std::__glibcxx_assert_fail')
def m_abort(e, s, a, i, fn):
    e.on_abort(s, fn)
    return []


@model(r'__assert_fail$')
def m_assert(e, s, a, i, fn):
    e.on_assert_fail(s, e.text_of(s, a[0]))
    return []


@model(r'llvm\.memcpy', r'llvm\.memmove', r'memcpy$', r'memmove$')
def m_memcpy(e, s, a, i, fn):
    n = a[2]
    out = []
    for s1, n in e.nu(s, n, 64):
        z = s1.assume_eq(n) if not s1.cons.ne0(n) else None
        if z is not None:
            out.append((z, a[0]))
        s1 = s1.assume_ge(n - 1)
        if s1 is None:
            continue
        for s2, d in e.deref_ptr(s1, a[0]):
            for s3, q in e.deref_ptr(s2, a[1]):
                s4 = e.on_access(s3, q, n, 'load')
                s4 = s4 and e.on_access(s4, d, n, 'store')
                if s4 is None:
                    continue
                nn = s4.norm(n)
                if nn.is_const() and nn.c <= 64:
                    ss = e.copy_small(s4, d, q, nn.c)
                else:
                    ss = e.copy_all(s4, d, q, n)
                for s4 in ss:
                    s4 = e.on_copied(s4, d, q, n)
                    out.append((s4, a[0]))
    return out


@model(r'llvm\.memset', r'memset$')
def m_memset(e, s, a, i, fn):
    out = []
    for s1, n in e.nu(s, a[2], 64):
        z = s1.assume_eq(n) if not s1.cons.ne0(n) else None
        if z is not None:
            out.append((z, a[0]))
        s1 = s1.assume_ge(n - 1)
        if s1 is None:
            continue
        for s2, d in e.deref_ptr(s1, a[0]):
            s2 = e.on_access(s2, d, n, 'store')
            if s2 is None:
                continue
            out.append((e.write(s2, d.obj, ('s', d.off, n, a[1] if isinstance(a[1], Lin) else ZERO)), a[0]))
    return out


@model(r'llvm\.(u|s)(mul|add|sub)\.with\.overflow')
def m_ovf(e, s, a, i, fn):
    m = re.match(r'llvm\.(u|s)(mul|add|sub)\.with\.overflow\.i(\d+)', fn.dem)
    w = int(m.group(3))
    out = []
    for s1, x in e.normw(s, a[0], w, m.group(1) == 's'):
        for s2, y in e.normw(s1, a[1], w, m.group(1) == 's'):
            x, y = s2.norm(x), s2.norm(y)
            if m.group(2) == 'mul':
                if not (x.is_const() or y.is_const()):
                    out.append((s2, Agg([L(ksym(('mul', x, y, w), 0, (1 << w) - 1)), L(fresh(0, 1))])))
                    continue
                r = x.scale(y.c) if y.is_const() else y.scale(x.c)
            else:
                r = x + y if m.group(2) == 'add' else x - y
            lo, hi = (0, (1 << w) - 1) if m.group(1) == 'u' else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
            for s3, ok in e.split(s2, r - lo, 'ge'):
                if not ok:
                    out.append((s3, Agg([r, ONE])))
                    continue
                for s4, ok2 in e.split(s3, C(hi) - r, 'ge'):
                    out.append((s4, Agg([r, ZERO if ok2 else ONE])))
    return out


@model(r'llvm\.(u|s)(min|max)\.')
def m_minmax(e, s, a, i, fn):
    m = re.match(r'llvm\.(u|s)(min|max)\.i(\d+)', fn.dem)
    out = []
    for s2, r in e.compare(s, m.group(1) + 'lt', a[0], a[1], int(m.group(3))):
        out.append((s2, a[0] if r == (m.group(2) == 'min') else a[1]))
    return out


@model(r'llvm\.va_(start|end)')
def m_va(e, s, a, i, fn):
    k = 'start' if 'start' in fn.dem else 'end'
    return ret(e.on_va(s, k, a[0], None))


@model(r'llvm\.va_copy')
def m_vacopy(e, s, a, i, fn):
    return ret(e.on_va(s, 'copy', a[0], a[1]))


@model(r'llvm\.umul|llvm\.bswap|llvm\.ctlz|llvm\.cttz|llvm\.ctpop|llvm\.abs')
def m_bits(e, s, a, i, fn):
    s = s.copy()
    s.imprecise(fn.dem)
    return ret(s, e.unk_ret(i['ty']))


# ------------------------------------------------------------------ C++ runtime, allocation
@model(r'operator new(\[\])?\(unsigned long(, std::align_val_t)?\)', r'malloc$', r'calloc$')
def m_new(e, s, a, i, fn):
    kind = 'new[]' if '[]' in fn.dem else 'new' if fn.dem.startswith('operator') else 'malloc'
    out = []
    n = a[0]
    for s1, n in e.nu(s, n, 64):
        if fn.dem.startswith('calloc'):
            n = s1.norm(a[1]).scale(s1.norm(n).c) if s1.norm(n).is_const() else n
        s2 = s1.copy()
        o = Obj('heap', n, kind, align=16, site=(e.siteof(s), kind))
        o.how = kind
        if s2.norm(n).is_const() is False:
            # no allocation is larger than the address space
            s2 = s2.assume_ge(C((1 << 47)) - n)
            if s2 is None:
                continue
        s2.mem[o] = EMPTY
        s2 = e.on_alloc(s2, o, n, kind)
        if s2 is None:
            continue
        out.append((s2, Ptr(o)))
        if kind == 'malloc' and e.malloc_fails:
            out.append((s1, ZERO))
    return out


@model(r'operator delete(\[\])?\(void\*', r'free$')
def m_delete(e, s, a, i, fn):
    kind = 'delete[]' if '[]' in fn.dem else 'delete' if fn.dem.startswith('operator') else 'free'
    p = e.res(s, a[0])
    if isinstance(p, Lin) and s.norm(p).is_const() and s.norm(p).c == 0:
        return ret(s)
    out = []
    for s1, p in e.resolve(s, p):
        if not isinstance(p, Ptr):
            out.append((s1, None))
            continue
        s2 = e.on_free(s1, p, kind)
        if s2 is None:
            continue
        s2 = s2.copy()
        os = e.os(s2, p.obj)
        s2.mem[p.obj] = OS(os.log, False)
        out.append((s2, None))
    return out


@model(r'__cxa_guard_acquire$')
def m_guard(e, s, a, i, fn):
    out = []
    for s1, p in e.deref_ptr(s, a[0]):
        v = s1.ghost.get(('guard', p.obj))
        if v is None and e.guards_fresh:
            v = 0
        if v is None:
            s2 = s1.copy()
            s2.ghost[('guard', p.obj)] = 2
            out.append((s2, ZERO))
            v = 0
        if v == 2:
            out.append((s1, ZERO))
        else:
            s2 = s1.copy()
            s2.ghost[('guard', p.obj)] = 1
            out.append((s2, ONE))
    return out


@model(r'__cxa_guard_release$')
def m_guardr(e, s, a, i, fn):
    out = []
    for s1, p in e.deref_ptr(s, a[0]):
        s2 = s1.copy()
        s2.ghost[('guard', p.obj)] = 2
        out.append((s2, None))
    return out


@model(r'__cxa_atexit$', r'atexit$')
def m_atexit(e, s, a, i, fn):
    return ret(e.on_atexit(s, a), ZERO)


# ------------------------------------------------------------------ memory / C strings
def bytes_cmp(e, s, p, q, n):
    """memcmp of two regions: list of (state, sign Lin in -1..1)"""
    n = s.norm(n)
    if s.eq(n):
        return [(s, ZERO)]
    out = []
    for s1, a in e.region_keys(s, p.obj, p.off, n):
        for s2, b in e.region_keys(s1, q.obj, q.off, n):
            out += bytes_cmp1(e, s2, p, q, n, e.canon(s2, a), b)
    return out


def differ_at(e, s, p, q, n, a, b):
    """(state, byte of p, byte of q) where the regions first differ, if it is known that they do"""
    d = first_diff(e, s, a, b)
    if d is None:
        return None
    s1 = s.assume_ge(n - 1 - d)
    if s1 is None or not s1.ge(d) or not s.ge(n - 1 - d):
        return None
    x = e.load(s1, Ptr(p.obj, s1.norm(p.off + d)), 1, 'i8')
    if len(x) != 1:
        return None
    s1, x = x[0]
    y = e.load(s1, Ptr(q.obj, s1.norm(q.off + d)), 1, 'i8')
    if len(y) != 1 or not isinstance(x, Lin) or not isinstance(y[0][1], Lin):
        return None
    s1, y = y[0]
    out = []
    for s2, xx in e.nu(s1, x, 8):
        for s3, yy in e.nu(s2, y, 8):
            if not s3.cons.ne0(xx - yy):
                return None
            out.append((s3, xx, yy))
    return out


def bytes_cmp1(e, s, p, q, n, a, b):
    if a is not None and a == b:
        return [(s, ZERO)]
    if a is not None and b is not None:
        t = differ_at(e, s, p, q, n, a, b)
        if t is not None:
            return [(s4, ONE if r else C(-1)) for s3, xx, yy in t for s4, r in e.split(s3, xx - yy - 1, 'ge')]
    if n.is_const() and n.c <= 64 and a is not None and b is not None:
        x, y = e.const_bytes(s, p, n.c), e.const_bytes(s, q, n.c)
        if x is not None and y is not None:
            return [(s, C((x > y) - (x < y)))]
    if a is None or b is None:
        s = s.copy()
        s.imprecise('memcmp of undetermined contents')
    k = ('memcmp', a, b)
    known = s.ghost.get(k)
    rk = ('memcmp', b, a)
    sign = 1
    if known is None and rk in s.ghost:
        known, sign = s.ghost[rk], -1
    if known is not None:
        return [(s, C(known * sign))]
    out = []
    for r in (-1, 0, 1):
        t = s.copy()
        t.ghost[k] = r
        t = e.on_memcmp(t, p, q, n, r)
        if t is not None:
            out.append((t, C(r)))
    return out


def piece_byte(e, s, x, r):
    """value (0..255) of byte r of a region piece, if it has a determined description"""
    v = None
    if x[2] == 'c':
        t = e.init_load(s, x[3], s.norm(x[4] + r), 1, 'i8')
        if len(t) == 1 and isinstance(t[0][1], Lin):
            v = t[0][1]
    elif x[2] in ('v', 's') and isinstance(x[3], Lin) and (x[2] == 's' or s.norm(x[1]) == ONE):
        v = x[3]
    if v is None:
        return None
    n = e.nu(s, v, 8)
    return n[0][1] if len(n) == 1 else None


def first_diff(e, s, a, b):
    """offset up to which two region descriptions certainly agree"""
    i = j = 0
    pos = ZERO
    ra = rb = ZERO       # consumed inside current pieces
    steps = 0
    while i < len(a) and j < len(b):
        x, y = a[i], b[j]
        la, lb = s.norm(x[1] - ra), s.norm(y[1] - rb)
        same = x[2] == y[2]
        if same and x[2] == 'c':
            same = x[3] is y[3] and s.eq(x[4] + ra - y[4] - rb)
        elif same:
            same = ra == ZERO and rb == ZERO and x[3] == y[3] and s.eq(x[1] - y[1])
        if not same:
            # described differently: still equal if the next byte has one value in both
            u, v = piece_byte(e, s, x, ra), piece_byte(e, s, y, rb)
            if u is None or v is None or not s.eq(u - v) or not s.ge(la - 1) or not s.ge(lb - 1):
                return pos
            la0, lb0 = la, lb
            pos = s.norm(pos + 1)
            if s.eq(la0 - 1):
                i, ra = i + 1, ZERO
            else:
                ra = s.norm(ra + 1)
            if s.eq(lb0 - 1):
                j, rb = j + 1, ZERO
            else:
                rb = s.norm(rb + 1)
            if i < len(a) and j < len(b) and (not s.ge(a[i][1] - ra - 1) or not s.ge(b[j][1] - rb - 1)):
                return pos
            steps += 1
            if steps > 64:
                return pos
            continue
        if s.eq(la - lb):
            pos = s.norm(pos + la)
            i += 1
            j += 1
            ra = rb = ZERO
        elif s.ge(lb - la):
            pos = s.norm(pos + la)
            i += 1
            ra, rb = ZERO, s.norm(rb + la)
        elif s.ge(la - lb):
            pos = s.norm(pos + lb)
            j += 1
            rb, ra = ZERO, s.norm(ra + lb)
        else:
            return None
    return pos


@model(r'memcmp$', r'bcmp$', r'std::char_traits<char>::compare\(')
def m_memcmp(e, s, a, i, fn):
    out = []
    for s1, n in e.nu(s, a[2], 64):
        z = s1.assume_eq(n) if not s1.cons.ne0(n) else None
        if z is not None:
            out.append((z, ZERO))
        s1 = s1.assume_ge(n - 1)
        if s1 is None:
            continue
        for s2, p in e.deref_ptr(s1, a[0]):
            for s3, q in e.deref_ptr(s2, a[1]):
                s4 = e.on_access(s3, p, n, 'load')
                s4 = s4 and e.on_access(s4, q, n, 'load')
                if s4 is None:
                    continue
                for s5, r in bytes_cmp(e, s4, p, q, n):
                    # any value of that sign
                    if r.c == 0:
                        out.append((s5, ZERO))
                    else:
                        v = fresh(1, 255, 'cmp') if r.c > 0 else fresh(-255, -1, 'cmp')
                        out.append((s5, L(v)))
    return out


def c_strlen(e, s, p):
    """list of (state, Lin) length of the C string at p"""
    o, off = p.obj, s.norm(p.off)
    if o.kind == 'global' and o.const and off.is_const():
        k = off.c
        n = 0
        while n < 4096:
            v = e.init_load(s, o, C(k + n), 1, 'i8')[0][1]
            if not isinstance(v, Lin) or not v.is_const():
                break
            if v.c % 256 == 0:
                return [(s, C(n))]
            n += 1
    sl = s.ghost.get(('nul', o))
    if sl is None:
        sl = getattr(o, 'nul', None)
    if sl is not None:
        return [(s, s.norm(sl - off))]
    v = ksym(('cstrlen', o, off), 0, 1 << 40, 'strlen(%r)' % p)
    return [(s, L(v))]


@model(r'strlen$', r'std::char_traits<char>::length\(')
def m_strlen(e, s, a, i, fn):
    out = []
    for s1, p in e.deref_ptr(s, a[0]):
        s1 = e.on_access(s1, p, 1, 'load')
        if s1 is None:
            continue
        for s2, n in c_strlen(e, s1, p):
            s2 = e.on_access(s2, p, n + 1, 'load')
            if s2 is not None:
                out.append((s2, n))
    return out


@model(r'(strcpy|stpcpy)$', r'__(strcpy|stpcpy)_chk$')
def m_strcpy(e, s, a, i, fn):
    out = []
    for s1, q in e.deref_ptr(s, a[1]):
        for s2, n in c_strlen(e, s1, q):
            for s3, d in e.deref_ptr(s2, a[0]):
                for s4, v in m_memcpy(e, s3, [d, q, n + 1], i, fn):
                    out.append((s4, Ptr(d.obj, d.off + n) if 'stp' in fn.dem else a[0]))
    return out


@model(r'strnlen$')
def m_strnlen(e, s, a, i, fn):
    out = []
    for s1, m in e.nu(s, a[1], 64):
        for s2, p in e.deref_ptr(s1, a[0]):
            n = L(fresh(0, 1 << 40, 'strnlen'))
            s3 = s2.assume_ge(m - n)
            s3 = s3 and e.on_access(s3, p, n, 'load')
            if s3 is not None:
                out.append((s3, n))
    return out


@model(r'(strcmp|strncmp|strcasecmp)$')
def m_strcmp(e, s, a, i, fn):
    if fn.dem != 'strcmp':
        return ret(s, L(fresh(-1, 1)))
    out = []
    for s1, p in e.deref_ptr(s, a[0]):
        for s2, q in e.deref_ptr(s1, a[1]):
            for s3, n in c_strlen(e, s2, p):
                for s4, m in c_strlen(e, s3, q):
                    for s5, r in cmp_strs(e, s4, p, n, q, m):
                        out.append((s5, r))
    return out


def cmp_strs(e, s, p, n, q, m):
    """three-way comparison of byte strings (p,n) and (q,m): (state, Lin sign)"""
    out = []
    for s1, eq in e.split(s, n - m, 'eq'):
        if eq:
            for s2, r in (bytes_cmp(e, s1, p, q, n)):
                out.append((s2, r))
        else:
            for s2, lt in e.split(s1, m - n - 1, 'ge'):
                k = n if lt else m
                for s3, r in bytes_cmp(e, s2, p, q, k):
                    out.append((s3, C(-1 if lt else 1) if r.c == 0 else r))
    return out


# ------------------------------------------------------------------ formatted output
def fmt_parse(f):
    out = []
    i = 0
    while i < len(f):
        c = f[i]
        if c != '%':
            out.append(('lit', c))
            i += 1
            continue
        m = re.match(r'%([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|z|j|t|L)?([a-zA-Z%])', f[i:])
        if not m:
            return None
        if m.group(5) == '%':
            out.append(('lit', '%'))
        else:
            out.append(('conv', m.group(1), m.group(2), m.group(3), m.group(4) or '', m.group(5)))
        i += m.end()
    return out


def digits_of(e, s, v, w, base, sgn):
    """list of (state, number of characters) of the conversion of integer v"""
    out = []
    for s1, x in e.normw(s, v, w, sgn):
        parts = [(s1, x, 0)]
        if sgn:
            parts = []
            for s2, pos in e.split(s1, x, 'ge'):
                parts.append((s2, x if pos else -x, 0 if pos else 1))
        for s2, y, neg in parts:
            y = s2.norm(y)
            if y.is_const():
                n = len(str(y.c)) if base == 10 else len('%x' % y.c) if base == 16 else len('%o' % y.c)
                out.append((s2, C(n + neg)))
                continue
            lo, hi = s2.cons.bounds(y)
            hi = (1 << w) - 1 if hi is None else hi
            lo = 0 if lo is None else lo
            f = (lambda z: len(str(z))) if base == 10 else (lambda z: len('%x' % z)) if base == 16 else (lambda z: len('%o' % z))
            v_ = ksym(('digits', y, base), f(max(lo, 0)), f(max(hi, 0)))
            out.append((s2, L(v_) + neg))
    return out


def fmt_length(e, s, fmt, vals):
    """list of (state, Lin total length) of printf(fmt, vals)"""
    items = fmt_parse(fmt)
    if items is None:
        return None
    cur = [(s, ZERO, 0)]
    for it in items:
        nxt = []
        for s1, tot, k in cur:
            if it[0] == 'lit':
                nxt.append((s1, tot + 1, k))
                continue
            _, flags, wid, prec, lm, cv = it
            if wid == '*' or prec == '*' or k >= len(vals):
                nxt.append((s1, tot + L(fresh(0, 1 << 30)), k + 1))
                continue
            v = vals[k]
            if cv in 'diuxXoc':
                w = {'': 32, 'l': 64, 'll': 64, 'z': 64, 'j': 64, 't': 64, 'h': 16, 'hh': 8}[lm]
                if cv == 'c':
                    rs = [(s1, ONE)]
                elif not isinstance(v, Lin):
                    rs = [(s1, L(fresh(1, 22)))]
                else:
                    # varargs are promoted: reduce to the conversion's width
                    base = 16 if cv in 'xX' else 8 if cv == 'o' else 10
                    if wid is not None and prec is None and base == 10:
                        lo, hi = s1.cons.bounds(s1.norm(v))
                        if lo is not None and hi is not None and -(1 << (w - 1)) <= lo and hi < 1 << (w - 1) and max(len(str(lo)), len(str(hi))) <= int(wid) and (cv in 'di' or lo >= 0):
                            nxt.append((s1, tot + int(wid), k + 1))
                            continue
                    rs = digits_of(e, s1, v, w, base, cv in 'di')
                if prec is not None:
                    rs = [(x, n) if x.ge(n - int(prec)) else (x, C(int(prec)) if x.ge(C(int(prec)) - n) else L(fresh(int(prec), 40))) for x, n in rs]
            elif cv == 's':
                rs = []
                for s2, p in e.deref_ptr(s1, v):
                    rs += c_strlen(e, s2, p)
            else:
                rs = [(s1, L(fresh(1, 64)))]
            for s2, n in rs:
                if wid is not None:
                    wd = int(wid)
                    for s3, ge in e.split(s2, n - wd, 'ge'):
                        nxt.append((s3, tot + (n if ge else C(wd)), k + 1))
                else:
                    nxt.append((s2, tot + n, k + 1))
        cur = nxt
    return [(a, b) for a, b, _ in cur]


def fmt_exact(e, s, fmt, vals):
    """the text itself, when every argument is a known integer"""
    items = fmt_parse(fmt)
    if items is None:
        return None
    out, k = '', 0
    for it in items:
        if it[0] == 'lit':
            out += it[1]
            continue
        _, flags, wid, prec, lm, cv = it
        if wid == '*' or prec == '*' or k >= len(vals) or cv not in 'diuxXc' or not isinstance(vals[k], Lin):
            return None
        v = s.norm(vals[k])
        if not v.is_const():
            return None
        w = {'': 32, 'l': 64, 'll': 64, 'z': 64, 'j': 64, 't': 64, 'h': 16, 'hh': 8}[lm]
        c = v.c % (1 << (8 if cv == 'c' else w))
        if cv in 'di' and c >> (w - 1):
            c -= 1 << w
        if cv == 'c':
            t = chr(c)
            t = t.rjust(int(wid or 0)) if '-' not in flags else t.ljust(int(wid or 0))
        else:
            t = '%' + flags + (wid or '') + ('.' + prec if prec is not None else '') + ('d' if cv in 'diu' else cv)
            t = t % c
        out += t
        k += 1
    return out


def do_snprintf(e, s, buf, size, fmtp, vals, i):
    fmt = e.text_of(s, fmtp)
    out = []
    ex = fmt_exact(e, s, fmt, vals) if fmt is not None else None
    if ex is not None:
        return store_formatted(e, s, buf, size, C(len(ex)), ('text', ex))
    rs = fmt_length(e, s, fmt, vals) if fmt is not None else None
    if rs is None:
        rs = [(s, L(fresh(0, (1 << 31) - 1, 'fmtlen')))]
    for s1, n in rs:
        # at most INT_MAX
        out += store_formatted(e, s1, buf, size, n, ('fmt', re.sub('%(ll|z|j|t)', '%l', fmt), tuple(vals)) if fmt is not None else ('fmtu', e.nextuid()))
    return out


def store_formatted(e, s, buf, size, n, what):
    """write min(n, size-1) characters and a NUL; returns (state, n)"""
    out = []
    for s1, size in e.nu(s, size, 64):
        for s2, some in e.split(s1, size - 1, 'ge'):
            if not some:
                out.append((s2, n))
                continue
            for s3, p in e.deref_ptr(s2, buf):
                for s4, fits in e.split(s3, size - 1 - n, 'ge'):
                    w = n if fits else size - 1
                    s5 = e.on_access(s4, p, s4.norm(w + 1), 'store')
                    if s5 is None:
                        continue
                    s5 = e.put_text(s5, p, w, what, n)
                    s5 = e.write(s5, p.obj, ('v', p.off + w, ONE, ZERO))
                    s5.ghost[('nul', p.obj)] = s5.norm(p.off + w)
                    s5 = e.on_formatted(s5, p, size, n, what)
                    if s5 is not None:
                        out.append((s5, n))
    return out


@model(r'snprintf$', r'__snprintf_chk$')
def m_snprintf(e, s, a, i, fn):
    return do_snprintf(e, s, a[0], a[1], a[2], a[3:], i)


@model(r'sprintf$')
def m_sprintf(e, s, a, i, fn):
    return do_snprintf(e, s, a[0], C(1 << 40), a[1], a[2:], i)


@model(r'vsnprintf$')
def m_vsnprintf(e, s, a, i, fn):
    return e.on_vsnprintf(s, a, i)


@model(r'(f?printf|fputs|puts|perror|putchar|fputc)$')
def m_printf(e, s, a, i, fn):
    return ret(s, L(fresh(0, 100)))


# ------------------------------------------------------------------ std::string
def newdata(e, s, ln=None):
    o = Obj('heap', None, 'chars', site='chars', align=1)
    o.chars = True
    s = s.copy()
    s.mem[o] = EMPTY
    return s, o


STRMAX = C(1 << 31)


def getstr(e, s, p):
    """list of (state, Ptr of the string object, Str)"""
    out = []
    for s1, q in e.deref_ptr(s, p):
        s1 = e.on_touch(s1, q, 32, 'load')
        for s2, v in e.load(s1, q, 32, 'string'):
            if not isinstance(v, Str):
                s2 = s2.copy()
                s2.imprecise('use of an unmodelled string value')
                d = Obj('lazy', None, 'unkstr')
                v = Str(d, L(fresh(0, 1 << 40)))
            if not s2.norm(v.len).is_const():
                # assumption: no string of more than 2 GiB exists
                if not s2.ge(v.len):
                    s2 = s2.assume_ge(v.len)
                if s2 is not None and not s2.ge(STRMAX - v.len):
                    s2 = s2.assume_ge(STRMAX - v.len)
                if s2 is None:
                    continue
            out.append((s2, q, v))
    return out


def putstr(e, s, q, v):
    return e.store(e.on_touch(s, q, 32, 'store'), q, v, 32)


def mkstr(e, s, parts):
    """new string from parts [(obj, off, len) | byte Lin | Tok text]; returns (state, Str)"""
    s, o = newdata(e, s)
    n = ZERO
    for p in parts:
        if isinstance(p, tuple):
            src, off, ln = p
            s = e.copy_bytes(s, Ptr(o, n), Ptr(src, off), ln)
            n = s.norm(n + ln)
        else:
            s = e.write(s, o, ('v', n, ONE, p))
            n = n + 1
    return s, Str(o, n)


def append_region(e, s, v, src, off, ln):
    s = e.copy_bytes(s, Ptr(v.data, v.len), Ptr(src, off), ln)
    return s, Str(v.data, s.norm(v.len + ln))


def clone(e, s, v):
    return mkstr(e, s, [(v.data, ZERO, v.len)])


def rd(e, s, p, n):
    return e.on_access(s, p, n, 'load')


S_ = r'(?:string|std::basic_string<char.*?>)::'


@model(r'string::basic_string(?:<[^()]*>)?\(\)$', r'string::basic_string\(std::allocator')
def m_str_ctor0(e, s, a, i, fn):
    out = []
    for s1, q in e.deref_ptr(s, a[0]):
        s2, v = mkstr(e, s1, [])
        out.append((putstr(e, s2, q, v), None))
    return out


@model(r'string::basic_string(?:<[^()]*>)?\(char const\*, std::allocator')
def m_str_ctor_c(e, s, a, i, fn):
    out = []
    for s1, q in e.deref_ptr(s, a[0]):
        for s2, p in e.deref_ptr(s1, a[1]):
            for s3, n in c_strlen(e, s2, p):
                s3 = rd(e, s3, p, n + 1)
                if s3 is None:
                    continue
                s4, v = mkstr(e, s3, [(p.obj, p.off, n)])
                out.append((putstr(e, s4, q, v), None))
    return out


@model(r'string::basic_string(?:<[^()]*>)?\(char const\*, unsigned long, std::allocator')
def m_str_ctor_cn(e, s, a, i, fn):
    out = []
    for s1, q in e.deref_ptr(s, a[0]):
        for s2, n in e.nu(s1, a[2], 64):
            z = s2.assume_eq(n) if not s2.cons.ne0(n) else None
            if z is not None:
                z, v = mkstr(e, z, [])
                out.append((putstr(e, z, q, v), None))
            s2 = s2.assume_ge(n - 1)
            if s2 is None:
                continue
            for s3, p in e.deref_ptr(s2, a[1]):
                s3 = rd(e, s3, p, n)
                if s3 is None:
                    continue
                s4, v = mkstr(e, s3, [(p.obj, p.off, n)])
                out.append((putstr(e, s4, q, v), None))
    return out


@model(r'string::basic_string<char(?: const)?\*.*>\(char(?: const)?\*, char(?: const)?\*, std::allocator',
       r'string::basic_string<__gnu_cxx::__normal_iterator<char.*>\(')
def m_str_ctor_range(e, s, a, i, fn):
    out = []
    for s1, q in e.deref_ptr(s, a[0]):
        for s2, p in e.deref_ptr(s1, a[1]):
            for s3, r in e.deref_ptr(s2, a[2]):
                if r.obj is not p.obj:
                    continue
                n = r.off - p.off
                s3 = s3.assume_ge(n)
                if s3 is None:
                    continue
                s3 = rd(e, s3, p, n)
                if s3 is None:
                    continue
                s4, v = mkstr(e, s3, [(p.obj, p.off, n)])
                out.append((putstr(e, s4, q, v), None))
    return out


@model(r'string::basic_string(?:<[^()]*>)?\(unsigned long, char, std::allocator')
def m_str_ctor_nc(e, s, a, i, fn):
    out = []
    for s1, q in e.deref_ptr(s, a[0]):
        for s2, n in e.nu(s1, a[1], 64):
            s3, o = newdata(e, s2)
            s3 = e.write(s3, o, ('s', ZERO, n, a[2]))
            out.append((putstr(e, s3, q, Str(o, n)), None))
    return out


@model(r'string::basic_string\(string const&\)$')
def m_str_copy(e, s, a, i, fn):
    out = []
    for s1, q in e.deref_ptr(s, a[0]):
        for s2, _, v in getstr(e, s1, a[1]):
            s3, c = clone(e, s2, v)
            out.append((putstr(e, s3, q, c), None))
    return out


@model(r'string::basic_string\(string&&\)$')
def m_str_move(e, s, a, i, fn):
    out = []
    for s1, q in e.deref_ptr(s, a[0]):
        for s2, r, v in getstr(e, s1, a[1]):
            s3, z = mkstr(e, s2, [])
            s3 = putstr(e, s3, q, v)
            out.append((putstr(e, s3, r, z), None))
    return out


@model(r'string::basic_string\(string const&, unsigned long(, unsigned long)?')
def m_str_sub_ctor(e, s, a, i, fn):
    out = []
    for s1, q in e.deref_ptr(s, a[0]):
        for s2, _, v in getstr(e, s1, a[1]):
            for s3, x in substr(e, s2, v, a[2], a[3] if len(a) > 3 and ', unsigned long, unsigned long' in fn.dem else C(-1)):
                out.append((putstr(e, s3, q, x), None))
    return out


def substr(e, s, v, pos, n):
    out = []
    for s1, pos in e.nu(s, pos, 64):
        s1 = s1.assume_ge(v.len - pos)   # otherwise throws / aborts
        if s1 is None:
            e.on_abort(s, None)
            continue
        for s2, n2 in e.nu(s1, n, 64):
            for s3, ge in e.split(s2, n2 - (v.len - pos), 'ge'):
                k = v.len - pos if ge else n2
                s4, x = mkstr(e, s3, [(v.data, pos, s3.norm(k))])
                out.append((s4, x))
    return out


@model(r'string::substr\(')
def m_str_substr(e, s, a, i, fn):
    out = []
    for s1, q in e.deref_ptr(s, a[0]):
        for s2, _, v in getstr(e, s1, a[1]):
            for s3, x in substr(e, s2, v, a[2], a[3]):
                out.append((putstr(e, s3, q, x), None))
    return out


@model(r'string::~basic_string\(\)')
def m_str_dtor(e, s, a, i, fn):
    out = []
    for s1, q, v in getstr(e, s, a[0]):
        s1 = s1.copy()
        if getattr(v.data, 'chars', False) and v.data in s1.mem:
            s1.mem[v.data] = OS(s1.mem[v.data].log, False)
        out.append((s1, None))
    return out


@model(r'string::(c_str|data|begin|cbegin)\(\)', r'string::_M_data\(\)')
def m_str_data(e, s, a, i, fn):
    out = []
    for s1, q, v in getstr(e, s, a[0]):
        s1 = s1.copy()
        s1.ghost[('nul', v.data)] = v.len
        out.append((s1, Ptr(v.data)))
    return out


@model(r'string::(end|cend)\(\)')
def m_str_end(e, s, a, i, fn):
    return [(s1, Ptr(v.data, v.len)) for s1, q, v in getstr(e, s, a[0])]


@model(r'string::(size|length|capacity)\(\)')
def m_str_size(e, s, a, i, fn):
    return [(s1, v.len) for s1, q, v in getstr(e, s, a[0])]


@model(r'string::empty\(\)')
def m_str_empty(e, s, a, i, fn):
    out = []
    for s1, q, v in getstr(e, s, a[0]):
        for s2, z in e.split(s1, v.len, 'eq'):
            out.append((s2, ONE if z else ZERO))
    return out


@model(r'string::(operator\[\]|at)\(')
def m_str_idx(e, s, a, i, fn):
    out = []
    for s1, q, v in getstr(e, s, a[0]):
        for s2, n in e.nu(s1, a[1], 64):
            s3 = e.on_str_index(s2, v, n)
            if s3 is not None:
                if s3.eq(n - v.len):
                    s3 = e.write(s3, v.data, ('v', v.len, ONE, ZERO))
                out.append((s3, Ptr(v.data, n)))
    return out


@model(r'string::(front|back)\(\)')
def m_str_front(e, s, a, i, fn):
    return [(s1, Ptr(v.data, v.len - 1 if 'back' in fn.dem else ZERO)) for s1, q, v in getstr(e, s, a[0])]


@model(r'string::(clear)\(\)')
def m_str_clear(e, s, a, i, fn):
    out = []
    for s1, q, v in getstr(e, s, a[0]):
        s2, z = mkstr(e, s1, [])
        out.append((putstr(e, s2, q, z), None))
    return out


@model(r'string::(reserve|shrink_to_fit)\(')
def m_str_reserve(e, s, a, i, fn):
    return ret(s)


@model(r'string::(push_back|operator\+=)\(char\)')
def m_str_push(e, s, a, i, fn):
    out = []
    for s1, q, v in getstr(e, s, a[0]):
        s2 = e.write(s1, v.data, ('v', v.len, ONE, e.byteval(s1, a[1])))
        s2 = putstr(e, s2, q, Str(v.data, s2.norm(v.len + 1)))
        out.append((e.on_str_grow(s2, q, v), a[0]))
    return out


@model(r'string::pop_back\(')
def m_str_pop(e, s, a, i, fn):
    return [(putstr(e, s1, q, Str(v.data, s1.norm(v.len - 1))), None) for s1, q, v in getstr(e, s, a[0])]


@model(r'string::(append|operator\+=|assign|operator=)\(char const\*\)')
def m_str_append_c(e, s, a, i, fn):
    keep = '::append' in fn.dem or '+=' in fn.dem
    out = []
    for s1, p in e.deref_ptr(s, a[1]):
        for s2, n in c_strlen(e, s1, p):
            s2 = rd(e, s2, p, n + 1)
            if s2 is None:
                continue
            out += app(e, s2, a[0], p, n, keep)
    return out


def app(e, s, dst, p, n, keep):
    out = []
    for s1, q, v in getstr(e, s, dst):
        if keep:
            s2, w = append_region(e, s1, v, p.obj, p.off, n)
        else:
            s2, w = mkstr(e, s1, [(p.obj, p.off, n)])
        s2 = putstr(e, s2, q, w)
        out.append((e.on_str_grow(s2, q, v), dst))
    return out


@model(r'string::(append|assign)\(char const\*, unsigned long\)')
def m_str_append_cn(e, s, a, i, fn):
    keep = '::append' in fn.dem
    out = []
    for s1, n in e.nu(s, a[2], 64):
        z = s1.assume_eq(n) if not s1.cons.ne0(n) else None
        if z is not None:
            for s2, q, v in getstr(e, z, a[0]):
                if not keep:
                    s2, w = mkstr(e, s2, [])
                    s2 = putstr(e, s2, q, w)
                out.append((s2, a[0]))
        s1 = s1.assume_ge(n - 1)
        if s1 is None:
            continue
        for s2, p in e.deref_ptr(s1, a[1]):
            s2 = rd(e, s2, p, n)
            if s2 is None:
                continue
            out += app(e, s2, a[0], p, n, keep)
    return out


@model(r'string::(append|assign)<char(?: const)?\*.*>\(char(?: const)?\*, char(?: const)?\*\)',
       r'string::(append|assign)<__gnu_cxx.*>\(__gnu_cxx')
def m_str_append_range(e, s, a, i, fn):
    keep = '::append' in fn.dem
    out = []
    for s2, p in e.deref_ptr(s, a[1]):
        for s3, r in e.deref_ptr(s2, a[2]):
            if r.obj is not p.obj:
                continue
            n = s3.norm(r.off - p.off)
            s3 = s3.assume_ge(n)
            if s3 is None:
                continue
            s3 = rd(e, s3, p, n)
            if s3 is None:
                continue
            out += app(e, s3, a[0], p, n, keep)
    return out


@model(r'string::(append|operator\+=|assign|operator=)\(string const&\)', r'string::(append|assign)\(string const&, unsigned long')
def m_str_append_s(e, s, a, i, fn):
    keep = '::append' in fn.dem or '+=' in fn.dem
    out = []
    for s1, q0, v in getstr(e, s, a[1]):
        if ', unsigned long' in fn.dem:
            for s2, x in substr(e, s1, v, a[2], a[3]):
                out += app(e, s2, a[0], Ptr(x.data), x.len, keep)
            continue
        d = e.res(s1, a[0])
        if not keep and isinstance(d, Ptr) and d == q0:
            out.append((s1, a[0]))
            continue
        out += app(e, s1, a[0], Ptr(v.data), v.len, keep)
    return out


@model(r'string::(operator=|assign)\(string&&\)')
def m_str_massign(e, s, a, i, fn):
    out = []
    for s1, r, v in getstr(e, s, a[1]):
        for s2, q in e.deref_ptr(s1, a[0]):
            if q == r:
                out.append((s2, a[0]))
                continue
            s3, z = mkstr(e, s2, [])
            s3 = putstr(e, s3, q, v)
            out.append((putstr(e, s3, r, z), a[0]))
    return out


@model(r'string::(append|assign)\(unsigned long, char\)')
def m_str_append_nc(e, s, a, i, fn):
    out = []
    for s1, q, v in getstr(e, s, a[0]):
        for s2, n in e.nu(s1, a[1], 64):
            if '::append' in fn.dem:
                s3 = e.write(s2, v.data, ('s', v.len, n, a[2]))
                out.append((putstr(e, s3, q, Str(v.data, s3.norm(v.len + n))), a[0]))
            else:
                s3, o = newdata(e, s2)
                s3 = e.write(s3, o, ('s', ZERO, n, a[2]))
                out.append((putstr(e, s3, q, Str(o, n)), a[0]))
    return out


@model(r'string::resize\(')
def m_str_resize(e, s, a, i, fn):
    out = []
    for s1, q, v in getstr(e, s, a[0]):
        for s2, n in e.nu(s1, a[1], 64):
            for s3, sh in e.split(s2, v.len - n, 'ge'):
                if not sh:
                    s3 = e.write(s3, v.data, ('s', v.len, n - v.len, a[2] if len(a) > 2 else ZERO))
                out.append((putstr(e, s3, q, Str(v.data, s3.norm(n))), None))
    return out


def scan_char(e, st, o, lo, hi, ch, rev, depth=0):
    """first (last) position of a byte in o[lo, hi): list of (state, position or None)"""
    lo, hi = st.norm(lo), st.norm(hi)
    ch = e.byteval(st, ch)
    if not isinstance(ch, Lin) or not ch.is_const():
        st = st.copy()
        st.imprecise('search for an unknown byte')
        t = st.assume_ge(hi - lo - 1)
        r = L(fresh(0, 1 << 62, 'found'))
        t = t and t.assume_ge(r - lo)
        t = t and t.assume_ge(hi - 1 - r)
        return [(st, None)] + ([(t, r)] if t is not None else [])
    out = []
    for s0, some in e.split(st, hi - lo - 1, 'ge'):
        if not some:
            out.append((s0, None))
            continue
        for s1, ps in e.regions(s0, o, lo, hi - lo):
            ps = e.canon(s1, ps)
            if ps is None:
                s1 = s1.copy()
                s1.imprecise('search in unknown bytes')
                r = L(fresh(0, 1 << 62, 'found'))
                t = s1.assume_ge(r - lo)
                t = t and t.assume_ge(hi - 1 - r)
                out += [(s1, None)] + ([(t, r)] if t is not None else [])
                continue
            cur = [s1]
            for q in (reversed(ps) if rev else ps):
                nxt = []
                for s in cur:
                    for s2, r in piece_char(e, s, q, ch, rev):
                        if r is None:
                            nxt.append(s2)
                        else:
                            out.append((s2, s2.norm(lo + q[0] + r)))
                cur = nxt
            out += [(s, None) for s in cur]
    return out


def piece_char(e, s, q, ch, rev):
    """position of ch in one piece, relative to the piece"""
    off, ln, kind, a, b = q
    if kind in ('v', 's') and isinstance(a, Lin) and (kind == 's' or s.norm(ln) == ONE):
        out = []
        for s1, u in e.nu(s, a, 8):
            t = s1.assume_eq(u - ch.c % 256)
            if t is not None:
                out.append((t, ZERO if not rev else t.norm(ln - 1)))
            t = s1.assume_ne(u - ch.c % 256)
            if t is not None:
                out.append((t, None))
        return out
    if kind == 'c':
        if ch.c % 256 in getattr(a, 'nochars', ()):
            return [(s, None)]
        src, base = a, s.norm(b)
    else:
        src, base = ('u', a), ZERO
    for k, n in s.ghost.items():
        if isinstance(k, tuple) and k[0] == 'nochar' and k[1] is src and k[3] == ch.c % 256:
            if s.ge(base - k[2]) and s.ge(k[2] + n - base - ln):
                return [(s, None)]
    r = ksym(('rfind' if rev else 'find', src, base, s.norm(ln), ch.c % 256), 0, 1 << 62, 'index of char')
    out = []
    t = s.copy()
    t.ghost[('nochar', src, base, ch.c % 256)] = s.norm(ln)
    out.append((t, None))
    t = s.assume_ge(ln - 1 - L(r))
    if t is not None:
        t = t.copy()
        if rev:
            t.ghost[('nochar', src, t.norm(base + L(r) + 1), ch.c % 256)] = t.norm(ln - L(r) - 1)
        else:
            t.ghost[('nochar', src, base, ch.c % 256)] = L(r)
        if kind == 'c':
            t.ghost[('char', src, t.norm(base + L(r)))] = C(ch.c % 256)
        out.append((t, L(r)))
    return out


@model(r'string::(find|rfind|find_first_of|find_last_of|find_first_not_of|find_last_not_of)\(')
def m_str_find(e, s, a, i, fn):
    rev = 'rfind' in fn.dem or 'find_last' in fn.dem
    chars = '(char,' in fn.dem
    out = []
    for s1, q, v in getstr(e, s, a[0]):
        ch = a[1] if chars else None
        if not chars and '(char const*, unsigned long)' in fn.dem:
            tx = e.text_of(s1, a[1])
            if tx is not None and len(tx) == 1:
                ch = C(ord(tx))
        if ch is None or '_not_of' in fn.dem:
            s2 = s1.copy()
            s2.imprecise('string search')
            out.append((s2, C(-1)))
            r = fresh(0, 1 << 40, 'found')
            s3 = s2.assume_ge(v.len - L(r))
            if s3 is not None:
                out.append((s3, L(r)))
            continue
        for s2, pos in e.nu(s1, a[2], 64):
            if rev:
                for s3, all_ in e.split(s2, pos + 1 - v.len, 'ge'):
                    for s4, r in scan_char(e, s3, v.data, ZERO, v.len if all_ else s3.norm(pos + 1), ch, True):
                        out.append((s4, C(-1) if r is None else r))
            else:
                for s3, inside in e.split(s2, v.len - pos, 'ge'):
                    if not inside:
                        out.append((s3, C(-1)))
                        continue
                    for s4, r in scan_char(e, s3, v.data, pos, v.len, ch, False):
                        out.append((s4, C(-1) if r is None else r))
    return out


@model(r'str(r?)chr$', r'mem(r?)chr$')
def m_strchr(e, s, a, i, fn):
    nm = fn.dem.split('(')[0]
    rev = 'r' in nm[3:-3]
    out = []
    for s1, p in e.deref_ptr(s, a[0]):
        if nm.startswith('str'):
            ns = c_strlen(e, s1, p)
        else:
            ns = e.nu(s1, a[2], 64)
        for s2, n in ns:
            s2 = e.on_access(s2, p, n, 'load')
            if s2 is None:
                continue
            for s3, r in scan_char(e, s2, p.obj, p.off, s2.norm(p.off + n), a[1], rev):
                out.append((s3, ZERO if r is None else Ptr(p.obj, r)))
    return out


def strops(e, s, x, dem, which):
    """operand as (state, Ptr data, len)"""
    out = []
    if which == 'string':
        for s1, q, v in getstr(e, s, x):
            out.append((s1, Ptr(v.data), v.len))
    else:
        for s1, p in e.deref_ptr(s, x):
            for s2, n in c_strlen(e, s1, p):
                out.append((s2, p, n))
    return out


@model(r'bool std::operator(==|!=|<|>|<=|>=)<char.*>\((string const&|char const\*), (string const&|char const\*)\)',
       r'string::compare\((string const&|char const\*)\)')
def m_str_cmp(e, s, a, i, fn):
    m = re.search(r'operator(==|!=|<=|>=|<|>)<char.*>\((string const&|char const\*), (string const&|char const\*)\)', fn.dem)
    if m:
        op, t1, t2 = m.groups()
    else:
        op, t1, t2 = 'cmp', 'string', fn.dem
    out = []
    for s1, p, n in strops(e, s, a[0], '', 'string' if t1.startswith('string') else 'c'):
        for s2, q, k in strops(e, s1, a[1], '', 'string' if 'string const&' in t2 else 'c'):
            if op in ('==', '!='):
                for s3, eq in e.split(s2, n - k, 'eq'):
                    if not eq:
                        out.append((s3, ZERO if op == '==' else ONE))
                        continue
                    for s4, r in bytes_cmp_eq(e, s3, p, q, n):
                        out.append((s4, ONE if (r == (op == '==')) else ZERO))
                continue
            for s3, r in cmp_strs(e, s2, p, n, q, k):
                if op == 'cmp':
                    out.append((s3, r))
                else:
                    b = {'<': r.c < 0, '>': r.c > 0, '<=': r.c <= 0, '>=': r.c >= 0}[op]
                    out.append((s3, ONE if b else ZERO))
    return out


def bytes_cmp_eq(e, s, p, q, n):
    """equality of two byte regions of one length: (state, bool)"""
    n = s.norm(n)
    if s.eq(n):
        return [(s, True)]
    out = []
    for s1, a in e.region_keys(s, p.obj, p.off, n):
        for s2, b in e.region_keys(s1, q.obj, q.off, n):
            out += bytes_eq1(e, s2, p, q, n, e.canon(s2, a), b)
    return out


def bytes_eq1(e, s, p, q, n, a, b):
    if a is not None and a == b:
        return [(s, True)]
    if n.is_const() and n.c <= 64:
        x, y = e.const_bytes(s, p, n.c), e.const_bytes(s, q, n.c)
        if x is not None and y is not None:
            return [(s, x == y)]
    if a is None or b is None:
        s = s.copy()
        s.imprecise('comparison of undetermined contents')
        return [(s, True), (s.copy(), False)]
    if differ_at(e, s, p, q, n, a, b):
        return [(s, False)]
    d = first_diff(e, s, a, b)
    if d is not None and s.eq(d - n):
        return [(s, True)]
    for k, sw in ((('memcmp', a, b), 0), (('memcmp', b, a), 1)):
        if k in s.ghost:
            return [(s, s.ghost[k] == 0)]
    k = ('streq',) + tuple(sorted((a, b), key=repr))
    if k in s.ghost:
        return [(s, s.ghost[k])]
    out = []
    for r in (True, False):
        t = s.copy()
        t.ghost[k] = r
        t = e.on_streq(t, p, q, n, r)
        if t is not None:
            out.append((t, r))
    return out


@model(r'string std::operator\+<char')
def m_str_plus(e, s, a, i, fn):
    m = re.search(r'\((string const&|string&&|char const\*|char), (string const&|string&&|char const\*|char)\)', fn.dem)
    if not m:
        return None
    out = []

    def part(s, t, x):
        if t == 'char':
            return [(s, e.byteval(s, x))]
        return [(s1, (p.obj, p.off, n)) for s1, p, n in strops(e, s, x, '', 'string' if t.startswith('string') else 'c')]
    for s0, q in e.deref_ptr(s, a[0]):
        for s1, x in part(s0, m.group(1), a[1]):
            for s2, y in part(s1, m.group(2), a[2]):
                s3, v = mkstr(e, s2, [x, y])
                out.append((putstr(e, s3, q, v), None))
    return out


@model(r'std::to_string\(')
def m_tostring(e, s, a, i, fn):
    out = []
    ty = re.search(r'\((.*)\)', fn.dem).group(1)
    w = 64 if 'long' in ty else 32
    for s0, q in e.deref_ptr(s, a[0]):
        f = '%' + ('l' if w == 64 else '') + ('u' if 'unsigned' in ty else 'd')
        ex = fmt_exact(e, s0, f, [a[1]])
        for s1, n in digits_of(e, s0, a[1], w, 10, 'unsigned' not in ty):
            s2, o = newdata(e, s1)
            s2 = e.put_text(s2, Ptr(o), n, ('fmt', f, (a[1],)) if ex is None else ('text', ex), n)
            out.append((putstr(e, s2, q, Str(o, n)), None))
    return out


@model(r'string::(swap)\(', r'void std::swap<char.*>\(string&, string&\)')
def m_str_swap(e, s, a, i, fn):
    out = []
    for s1, q, v in getstr(e, s, a[0]):
        for s2, r, w in getstr(e, s1, a[1]):
            s3 = putstr(e, s2, q, w)
            out.append((putstr(e, s3, r, v), None))
    return out


@model(r'string::(erase|insert|replace)\(')
def m_str_edit(e, s, a, i, fn):
    out = []
    for s1, q, v in getstr(e, s, a[0]):
        s1 = s1.copy()
        s1.imprecise('string edit')
        o = Obj('lazy', None, 'edited')
        out.append((putstr(e, s1, q, Str(o, L(fresh(0, 1 << 40)))), a[0]))
    return out


@model(r'std::(__new_)?allocator<.*>::~?(__new_)?allocator\(', r'std::allocator<.*>::~?allocator\(')
def m_alloc_nop(e, s, a, i, fn):
    return ret(s)


# ------------------------------------------------------------------ std::vector growth (layout: begin, end, capacity)
def vec_push(e, s, v, esize, fill):
    out = []
    for s1, q in e.deref_ptr(s, v):
        s1 = e.on_touch(s1, q, 24, 'store')
        for s2, b in e.load(s1, q, 8, 'ptr'):
            for s2, b in e.resolve(s2, b):
                if isinstance(b, Lin):
                    s2 = s2.copy()
                    o = Obj('heap', None, 'vecbuf', site='vecbuf')
                    o.vecbuf = True
                    s2.mem[o] = EMPTY
                    b = Ptr(o)
                    s2 = e.store(s2, q, b, 8)
                    s2 = e.store(s2, Ptr(q.obj, q.off + 8), b, 8)
                    s2 = e.store(s2, Ptr(q.obj, q.off + 16), Ptr(o, C(1 << 46)), 8)
                for s3, f in e.load(s2, Ptr(q.obj, q.off + 8), 8, 'ptr'):
                    for s3, f in e.deref_ptr(s3, f):
                        for s4 in fill(s3, f):
                            s4 = e.store(s4, Ptr(q.obj, q.off + 8), Ptr(f.obj, s4.norm(f.off + esize)), 8)
                            out.append((s4, f))
    return out


@model(r'(?:void |auto |.*& )?std::vector<(?:[^<>]*\*|unsigned long|long|int|char), std::allocator<(?:[^<>]*\*|unsigned long|long|int|char)>>::(push_back|emplace_back(?:<.*>)?)\(')
def m_vec_push(e, s, a, i, fn):
    m = re.search(r'std::vector<([^,]*), ', fn.dem)
    es = {'int': 4, 'char': 1}.get(m.group(1), 8)
    ty = 'ptr' if m.group(1).endswith('*') else 'i%d' % (es * 8)

    def fill(s, f):
        out = []
        for s1, p in e.deref_ptr(s, a[1]):
            for s2, v in e.load(s1, p, es, ty):
                out.append(e.store(s2, f, v, es))
        return out
    return vec_push(e, s, a[0], es, fill)


def call_args(dem):
    """types of the arguments of a demangled function"""
    d, k = 0, len(dem.rstrip())
    while k:
        k -= 1
        d += {')': 1, '(': -1}.get(dem[k], 0)
        if d == 0 and dem[k] == '(':
            break
    out, cur, d = [], '', 0
    for c in dem.rstrip()[k + 1:-1]:
        d += {'<': 1, '(': 1, '>': -1, ')': -1}.get(c, 0)
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    return out + [cur.strip()] if cur.strip() else out


@model(r'(?:void )?std::vector<string, std::allocator<string>>::(push_back|emplace_back<[^()]*(?:\([^()]*\))?[^()]*>)\(')
def m_vec_pushs(e, s, a, i, fn):
    args = call_args(fn.dem)

    def value(s, k):
        """the integer or pointer the k-th (forwarded) argument stands for"""
        out = []
        for s1, p in e.deref_ptr(s, a[1 + k]):
            t = args[k].replace('const', '').strip(' &')
            n = {'char*': 8, 'char *': 8, 'unsigned long': 8, 'long': 8, 'int': 4, 'unsigned int': 4, 'char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2}.get(t)
            if n is None:
                s1 = s1.copy()
                s1.imprecise('emplace_back of a string from %s' % ', '.join(args))
                out.append((s1, L(fresh(0, (1 << 31)))))
                continue
            for s2, v in e.load(s1, p, n, 'ptr' if t[-1] == '*' else 'i%d' % (8 * n)):
                out += e.deref_ptr(s2, v) if t[-1] == '*' else [(s3, x) for s3, x in e.nu(s2, v, 8 * n)]
        return out

    def fill(s, f):
        out = []
        if not args:
            s1, c = mkstr(e, s, [])
            out.append(putstr(e, s1, f, c))
        elif len(args) == 1 and 'string' in args[0]:
            for s1, q, v in getstr(e, s, a[1]):
                s2, c = clone(e, s1, v)
                out.append(putstr(e, s2, f, c))
        elif len(args) == 1 or len(args) == 2 and '*' in args[0] and 'long' in args[1] or len(args) == 2 and '[' in args[0] and 'long' in args[1]:
            for s1, p in (e.deref_ptr(s, a[1]) if '[' in args[0] else value(s, 0)):
                for s2, n in (c_strlen(e, s1, p) if len(args) == 1 else value(s1, 1)):
                    s2 = e.on_access(s2, p, s2.norm(n + 1) if len(args) == 1 else n, 'load')
                    if s2 is None:
                        continue
                    s3, c = mkstr(e, s2, [(p.obj, p.off, n)])
                    out.append(putstr(e, s3, f, c))
        elif len(args) in (2, 3) and 'string' in args[0] and 'long' in args[1]:
            for s1, q, v in getstr(e, s, a[1]):
                for s2, pos in value(s1, 1):
                    for s3, n in (value(s2, 2) if len(args) == 3 else [(s2, C(-1))]):
                        for s4, c in substr(e, s3, v, pos, n):
                            out.append(putstr(e, s4, f, c))
        else:
            t = s.copy()
            t.imprecise('emplace_back of a string from %s' % ', '.join(args))
            o = Obj('lazy', None, 'text', align=1)
            o.size = L(fresh(0, 1 << 31))
            t, c = mkstr(e, t, [(o, ZERO, o.size)])
            out.append(putstr(e, t, f, c))
        return [e.on_str_pushed(x, f) for x in out]
    return vec_push(e, s, a[0], 32, fill)


@model(r'std::vector<string, std::allocator<string>>::(clear)\(')
def m_vec_clears(e, s, a, i, fn):
    out = []
    for s1, q in e.deref_ptr(s, a[0]):
        s1 = e.on_touch(s1, q, 24, 'store')
        for s2, b in e.load(s1, q, 8, 'ptr'):
            out.append((e.store(s2, Ptr(q.obj, q.off + 8), b, 8), None))
    return out


@model(r'std::vector<.*>::reserve\(')
def m_vec_reserve(e, s, a, i, fn):
    return ret(s)


@model(r'std::vector<.*>::~vector\(')
def m_vec_dtor(e, s, a, i, fn):
    out = []
    for s1, q in e.deref_ptr(s, a[0]):
        for s2, b in e.load(s1, q, 8, 'ptr'):
            for s3, b in e.resolve(s2, b):
                if isinstance(b, Ptr):
                    s3 = s3.copy()
                    s3.mem[b.obj] = OS(e.os(s3, b.obj).log, False)
                out.append((s3, None))
    return out


# ------------------------------------------------------------------ std::map / std::set keyed by string
# value of the container object: Tok('map', ((key Str, node Obj), ...)); node: key at +32, mapped value after it
def getmap(e, s, p):
    out = []
    for s1, q in e.deref_ptr(s, p):
        s1 = e.on_touch(s1, q, 48, 'load')
        v = None
        for en in reversed(e.os(s1, q.obj).log):
            if en[0] == 'v' and isinstance(en[3], Tok) and en[3].kind == 'map' and s1.norm(en[1] - q.off) == ZERO:
                v = en[3]
                break
        if v is None:
            s1 = s1.copy()
            v = Tok('map', ())
            if q.obj.kind != 'global':
                s1.imprecise('map not constructed')
            s1 = putmap(e, s1, q, v)
        out.append((s1, q, v))
    return out


def putmap(e, s, q, v):
    return e.store(e.on_touch(s, q, 48, 'store'), q, v, 48)


def map_lookup(e, s, v, key):
    """list of (state, node or None)"""
    out = []
    cur = [s]
    for k, node in v.a[0]:
        nxt = []
        for s1 in cur:
            for s2, eq in e.split(s1, k.len - key.len, 'eq'):
                if not eq:
                    nxt.append(s2)
                    continue
                for s3, r in bytes_cmp_eq(e, s2, Ptr(k.data), Ptr(key.data), key.len):
                    if r:
                        out.append((s3, node))
                    else:
                        nxt.append(s3)
        cur = nxt
    return out + [(s1, None) for s1 in cur]


def key_order(e, s, k):
    r = e.region_keys(s, k.data, ZERO, s.norm(k.len))
    return repr([x[1] for x in r]) if r else ''


def map_add(e, s, q, v, key, vsize):
    s, k = clone(e, s, key)
    n = Obj('heap', C(64 + vsize), 'node', site='mapnode')
    n.node = True
    s = s.copy()
    s.mem[n] = EMPTY
    s = e.store(s, Ptr(n, C(32)), k, 32)
    if vsize:
        s = e.write(s, n, ('s', C(64), C(vsize), ZERO))
    ents = v.a[0] + ((k, n),)
    if len(ents) > 1:
        ents = tuple(sorted(ents, key=lambda x: key_order(e, s, x[0])))      # a canonical order, so that histories can be compared
    s = putmap(e, s, q, Tok('map', ents))
    return s, n


MAPRE = r'std::(map|set)<string, .*>::'


@model(r'std::(map|set)<string, .*>::(map|set)\(\)$')
def m_map_ctor(e, s, a, i, fn):
    out = []
    for s1, q in e.deref_ptr(s, a[0]):
        s1 = e.write(s1, q.obj, ('u', q.off, C(48), ('mapctor',)))
        out.append((putmap(e, s1, q, Tok('map', ())), None))
    return out


@model(r'std::(map|set)<string, .*>::~(map|set)\(')
def m_map_dtor(e, s, a, i, fn):
    return ret(s)


@model(r'std::(map|set)<string, .*>::end\(\)', r'std::(map|set)<string, .*>::cend\(\)')
def m_map_end(e, s, a, i, fn):
    return [(s1, Ptr(q.obj, q.off + 8)) for s1, q in e.deref_ptr(s, a[0])]


@model(r'std::(map|set)<string, .*>::c?begin\(\)')
def m_map_begin(e, s, a, i, fn):
    out = []
    for s1, q, v in getmap(e, s, a[0]):
        out.append((s1, Ptr(v.a[0][0][1]) if v.a[0] else Ptr(q.obj, q.off + 8)))
    return out


@model(r'std::_Rb_tree_(const_)?iterator<.*>::operator\+\+\(')
def m_map_inc(e, s, a, i, fn):
    out = []
    for s1, q in e.deref_ptr(s, a[0]):
        for s2, n in e.load(s1, q, 8, 'ptr'):
            n = e.res(s2, n)
            done = False
            if isinstance(n, Ptr):
                for o, os in s2.mem.items():
                    for en in os.log:
                        if en[0] == 'v' and isinstance(en[3], Tok) and en[3].kind == 'map':
                            ns = [x[1] for x in en[3].a[0]]
                            if n.obj in ns:
                                k = ns.index(n.obj)
                                nx = Ptr(ns[k + 1]) if k + 1 < len(ns) else Ptr(o, en[1] + 8)
                                s3 = e.store(e.on_touch(s2, Ptr(o, en[1]), 48, 'load'), q, nx, 8)
                                out.append((s3, n if '(int)' in fn.dem else a[0]))
                                done = True
                                break
                    if done:
                        break
            if not done:
                e.on_bad_iterator(s2, n)
    return out


@model(r'std::(map|set)<string, .*>::(find|count)\(string const&\)')
def m_map_find(e, s, a, i, fn):
    out = []
    for s1, q, v in getmap(e, s, a[0]):
        for s2, _, key in getstr(e, s1, a[1]):
            for s3, n in map_lookup(e, s2, v, key):
                if '::count' in fn.dem:
                    out.append((s3, ONE if n else ZERO))
                else:
                    out.append((s3, Ptr(n) if n else Ptr(q.obj, q.off + 8)))
    return out


@model(r'std::map<string, .*>::operator\[\]\(')
def m_map_idx(e, s, a, i, fn):
    out = []
    for s1, q, v in getmap(e, s, a[0]):
        for s2, _, key in getstr(e, s1, a[1]):
            for s3, n in map_lookup(e, s2, v, key):
                if n is None:
                    s3, n = map_add(e, s3, q, v, key, 8)
                out.append((s3, Ptr(n, C(64))))
    return out


@model(r'std::map<string, .*>::at\(string const&\)')
def m_map_at(e, s, a, i, fn):
    out = []
    for s1, q, v in getmap(e, s, a[0]):
        for s2, _, key in getstr(e, s1, a[1]):
            for s3, n in map_lookup(e, s2, v, key):
                if n is not None:
                    out.append((s3, Ptr(n, C(64))))
                else:
                    e.report(s3, 'exception', 'std::map::at is asked for a key that is not there')
    return out


def map_remove(e, s, q, v, node):
    s = putmap(e, s, q, Tok('map', tuple(x for x in v.a[0] if x[1] is not node)))
    s.mem[node] = OS(e.os(s, node).log, False)
    return s


@model(r'std::(map|set)<string, .*>::erase\(string const&\)')
def m_map_erase(e, s, a, i, fn):
    out = []
    for s1, q, v in getmap(e, s, a[0]):
        for s2, _, key in getstr(e, s1, a[1]):
            for s3, n in map_lookup(e, s2, v, key):
                out.append((map_remove(e, s3, q, v, n), ONE) if n else (s3, ZERO))
    return out


@model(r'std::(map|set)<string, .*>::erase(\[abi:cxx11\])?\(std::_Rb_tree_(const_)?iterator')
def m_map_erase_it(e, s, a, i, fn):
    out = []
    for s1, q, v in getmap(e, s, a[0]):
        for s2, n in e.resolve(s1, a[1]):
            if isinstance(n, Ptr) and any(x[1] is n.obj for x in v.a[0]):
                ns = [x[1] for x in v.a[0]]
                k = ns.index(n.obj)
                nx = Ptr(ns[k + 1]) if k + 1 < len(ns) else Ptr(q.obj, q.off + 8)
                out.append((map_remove(e, s2, q, v, n.obj), nx))
            else:
                e.on_bad_iterator(s2, n)
    return out


@model(r'(?:.* )?std::(map|set)<string, .*>::(insert|emplace)(<.*>)?\((string const&|string&&|std::pair<string)')
def m_map_insert(e, s, a, i, fn):
    isset = fn.dem.split('(')[0].find('std::set<') >= 0
    out = []
    for s1, q, v in getmap(e, s, a[0]):
        for s2, kp, key in getstr(e, s1, a[1]):
            for s3, n in map_lookup(e, s2, v, key):
                new = n is None
                if new:
                    s3, n = map_add(e, s3, q, v, key, 0 if isset else 8)
                    if not isset:
                        if '::emplace<' in fn.dem and len(a) > 2:
                            vs = [(s5, vp) for s5, vp in e.deref_ptr(s3, a[2])]
                        else:
                            vs = [(s3, Ptr(kp.obj, kp.off + 32))]
                        for s4, x in [y for s5, vp in vs for y in e.load(s5, vp, 8, 'ptr')]:
                            out.append((e.store(s4, Ptr(n, C(64)), x, 8), Agg([Ptr(n), ONE])))
                        continue
                out.append((s3, Agg([Ptr(n), ONE if new else ZERO])))
    return out


@model(r'std::(map|set)<string, .*>::(size|empty)\(\)')
def m_map_size(e, s, a, i, fn):
    out = []
    for s1, q, v in getmap(e, s, a[0]):
        n = len(v.a[0])
        out.append((s1, C(n) if '::size' in fn.dem else C(int(n == 0))))
    return out


@model(r'std::(map|set)<string, .*>::clear\(\)')
def m_map_clear(e, s, a, i, fn):
    out = []
    for s1, q, v in getmap(e, s, a[0]):
        for k, n in v.a[0]:
            s1 = s1.copy()
            s1.mem[n] = OS(e.os(s1, n).log, False)
        out.append((putmap(e, s1, q, Tok('map', ())), None))
    return out


# ------------------------------------------------------------------ threads, mutexes, condition variables
@model(r'std::mutex::mutex\(\)', r'std::__mutex_base::__mutex_base\(\)')
def m_mutex_ctor(e, s, a, i, fn):
    return ret(s)


@model(r'std::mutex::lock\(\)', r'pthread_mutex_lock$')
def m_lock(e, s, a, i, fn):
    return [(s2, ZERO) for s1, p in e.deref_ptr(s, a[0]) for s0 in e.before_lock(s1, p) for s2 in [e.on_lock(s0, p)] if s2 is not None]


@model(r'std::mutex::try_lock\(\)', r'pthread_mutex_trylock$')
def m_trylock(e, s, a, i, fn):
    out = []
    for s1, p in e.deref_ptr(s, a[0]):
        s2 = None if p in s1.ghost.get('locks', ()) else e.on_lock(s1, p)
        if s2 is not None:
            out.append((s2, ONE if 'std' in fn.dem else ZERO))
        out.append((s1, ZERO if 'std' in fn.dem else C(16)))
    return out


@model(r'std::mutex::unlock\(\)', r'pthread_mutex_unlock$')
def m_unlock(e, s, a, i, fn):
    return [(s2, ZERO) for s1, p in e.deref_ptr(s, a[0]) for s2 in [e.on_unlock(s1, p)] if s2 is not None]


@model(r'std::condition_variable::(~?condition_variable)\(\)')
def m_cv_ctor(e, s, a, i, fn):
    return ret(s)


@model(r'std::condition_variable::(notify_one|notify_all)\(\)')
def m_cv_notify(e, s, a, i, fn):
    return [(s2, None) for s1, p in e.deref_ptr(s, a[0]) for s2 in [e.on_notify(s1, p, 'all' in fn.dem)] if s2 is not None]


@model(r'std::condition_variable::wait\(std::unique_lock<std::mutex>&\)')
def m_cv_wait(e, s, a, i, fn):
    out = []
    for s1, p in e.deref_ptr(s, a[0]):
        for s2, u in e.deref_ptr(s1, a[1]):
            for s3, m in e.load(s2, u, 8, 'ptr'):
                for s4, m in e.deref_ptr(s3, m):
                    out += [(x, None) for x in e.on_wait(s4, p, m)]
    return out


@model(r'std::thread::_M_start_thread\(')
def m_thread(e, s, a, i, fn):
    """takes over the state object; the new thread will run its _M_run()"""
    out = []
    for s1, t in e.deref_ptr(s, a[0]):
        for s2, u in e.deref_ptr(s1, a[1]):
            for s3, st in e.load(s2, u, 8, 'ptr'):
                for s4, st in e.deref_ptr(s3, st):
                    s5 = e.store(s4, u, ZERO, 8)
                    s5 = e.store(s5, t, L(ksym(('thread', e.nextuid()), 1, 1 << 62, 'thread id')), 8)
                    out += [(x, None) for x in e.on_thread(s5, t, st)]
    return out


@model(r'std::thread::(detach|join)\(\)')
def m_detach(e, s, a, i, fn):
    out = []
    for s1, t in e.deref_ptr(s, a[0]):
        s2 = e.store(s1, t, ZERO, 8)
        out += [(x, None) for x in [e.on_detach(s2, t, 'join' in fn.dem)] if x is not None]
    return out


@model(r'std::this_thread::(get_id|yield)')
def m_getid(e, s, a, i, fn):
    return ret(s, L(fresh(0, (1 << 64) - 1, 'tid')))


@model(r'(.* )?std::operator<<', r'std::basic_ostream<.*>::operator<<')
def m_ostream(e, s, a, i, fn):
    return ret(s, a[0])


@model(r'std::basic_ostringstream<.*>::~?basic_ostringstream\(', r'std::basic_stringstream<.*>::~?basic_stringstream\(')
def m_oss(e, s, a, i, fn):
    return ret(s)


@model(r'std::basic_(o?)stringstream<.*>::str\(\)')
def m_oss_str(e, s, a, i, fn):
    out = []
    for s1, q in e.deref_ptr(s, a[0]):
        o = Obj('lazy', None, 'ostext')
        n = L(fresh(0, 1 << 40, 'oslen'))
        s1 = s1.copy()
        out.append((putstr(e, s1, q, Str(o, n)), None))
    return out
