"""Abstract interpreter over the SSA program dumped by irdump.

State  = SSA values of the current frame, memory (per object a log of writes over an immutable
         'initial contents'), a conjunction of linear facts (lin.Cons), bindings of unknown
         pointers, and monitor (ghost) variables.
Control = path partitioning inside loop-free code; every loop is solved as a fixpoint over a finite
         set of partitions, each generalised by widening (affine equalities + template
         inequalities kept only when inductive).
Calls are interpreted by abstract inlining, so helper boundaries do not matter."""
import json
import re
import math
import sys
import time
from lin import *
import lin as LIN

sys.setrecursionlimit(20000)


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Obj:
    """A memory object (identity only; contents live in the state)."""
    _n = 0

    def __init__(self, kind, size=None, name='', cls=None, key=None, align=16, root=False, site=None):
        Obj._n += 1
        self.id = Obj._n
        self.kind = kind          # alloca heap lazy global fn
        self.size = size          # Lin or None
        self.name = name or kind
        self.cls = cls
        self.key = key
        self.align = align
        self.root = root
        self.site = site
        self.init = None
        self.const = False
        self.deps = frozenset([('o', self.id)]) | (key_deps(key) if key else frozenset())

    def __repr__(self):
        return '%s.%d' % (self.name, self.id)


class Ptr:
    __slots__ = ('obj', 'off', 'win')

    def __init__(self, obj, off=ZERO, win=None):
        self.obj = obj
        self.off = off
        self.win = win

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj is o.obj and self.off == o.off

    def __hash__(self):
        return hash((self.obj.id, self.off))

    def __repr__(self):
        return '&%r%s' % (self.obj, '' if self.off == ZERO else '[%r]' % self.off)


class UP:
    """Unknown pointer, named by where it was found."""
    _tab = {}
    __slots__ = ('key', 'deps', 'hint')

    def __repr__(self):
        return 'UP%r' % (self.key,)


def up(key, hint=None):
    u = UP._tab.get(key)
    if u is None:
        u = UP()
        u.key = key
        u.hint = hint
        u.deps = key_deps(key)
        UP._tab[key] = u
        if key[0] == 'initp':
            for q in key[2].syms():
                CONGP.setdefault(q, []).append(u)
    return u


class Agg:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = tuple(v)

    def __eq__(self, o):
        return isinstance(o, Agg) and self.v == o.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return 'Agg%r' % (self.v,)


class Str:
    """Value of a std::string object."""
    __slots__ = ('data', 'len')

    def __init__(self, data, len):
        self.data = data
        self.len = len

    def __eq__(self, o):
        return isinstance(o, Str) and self.data is o.data and self.len == o.len

    def __hash__(self):
        return hash((self.data.id, self.len))

    def __repr__(self):
        return 'Str(%r,%r)' % (self.data, self.len)


class Tok:
    """Opaque value of a modelled library type."""
    __slots__ = ('kind', 'a')

    def __init__(self, kind, *a):
        self.kind = kind
        self.a = a

    def __eq__(self, o):
        return isinstance(o, Tok) and self.kind == o.kind and self.a == o.a

    def __hash__(self):
        return hash((self.kind, self.a))

    def __repr__(self):
        return '%s%r' % (self.kind, self.a)


class Fp:
    def __repr__(self):
        return 'fp'


FP = Fp()


def key_deps(k):
    d = set()
    _kd(k, d)
    return frozenset(d)


def _kd(k, d):
    if isinstance(k, tuple):
        for x in k:
            _kd(x, d)
    elif isinstance(k, Lin):
        for s in k.syms():
            d.add(('s', s))
            d |= SYMS[s].objs
    elif isinstance(k, (Obj, UP)):
        d |= k.deps
    elif isinstance(k, Ptr):
        _kd(k.obj, d)
        _kd(k.off, d)
    elif isinstance(k, Str):
        _kd(k.data, d)
        _kd(k.len, d)
    elif isinstance(k, (Agg,)):
        _kd(k.v, d)
    elif isinstance(k, Tok):
        _kd(k.a, d)


def ksym(key, lo, hi, name=None):
    n = len(SYMS)
    r = sym(key, lo, hi, name, key_deps(key))
    if r.id == n and key[0] == 'init':
        for q in key[2].syms():
            CONG.setdefault(q, []).append(n)
    return r


class OS:
    """Per-state contents of one object: log of writes (later entries win)."""
    __slots__ = ('log', 'alive')

    def __init__(self, log=(), alive=True):
        self.log = log
        self.alive = alive


EMPTY = OS()


class State:
    __slots__ = ('env', 'mem', 'cons', 'bind', 'ghost', 'trace', 'imp', 'frame')

    def __init__(self):
        self.env = {}
        self.mem = {}
        self.cons = Cons()
        self.bind = {}
        self.ghost = {}
        self.trace = None
        self.imp = ()
        self.frame = ()

    def copy(self):
        n = State.__new__(State)
        n.env = dict(self.env)
        n.mem = dict(self.mem)
        n.cons = self.cons
        n.bind = dict(self.bind)
        n.ghost = dict(self.ghost)
        n.trace = self.trace
        n.imp = self.imp
        n.frame = self.frame
        return n

    # --- facts
    def with_cons(self, c):
        if c is None:
            return None
        if c is self.cons:
            return self
        n = self.copy()
        old = self.cons.eq
        n.cons = c
        if len(c.eq) != len(old):
            new = [k for k in c.eq if k not in old]
            for k in new:
                e = L(SYMS[k]) - c.eq[k]
                if any(SYMS[x].key[0] == 'rem' for x, _ in e.t) and self.residues(n, e) is None:
                    return None
            return n.congruence(new)
        return n

    def congruence(self, new):
        """cells at offsets that became equal hold the same value"""
        todo = list(new)
        n = self
        while todo:
            k = todo.pop()
            for q in CONG.get(k, ()):
                y = SYMS[q]
                off = n.cons.norm(y.key[2])
                if off == y.key[2]:
                    continue
                ny = ksym(('init', y.key[1], off, y.key[3]), y.lo, y.hi, '%s[%r]' % (y.key[1].name, off))
                c = n.cons.add_eq(L(y) - L(ny))
                if c is None:
                    return None
                if c is not n.cons:
                    todo += [x for x in c.eq if x not in n.cons.eq]
                    n = n if n is not self else n.copy()
                    n.cons = c
            for u in CONGP.get(k, ()):
                off = n.cons.norm(u.key[2])
                if off == u.key[2]:
                    continue
                w = up(('initp', u.key[1], off), u.hint)
                n = n if n is not self else n.copy()
                if u in n.bind and w not in n.bind:
                    n.bind[w] = n.bind[u]
                elif u not in n.bind:
                    n.bind[u] = w
        return n

    def assume_ge(self, e):
        return self.with_cons(self.cons.add_ge(e))

    def assume_eq(self, e):
        r = self.with_cons(self.cons.add_eq(e))
        if r is not None and any(c > 65536 or c < -65536 for _, c in r.norm(e).t + e.t):
            return self.residues(r, self.norm(e))
        return r

    @staticmethod
    def unrem(e):
        """write remainders as dividend - divisor * quotient"""
        for _ in range(4):
            for s, c in e.t:
                k = SYMS[s].key
                if k[0] == 'rem':
                    e = e - L(SYMS[s]).scale(c) + (k[1] - L(ksym(('quo', k[1], k[2]), None, None)).scale(k[2])).scale(c)
                    break
            else:
                return e
        return e

    def residues(self, r, e):
        """integer solutions of an equality with a large coefficient: X = rho (mod m), X within its bounds"""
        e = self.unrem(e)
        if not e.t:
            return r
        m = max(abs(c) for _, c in e.t)
        rest = [(s, c) for s, c in e.t if abs(c) != m]
        if m < 2 or not rest:
            return r
        g = 0
        for _, c in rest:
            g = math.gcd(g, abs(c))
        if math.gcd(g, m) != 1:
            return r
        X = Lin(0, tuple(sorted((s, c // g) for s, c in rest)))
        rho = (-e.c * pow(g, -1, m)) % m
        lo, hi = r.cons.bounds(X)
        if lo is None or hi is None or (hi - lo) // m > 4:
            return r
        x = lo + (rho - lo) % m
        while x <= hi:
            if self.cons.add_eq(X - x) is not None and not (self.ge(X - x - 1) or self.ge(C(x - 1) - X)):
                return r
            x += m
        return None

    def assume_ne(self, e):
        return self.with_cons(self.cons.add_ne(e))

    def ge(self, e):
        return self.cons.ge(e)

    def eq(self, a, b=None):
        return self.cons.eq0(a if b is None else a - b)

    def norm(self, e):
        return self.cons.norm(e)

    def imprecise(self, why):
        if why not in self.imp:
            self.imp = self.imp + (why,)

    def note(self, loc, text):
        self.trace = (self.trace, loc, text)

    def trace_list(self, n=40):
        out = []
        t = self.trace
        while t is not None and len(out) < n:
            out.append((t[1], t[2]))
            t = t[0]
        return out[::-1]


class Budget(Exception):
    pass


class Found(Exception):
    pass


class ShapeMismatch(Exception):
    pass


class NeedSplit(Exception):
    """an undecided linear comparison (expr >= 0) that must be split on"""

    def __init__(self, e):
        self.e = e


CONG = {}      # symbol id -> ids of symbols whose key mentions it (memory cells)
CONGP = {}     # symbol id -> unknown pointers whose key mentions it


class Func:
    def __init__(self, name, d):
        self.name = name
        self.dem = shorten(d['dem'])
        self.d = d
        self.args = d['args']
        self.has_body = 'blocks' in d
        self.diname = d.get('diname', '')
        self.scope = d.get('scope', '')
        self.file = d.get('file', '')
        self.line = d.get('line', 0)
        self.ret = d['ret']
        if self.has_body:
            self.blocks = d['blocks']
            self.loops = {}
            self.inner = {}
            for h, bl in d['loops']:
                self.loops[h] = (h, frozenset(bl))


def shorten(d):
    d = d.replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'string')
    d = d.replace('std::__cxx11::', 'std::')
    return d


class Program:
    def __init__(self, d):
        self.classes = d['classes']
        self.globals = d['globals']
        self.funcs = {n: Func(n, f) for n, f in d['functions'].items()}
        self.by_dem = {}
        for f in self.funcs.values():
            self.by_dem.setdefault(f.dem, []).append(f)

    def cls(self, suffix):
        r = [n for n in self.classes if n == suffix or n.endswith('::' + suffix)]
        return r[0] if len(r) == 1 else (sorted(r, key=len)[0] if r else None)

    def field(self, cls, name):
        for f in self.classes[cls]['fields']:
            if f[0] == name:
                return f
        return None

    def find(self, pat, body=True):
        r = re.compile(pat)
        return [f for f in self.funcs.values() if r.search(f.dem) and (f.has_body or not body)]


class Viol:
    def __init__(self, rule, msg, loc, st, func=''):
        self.func = func
        self.rule = rule
        self.msg = msg
        self.loc = loc
        self.trace = st.trace_list() if st else []
        self.frames = st.frame if st else ()
        self.imp = st.imp if st else ()
        self.facts = []
        if st is not None:
            self.facts = [('%s %r' % (k, e)) for k, e in st.cons.facts()][:30]
        self.key = (rule, loc, msg)


M = {w: 1 << w for w in (1, 8, 16, 32, 64, 128)}


def width(ty):
    if ty.startswith('i'):
        return int(ty[1:])
    if ty == 'ptr':
        return 64
    return None


def signed(v, w):
    return v - (1 << w) if v >= (1 << (w - 1)) else v


class Engine:
    max_steps = 400000
    deadline = 1e18
    max_unroll = 40
    force_unroll = 0
    unroll_states = 64
    speculate = 0          # iterations tried exactly before a loop is summarised
    max_groups = 14
    max_rounds = 120
    max_paths = 6000
    track_cmp = True

    def __init__(self, prog):
        LIN.reset()
        UP._tab.clear()
        CONG.clear()
        CONGP.clear()
        self.p = prog
        self.steps = 0
        self.viol = []
        self.cmp_log = set()
        self.gobj = {}
        self.lazyobj = {}
        self.stats = {'functions': set(), 'calls': 0, 'blocks': 0, 'loops': 0, 'states': 0, 'obligations': 0, 'sites': set()}
        self.cur = None       # (func, instr)
        self.unmodelled = set()
        self.depth = 0
        self.uid = 0
        self.modelcache = {}
        self.dbg = False

    # ---------------------------------------------------------------- reporting
    def loc(self, i=None):
        i = i or (self.cur[1] if self.cur else None)
        if not i:
            return '?'
        f = i.get('file') or self.cur[0].file
        return '%s:%s' % (f, i.get('line', self.cur[0].line))

    def where(self, st):
        """innermost /repo location on the call stack"""
        l = self.loc()
        if '/usr/' in l or l.startswith('?'):
            for f in reversed(st.frame):
                if '/usr/' not in f[1]:
                    return f[1]
        return l

    def report(self, st, rule, msg, loc=None):
        self.viol.append(Viol(rule, msg, loc or self.where(st), st, self.cur[0].dem if self.cur else ''))

    def oblige(self, n=1):
        self.stats['obligations'] += n

    # ---------------------------------------------------------------- objects
    def new_obj(self, kind, size=None, name='', **kw):
        return Obj(kind, size, name, **kw)

    def global_obj(self, name):
        o = self.gobj.get(name)
        if o is None:
            if name in self.p.funcs:
                o = Obj('fn', None, name, root=True)
                o.func = self.p.funcs[name]
            else:
                g = self.p.globals.get(name, {})
                o = Obj('global', C(g.get('size', 0)), name, root=True)
                o.const = g.get('const', False)
                o.init = g.get('init')
            self.gobj[name] = o
        return o

    def lazy(self, u):
        """the object an unknown pointer leads to"""
        o = self.lazyobj.get(u.key)
        if o is None:
            o = Obj('lazy', None, '*' + str(u.hint or 'p'), key=('deref', u))
            self.hook_lazy(o, u)
            self.lazyobj[u.key] = o
        return o

    def hook_lazy(self, o, u):
        pass

    def base_sym(self, o):
        b = ksym(('base', o), 1, (1 << 44), 'base(%r)' % o)
        return L(b).scale(o.align or 1)

    # ---------------------------------------------------------------- pointer resolution
    def hook_resolve(self, st, u):
        """possible bindings of an unknown pointer: list of (state, value)"""
        n = st.copy()
        n.bind[u] = ZERO
        m = st.copy()
        m.bind[u] = Ptr(self.lazy(u))
        return [(m, m.bind[u]), (n, ZERO)]

    def res(self, st, v):
        """deterministic part of resolution"""
        while isinstance(v, UP) and v in st.bind:
            v = st.bind[v]
        return v

    def resolve(self, st, v):
        v = self.res(st, v)
        if isinstance(v, UP):
            out = []
            for s, x in self.hook_resolve(st, v):
                out.append((s, x))
            return out
        return [(st, v)]

    def deref_ptr(self, st, v):
        """pointer about to be dereferenced / offset: list of (state, Ptr)"""
        v = self.res(st, v)
        if isinstance(v, Ptr):
            return [(st, v)]
        if isinstance(v, UP):
            out = []
            for s, x in self.hook_resolve(st, v):
                x = self.res(s, x)
                if isinstance(x, Ptr):
                    out.append((s, x))
                elif isinstance(x, Lin):
                    if self.hook_null_deref(s, v):
                        pass
            return out
        if isinstance(v, Lin):
            p = self.int_to_ptr(st, v)
            if isinstance(p, Ptr):
                return [(st, p)]
            st = st.copy()
            if st.norm(v).is_const() and abs(st.norm(v).c) < 4096:
                self.on_null(st)
                return []
            st.imprecise('pointer from integer')
            o = Obj('lazy', None, 'wild')
            return [(st, Ptr(o))]
        st = st.copy()
        if v is UNDEF:
            self.on_undef_ptr(st)
            return []
        st.imprecise('unknown pointer')
        return [(st, Ptr(Obj('lazy', None, 'opaque')))]

    def hook_null_deref(self, st, u):
        return True   # an unknown pointer that is dereferenced is assumed valid

    def on_null(self, st):
        pass

    def on_undef_ptr(self, st):
        st.imprecise('uninitialised pointer used')

    def int_to_ptr(self, st, v):
        v = st.norm(v)
        for s, c in v.t:
            k = SYMS[s].key
            if k[0] == 'base' and c == (k[1].align or 1):
                return Ptr(k[1], v - self.base_sym(k[1]))
        return v

    def ptr_to_int(self, st, v):
        """list of (state, Lin)"""
        out = []
        for s, x in self.resolve(st, v):
            if isinstance(x, Ptr):
                out.append((s, self.base_sym(x.obj) + x.off))
            elif isinstance(x, Lin):
                out.append((s, x))
            else:
                s = s.copy()
                s.imprecise('ptrtoint of unknown')
                out.append((s, L(fresh(0, (1 << 64) - 1))))
        return out

    # ---------------------------------------------------------------- integer normalisation
    def normw(self, st, e, w, sgn):
        """forks: (state, value in the (un)signed range of width w)"""
        if isinstance(e, Ptr) or isinstance(e, UP):
            out = []
            for s, x in self.ptr_to_int(st, e):
                out += self.normw(s, x, w, sgn)
            return out
        if not isinstance(e, Lin):
            return [(st, L(fresh(-(1 << (w - 1)) if sgn else 0, (1 << (w - 1)) - 1 if sgn else (1 << w) - 1, 'unk')))]
        e = st.norm(e)
        m = 1 << w
        lo, hi = (-(m >> 1), (m >> 1) - 1) if sgn else (0, m - 1)
        if e.is_const():
            return [(st, C(signed(e.c % m, w) if sgn else e.c % m))]
        a, b = st.cons.bounds(e)
        if a is not None and b is not None and a >= lo and b <= hi:
            return [(st, e)]
        if st.ge(e - lo) and st.ge(C(hi) - e):
            return [(st, e)]
        if a is None or b is None or (b - a) > 6 * m:
            if a is None:
                a = lo - m if not st.ge(e - lo) else lo
            if b is None:
                b = hi + m if not st.ge(C(hi) - e) else hi
        k0, k1 = (a - lo) // m, (b - lo) // m
        if k1 - k0 > 4:
            r = ksym(('mod', e, w, sgn), lo, hi)
            return [(st, L(r))]
        out = []
        for k in sorted(range(k0, k1 + 1), key=abs):
            s = st.assume_ge(e - (lo + k * m))
            if s is None:
                continue
            s = s.assume_ge(C(hi + k * m) - e)
            if s is None:
                continue
            out.append((s, e - k * m))
        return out

    def nu(self, st, e, w):
        return self.normw(st, e, w, False)

    def ns(self, st, e, w):
        return self.normw(st, e, w, True)

    # ---------------------------------------------------------------- bits
    def sym_bits(self, st, s, W):
        y = SYMS[s]
        k = y.key
        if k[0] == 'slice':
            base, lo, n = k[1], k[2], k[3]
        else:
            base, lo, n = s, 0, None
        a, b = st.cons.bounds(Lin(0, ((s, 1),)))
        if a is None or a < 0:
            return None
        nb = W if b is None else min(W, b.bit_length())
        if n is not None:
            nb = min(nb, n)
        if b is None or nb == W:
            # maybe tighter through relational facts
            pass
        return [(('b', base, lo + i) if i < nb else 0) for i in range(W)]

    def to_bits(self, st, e, W):
        e = st.norm(e)
        if e.is_const():
            v = e.c % (1 << W)
            return [(v >> i) & 1 for i in range(W)]
        bits = None
        if len(e.t) > 16 or e.c < 0:
            return None
        for s, c in e.t:
            if c <= 0 or (c & (c - 1)):
                return None
            sh = c.bit_length() - 1
            if sh >= W:
                continue
            sb = self.sym_bits(st, s, W)
            if sb is None:
                return None
            sb = ([0] * sh + sb)[:W]
            bits = sb if bits is None else self._disj(bits, sb)
            if bits is None:
                return None
        if bits is None:
            bits = [0] * W
        if e.c:
            v = e.c % (1 << W)
            cb = [(v >> i) & 1 for i in range(W)]
            bits = self._disj(bits, cb)
        return bits

    @staticmethod
    def _disj(a, b):
        r = []
        for x, y in zip(a, b):
            if x == 0:
                r.append(y)
            elif y == 0:
                r.append(x)
            else:
                return None
        return r

    def slice_sym(self, st, base, lo, n):
        """bits [lo, lo+n) of symbol base as a Lin"""
        y = SYMS[base]
        b = st.cons.bounds(Lin(0, ((base, 1),)))[1]
        if lo == 0 and b is not None and b < (1 << n):
            return Lin(0, ((base, 1),))
        s = ksym(('slice', base, lo, n), 0, (1 << n) - 1)
        if not s.defs:
            s.objs = s.objs | frozenset([('s', base)]) | y.objs
            # base = low + 2^lo * this + 2^(lo+n) * high
            tot = Lin(0, ((base, 1),)) - L(s).scale(1 << lo)
            d = []
            hb = y.hi.bit_length() if y.hi is not None else None
            if lo:
                low = ksym(('slice', base, 0, lo), 0, (1 << lo) - 1)
                low.objs = low.objs | frozenset([('s', base)]) | y.objs
                tot = tot - L(low)
            if hb is None or hb > lo + n:
                hn = (hb - lo - n) if hb else 64
                hi = ksym(('slice', base, lo + n, hn), 0, (1 << hn) - 1)
                hi.objs = hi.objs | frozenset([('s', base)]) | y.objs
                tot = tot - L(hi).scale(1 << (lo + n))
            s.defs = (('eq', tot),)
        return L(s)

    def from_bits(self, st, bits):
        r = ZERO
        i = 0
        n = len(bits)
        while i < n:
            x = bits[i]
            if x == 0:
                i += 1
                continue
            if x == 1:
                r = r + (1 << i)
                i += 1
                continue
            j = i + 1
            while j < n and isinstance(bits[j], tuple) and bits[j][1] == x[1] and bits[j][2] == x[2] + (j - i):
                j += 1
            r = r + self.slice_sym(st, x[1], x[2], j - i).scale(1 << i)
            i = j
        return r

    def divc(self, st, e, c):
        """e = c*q + r, 0<=r<c with e a normalised integer; returns (q, r) as Lins"""
        e = st.norm(e)
        if e.is_const():
            return C(e.c // c), C(e.c % c)
        if self.split_div and c >= 256:
            for k in range(self.split_div):
                if st.ge(e - k * c) and st.ge(C(k * c + c - 1) - e):
                    return C(k), e - k * c
        if c & (c - 1) == 0:
            b = self.to_bits(st, e, 64)
            if b is not None:
                k = c.bit_length() - 1
                return self.from_bits(st, b[k:] + [0] * k), self.from_bits(st, b[:k] + [0] * (64 - k))
        if any(SYMS[s].key[0] == 'rem' for s, v in e.t):
            u = State.unrem(e)
            if all(v % c == 0 for _, v in u.t):
                return Lin(u.c // c, tuple((s, v // c) for s, v in u.t)), C(u.c % c)
        A = Lin(e.c // c, tuple((s, v // c) for s, v in e.t if v % c == 0))
        B = e - A.scale(c)
        if B.is_const():
            return A + B.c // c, C(B.c % c)
        if st.ge(B) and st.ge(C(c - 1) - B):
            return A, B
        lo, hi = st.cons.bounds(B)
        if lo is not None and hi is not None and lo // c == hi // c:
            return A + lo // c, B - lo // c * c
        if self.split_div and c >= 256:
            for k in range(self.split_div):
                if st.ge(B - k * c) and st.ge(C(k * c + c - 1) - B):
                    return A + k, B - k * c
        q = ksym(('quo', B, c), None if lo is None else lo // c, None if hi is None else hi // c)
        r = ksym(('rem', B, c), 0, c - 1)
        if not q.defs:
            d = (('eq', B - L(q).scale(c) - L(r)),)
            q.defs = d
            r.defs = d
            LIN.QUO[q.id] = frozenset(B.syms())
        # a stale (wider/narrower) range from another state must not be trusted
        if lo is None or q.lo is not None and lo // c < q.lo:
            q.lo = None if lo is None else lo // c
        if hi is None or q.hi is not None and hi // c > q.hi:
            q.hi = None if hi is None else hi // c
        return A + L(q), L(r)

    program_start = False      # globals hold their initial values when the client starts

    # ---------------------------------------------------------------- memory
    def os(self, st, o):
        return st.mem.get(o, EMPTY)

    def hook_init(self, st, o, off, size, ty):
        """initial contents of an object; None = default"""
        return None

    def init_load(self, st, o, off, size, ty):
        """value in the initial contents of o: list of (state, value)"""
        off = st.norm(off)
        v = self.hook_init(st, o, off, size, ty)
        if v is not None:
            return v if isinstance(v, list) else [(st, v)]
        if o.kind == 'global':
            if o.init is not None and off.is_const():
                for eo, es, ev in o.init:
                    if eo <= off.c and off.c + size <= eo + es:
                        if ev == 'z':
                            return [(st, ZERO)]
                        if eo == off.c and es == size and (o.const or self.program_start):
                            return [(st, self.const(ev))]
                        if self.program_start and ev[0] == 'i' and ev[1] == es * 8 and width(ty) == size * 8:
                            return [(st, C(signed((int(ev[2]) >> (8 * (off.c - eo))) & ((1 << (8 * size)) - 1), 8 * size)))]
                if o.const:
                    # combine bytes
                    by = {eo: ev for eo, es, ev in o.init if es == 1 and ev != 'z'}
                    r = 0
                    for k in range(size):
                        b = by.get(off.c + k)
                        if b is None:
                            break
                        r |= int(b[2]) << (8 * k)
                    else:
                        return [(st, C(r))]
        elif o.kind in ('alloca', 'heap'):
            return [(st, UNDEF)]
        if ty == 'ptr':
            return [(st, up(('initp', o, off), hint='%s+%r' % (o.name, off)))]
        w = width(ty)
        if w is None:
            if ty == 'string':
                return [(st, self.init_string(st, o, off))]
            if ty in ('double', 'float'):
                return [(st, FP)]
            s2 = st.copy()
            s2.imprecise('load of type ' + ty)
            return [(s2, UNDEF)]
        lo, hi = self.hook_range(o, off, size, w)
        return [(st, L(ksym(('init', o, off, size), lo, hi, '%s[%r]' % (o.name, off))))]

    def hook_range(self, o, off, size, w):
        return 0, (1 << w) - 1

    def init_string(self, st, o, off):
        k = ('strdata', o, off)
        d = self.lazyobj.get(k)
        ln = ksym(('strlen', o, off), 0, (1 << 31), 'len(%s+%r)' % (o.name, off))
        if d is None:
            d = Obj('lazy', L(ln) + 1, 'chars(%s+%r)' % (o.name, off), key=k)
            self.lazyobj[k] = d
        return Str(d, L(ln))

    def rel(self, st, off, size, eoff, elen):
        """relation of access [off,off+size) to entry [eoff,eoff+elen): exact/in/dis/None"""
        d = st.norm(off - eoff)
        ln = st.norm(elen)
        if d.is_const() and ln.is_const() and isinstance(size, int):
            if d.c == 0 and ln.c == size:
                return 'exact'
            if d.c >= 0 and d.c + size <= ln.c:
                return 'in'
            if d.c >= ln.c or d.c + size <= 0:
                return 'dis'
            return 'part'
        sz = C(size) if isinstance(size, int) else st.norm(size)
        if d.is_const() and d.c == 0 and sz == ln:
            return 'exact'
        if st.ge(d - ln) or st.ge(-d - sz):
            return 'dis'
        if st.ge(d) and st.ge(ln - d - sz):
            if st.eq(d) and st.eq(ln - sz):
                return 'exact'
            return 'in'
        return None

    def load(self, st, p, size, ty, upto=None):
        """list of (state, value)"""
        o, off = p.obj, p.off
        log = self.os(st, o).log
        i = len(log) if upto is None else upto
        if off.t:
            off = st.norm(off)
        at = off.c if not off.t else None
        while i > 0:
            i -= 1
            e = log[i]
            if at is not None and not e[1].t and not e[2].t and (at >= e[1].c + e[2].c or at + size <= e[1].c):
                continue
            r = self.rel(st, off, size, e[1], e[2])
            if r == 'dis':
                continue
            if r in ('exact', 'in'):
                return self.load_entry(st, o, e, off, size, ty, r)
            if r == 'part':
                v = self.assemble(st, o, at, size, i + 1) if at is not None and width(ty) == 8 * size else None
                if v is not None:
                    return [(st, C(v))]
                s = st.copy()
                s.imprecise('partial overlap load')
                return [(s, self.unk_value(ty, ('part', o, off, e[1])))]
            # undecided: split
            out = []
            d = off - e[1]
            s = st.assume_ge(d)
            if s is not None:
                s = s.assume_ge(e[2] - d - size)
                if s is not None:
                    out += self.load_entry(s, o, e, off, size, ty, 'exact' if s.eq(d) and s.eq(e[2] - size) else 'in')
            s = st.assume_ge(d - e[2])
            if s is not None:
                out += self.load(s, p, size, ty, i)
            s = st.assume_ge(-d - size)
            if s is not None:
                out += self.load(s, p, size, ty, i)
            if size > 1:
                for lo_, hi_ in (((-d - 1), (d + (size - 1))), ((e[2] - d - 1), (d + size - 1 - e[2]))):
                    pass
            return out
        return self.init_load(st, o, off, size, ty)

    def assemble(self, st, o, at, size, upto):
        """value written in several constant pieces"""
        v = 0
        for k in range(size):
            r = self.load(st, Ptr(o, C(at + k)), 1, 'i8', upto)
            b = st.norm(r[0][1]) if len(r) == 1 and isinstance(r[0][1], Lin) else None
            if b is None or b.t:
                return None
            v |= (b.c & 255) << (8 * k)
        return v

    def unk_value(self, ty, key):
        w = width(ty)
        if ty == 'ptr':
            return up(('unkp',) + key)
        if w is None:
            return UNDEF
        return L(ksym(('unk', ty) + key, 0, (1 << w) - 1))

    def load_entry(self, st, o, e, off, size, ty, r):
        k = e[0]
        if k == 'v':
            v = e[3]
            if r == 'exact' or isinstance(v, (Str,)) and ty == 'string':
                return [(st, self.coerce(st, v, ty))]
            d = st.norm(off - e[1])
            if isinstance(v, Agg):
                pass
            if isinstance(v, Lin) and d.is_const() and e[2].is_const():
                w = e[2].c * 8
                out = []
                for s, x in self.nu(st, v, w):
                    q, _ = self.divc(s, x, 1 << (8 * d.c)) if d.c else (x, None)
                    _, rr = self.divc(s, q, 1 << (8 * size))
                    out.append((s, rr))
                return out
            if v is UNDEF:
                return [(st, UNDEF)]
            s = st.copy()
            s.imprecise('sub-object load')
            return [(s, self.unk_value(ty, ('sub', o, off)))]
        if k == 'c':
            return self.init_load(st, e[3], e[4] + (off - e[1]), size, ty)
        if k == 's':
            b = e[3]
            if b.is_const():
                v = 0
                for j in range(size):
                    v |= (b.c & 255) << (8 * j)
                return [(st, C(v))]
            return [(st, self.unk_value(ty, ('memset', o, off)))]
        return [(st, self.unk_value(ty, ('u', e[3], st.norm(off - e[1]))))]

    def coerce(self, st, v, ty):
        if ty == 'ptr' and isinstance(v, Lin):
            return v if v.is_const() else self.int_to_ptr(st, v)
        return v

    def store(self, st, p, val, size):
        return self.write(st, p.obj, ('v', p.off, C(size) if isinstance(size, int) else size, val))

    def write(self, st, o, e):
        """append a log entry, dropping entries it certainly covers; returns new state"""
        st = st.copy()
        os = self.os(st, o)
        off, ln = st.norm(e[1]), st.norm(e[2])
        e = (e[0], off, ln) + tuple(e[3:])
        if ln.is_const() and ln.c <= 0:
            return st
        log = []
        allconst = off.is_const() and ln.is_const()
        ok0 = allconst
        lo, hi = off.c, off.c + ln.c
        for x in os.log:
            if ok0 and not x[1].t and not x[2].t:
                if lo > x[1].c or x[1].c + x[2].c > hi:
                    log.append(x)
                continue
            xo, xl = st.norm(x[1]), st.norm(x[2])
            if xo == off and xl == ln:
                continue
            if off.is_const() and ln.is_const() and xo.is_const() and xl.is_const():
                if off.c <= xo.c and xo.c + xl.c <= off.c + ln.c:
                    continue
            elif st.ge(xo - off) and st.ge(off + ln - xo - xl):
                continue
            if not (xo.is_const() and xl.is_const()):
                allconst = False
            log.append(x)
        if e[0] == 'c' and log:
            x = log[-1]
            if x[0] == 'c' and x[3] is e[3] and st.eq(x[1] + x[2] - off) and st.eq(x[4] + x[2] - e[4]):
                e = ('c', x[1], st.norm(x[2] + ln), e[3], x[4])
                log.pop()
        log.append(e)
        if allconst and len(log) > 1:
            s = sorted([(st.norm(x[1]).c, st.norm(x[2]).c, n, x) for n, x in enumerate(log)])
            if all(a[0] + a[1] <= b[0] for a, b in zip(s, s[1:])):
                log = [x[3] for x in s]
        st.mem[o] = OS(tuple(log), os.alive)
        return st

    def havoc(self, st, o, off=None, ln=None):
        self.uid += 1
        if off is None:
            st = st.copy()
            os = self.os(st, o)
            st.mem[o] = OS((('u', ZERO, o.size if o.size is not None else C(1 << 62), self.uid),), os.alive)
            return st
        return self.write(st, o, ('u', off, ln, self.uid))

    def read_region(self, st, o, off, ln, upto=None):
        """pieces [(rel_off, len, entrykind...)] describing o[off, off+ln); None if undetermined.
        piece = (reloff, len, kind, a, b)"""
        log = self.os(st, o).log
        i = len(log) if upto is None else upto
        off = st.norm(off)
        ln = st.norm(ln)
        if ln.is_const() and ln.c == 0 or st.eq(ln):
            return []
        while i > 0:
            i -= 1
            e = log[i]
            r = self.rel(st, off, ln if not ln.is_const() else ln.c, e[1], e[2])
            if r == 'dis':
                continue
            if r in ('exact', 'in'):
                d = st.norm(off - e[1])
                if e[0] == 'v':
                    if r == 'exact':
                        return [(ZERO, ln, 'v', e[3], None)]
                    if isinstance(e[3], Lin) and d.is_const() and ln.is_const() and e[2].is_const() and st.norm(e[3]).is_const():
                        v = (st.norm(e[3]).c >> (8 * d.c)) % (1 << (8 * ln.c))
                        return [(ZERO, ln, 'v', C(v), None)]
                    return [(ZERO, ln, 'u', ('vs', o, off), None)]
                if e[0] == 'c':
                    return [(ZERO, ln, 'c', e[3], st.norm(e[4] + d))]
                if e[0] == 's':
                    return [(ZERO, ln, 's', e[3], None)]
                return [(ZERO, ln, 'u', (e[3], d), None)]
            # entry overlaps a part of the region: split region around the entry
            a = st.norm(e[1] - off)             # entry start relative to region
            b = st.norm(e[1] + e[2] - off)      # entry end
            pre = self.zone(st, a, ln)
            post = self.zone(st, b, ln)
            out = []
            cur = ZERO
            if pre == 'mid':
                x = self.read_region(st, o, off, a, i)
                out += x
                cur = a
            end = b if post == 'mid' else ln
            x = self.read_region(st, o, off + cur, end - cur, i + 1)
            out += [(st.norm(cur + q[0]),) + q[1:] for q in x]
            if post == 'mid':
                x = self.read_region(st, o, off + b, ln - b, i)
                out += [(st.norm(b + q[0]),) + q[1:] for q in x]
            return out
        return [(ZERO, ln, 'c', o, off)]

    relaxed = False

    def zone(self, st, x, ln):
        """where is boundary x relative to [0,ln): before / mid / after"""
        if st.ge(-x):
            return 'before'
        if st.ge(x - ln):
            return 'after'
        if st.ge(x - 1) and st.ge(ln - x - 1):
            return 'mid'
        if self.relaxed and st.ge(x) and st.ge(ln - x):
            return 'mid'        # a piece that may be empty
        raise NeedSplit(-x if not st.ge(x - 1) else x - ln)

    def regions(self, st, o, off, ln, depth=0):
        """[(state, pieces)]: cases in which the composition of o[off, off+ln) is determined"""
        try:
            return [(st, self.merge_pieces(st, self.read_region(st, o, off, ln)))]
        except NeedSplit as x:
            if depth > 12:
                s = st.copy()
                s.imprecise('undetermined region')
                return [(s, None)]
            out = []
            for e in (x.e, -x.e - 1):
                t = st.assume_ge(e)
                if t is not None:
                    out += self.regions(t, o, off, ln, depth + 1)
            return out

    def merge_pieces(self, st, ps):
        out = []
        for q in ps:
            if st.eq(q[1]):
                continue
            if out:
                x = out[-1]
                if x[2] == 'c' == q[2] and x[3] is q[3] and st.eq(x[4] + x[1] - q[4]):
                    out[-1] = (x[0], st.norm(x[1] + q[1]), 'c', x[3], x[4])
                    continue
            out.append(q)
        return out

    def on_no_return(self, st, f):
        pass

    coarse = False          # contents of buffers inside objects do not matter for the property

    def coarse_copy(self, st, dst, ln):
        """forget the whole gap between the fixed cells around a copied range (None: not applicable)"""
        o = dst.obj
        if o.kind != 'heap' or st.norm(ln).is_const():
            return None
        cells = [(x[1].c, x[1].c + x[2].c) for x in self.os(st, o).log if x[0] == 'v' and not x[1].t and not x[2].t]
        if not cells:
            return None
        lo = max([b for a, b in cells if st.ge(dst.off - b)], default=0)
        hi = min([a for a, b in cells if a >= lo and st.ge(C(a) - dst.off - ln)], default=o.size.c if o.size is not None and o.size.is_const() else None)
        if hi is None or hi <= lo or not st.ge(dst.off - lo) or not st.ge(C(hi) - dst.off - ln):
            return None
        return self.havoc(st, o, C(lo), C(hi - lo))

    def copy_all(self, st, dst, src, ln):
        """memcpy/memmove of a region; list of states"""
        ln = st.norm(ln)
        if self.coarse:
            t = self.coarse_copy(st, dst, ln)
            if t is not None:
                return [t]
        return [self.put_pieces(t, dst, ps, ln) for t, ps in self.regions(st, src.obj, src.off, ln)]

    def relaxed_pieces(self, st, o, off, ln):
        self.relaxed = True
        try:
            return self.merge_pieces(st, self.read_region(st, o, off, ln))
        except NeedSplit:
            return None
        finally:
            self.relaxed = False

    def put_pieces(self, st, dst, ps, ln):
        if ps is None:
            return self.havoc(st, dst.obj, dst.off, ln)
        for q in ps:
            if q[2] == 'v':
                e = ('v', dst.off + q[0], q[1], q[3])
            elif q[2] == 'c':
                e = ('c', dst.off + q[0], q[1], q[3], q[4])
            elif q[2] == 's':
                e = ('s', dst.off + q[0], q[1], q[3])
            else:
                e = ('u', dst.off + q[0], q[1], q[3])
            st = self.write(st, dst.obj, e)
        return st

    def copy_bytes(self, st, dst, src, ln):
        """as copy_all, but one state (imprecise if the composition is undetermined)"""
        ln = st.norm(ln)
        if self.coarse:
            t = self.coarse_copy(st, dst, ln)
            if t is not None:
                return t
        try:
            ps = self.merge_pieces(st, self.read_region(st, src.obj, src.off, ln))
        except NeedSplit:
            ps = self.relaxed_pieces(st, src.obj, src.off, ln)
        if ps is None:
            st = st.copy()
            st.imprecise('undetermined copy')
        return self.put_pieces(st, dst, ps, ln)

    # ---------------------------------------------------------------- access hooks
    def on_access(self, st, p, size, kind, val=None):
        """called before every load/store/memcpy access; may report. returns state"""
        return st

    def on_atomic(self, st, p, kind, order, val):
        return st

    ord = 'na'                      # memory order of the access that on_access is told about

    def on_touch(self, st, p, size, kind):
        """a modelled library object is read or changed"""
        return st

    # ---------------------------------------------------------------- constants/operands
    def const(self, op):
        k = op[0]
        if k == 'i':
            w, v = op[1], int(op[2])
            return C(signed(v, w)) if w > 1 else C(v)
        if k == 'null':
            return ZERO
        if k == 'g':
            return Ptr(self.global_obj(op[1]), C(op[2]))
        if k == 'undef':
            return UNDEF
        if k == 'fp':
            return FP
        if k == 'zero':
            return Agg([ZERO] * 4)
        if k == 'agg':
            return Agg([self.const(x) for x in op[1]])
        return UNDEF

    def val(self, st, op):
        if op[0] == 'v':
            return st.env.get(op[1], UNDEF)
        return self.const(op)

    # ---------------------------------------------------------------- functions
    def call(self, st, f, args, instr=None):
        """abstract inlining. list of (state, ret)"""
        if self.depth > 60:
            s = st.copy()
            s.imprecise('call depth')
            return [(s, UNDEF)]
        self.stats['functions'].add(f.name)
        self.stats['calls'] += 1
        saved_env, saved_frame, saved_cur = st.env, st.frame, self.cur
        s0 = st.copy()
        s0.env = {i: a for i, a in enumerate(args)}
        s0.frame = saved_frame + ((f.name, self.loc() if self.cur else '?'),)
        self.depth += 1
        try:
            outs = self.run_blocks(f, 0, None, s0, None, False)
        finally:
            self.depth -= 1
            self.cur = saved_cur
        res = []
        for o in outs:
            if o[0] != 'ret':
                continue
            s, v = o[1], o[2]
            for k in [k for k in s.mem if k.kind == 'alloca' and k.site == s.frame]:
                if k not in st.mem:
                    del s.mem[k]
            s.env = dict(saved_env)
            s.frame = saved_frame
            res.append((s, v))
        if len(res) > 1 and f.name.startswith('j_') and self.joining:
            return self.join(res)
        return res

    joining = True

    def join(self, res):
        """join the states after a client operation (partitioned by shape)"""
        groups, work = [], []
        for s, v in res:
            s = s.copy()
            s.env[-1] = v
            self.absorb(groups, s, work, None)
        out = []
        for g in groups:
            s = g.state.copy()
            v = s.env.pop(-1, None)
            out.append((s, v))
        if self.dbg:
            print('   ' * self.depth, 'join', len(res), '->', len(out))
        return out

    def run_blocks(self, f, start, pred, st, loop, first):
        outs = []
        stack = [(start, pred, st, first)]
        n = 0
        while stack:
            b, pred, s, fst = stack.pop()
            if loop is not None:
                if b == loop[0] and not fst:
                    outs.append(('back', pred, s))
                    continue
                if b not in loop[1]:
                    outs.append(('exit', b, pred, s))
                    continue
            L_ = f.loops.get(b)
            if L_ is not None and not (loop is not None and b == loop[0]):
                for o in self.run_loop(f, L_, pred, s):
                    if o[0] == 'exit':
                        stack.append((o[1], o[2], o[3], False))
                    else:
                        outs.append(o)
                continue
            if pred is not None:
                s = self.do_phis(f, b, pred, s)
            n += 1
            self.stats['blocks'] += 1
            if n > self.max_paths:
                raise Budget('paths in ' + f.dem)
            for o in self.run_block(f, b, s):
                if o[0] == 'goto':
                    stack.append((o[1], b, o[2], False))
                else:
                    outs.append(o)
        return outs

    def do_phis(self, f, b, pred, s):
        new = {}
        for i in f.blocks[b]:
            if i['op'] != 'phi':
                break
            for pb, v in i['inc']:
                if pb == pred:
                    new[i['id']] = self.val(s, v)
                    break
        if new:
            s = s.copy()
            s.env.update(new)
        return s

    def run_block(self, f, b, s0):
        work = [(s0, 0)]
        outs = []
        ins = f.blocks[b]
        while work:
            s, k = work.pop()
            while True:
                i = ins[k]
                op = i['op']
                if op == 'phi':
                    k += 1
                    continue
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Budget('steps')
                if not self.steps & 255 and time.time() > self.deadline:
                    raise Budget('time')
                self.cur = (f, i)
                if op == 'br':
                    if 'cond' not in i:
                        outs.append(('goto', i['succ'][0], s))
                    else:
                        for s2, c in self.cond(s, self.val(s, i['cond'])):
                            if 'line' in i:
                                s2 = s2.copy()
                                s2.note(self.loc(i), 'branch %s' % ('taken' if c else 'not taken'))
                            outs.append(('goto', i['succ'][0 if c else 1], s2))
                    break
                if op == 'switch':
                    outs += self.do_switch(s, i)
                    break
                if op == 'ret':
                    outs.append(('ret', s, self.val(s, i['ops'][0]) if i['ops'] else None))
                    break
                if op == 'unreachable':
                    self.on_no_return(s, f)
                    break
                rs = self.step(s, f, i)
                if len(rs) == 1:
                    s = rs[0]
                    k += 1
                    continue
                for r in rs:
                    work.append((r, k + 1))
                break
        return outs

    def cond(self, s, v):
        """list of (state, bool)"""
        v = self.res(s, v)
        if isinstance(v, (Ptr,)):
            return [(s, True)]
        if v is UNDEF or not isinstance(v, Lin):
            s = s.copy()
            if v is UNDEF:
                self.on_undef_branch(s)
            s.imprecise('branch on unknown')
            return [(s, True), (s.copy(), False)]
        v = s.norm(v)
        if v.is_const():
            return [(s, bool(v.c & 1))]
        if s.cons.ne0(v):
            return [(s, True)]
        out = []
        a = s.assume_ne(v)
        if a is not None:
            b2 = a.assume_ge(v - 1) if a.ge(v) else a
            out.append((b2 if b2 is not None else a, True))
        b = s.assume_eq(v)
        if b is not None:
            out.append((b, False))
        return out

    def on_undef_branch(self, s):
        pass

    def do_switch(self, s, i):
        v = self.val(s, i['cond'])
        w = i['w']
        outs = []
        if not isinstance(v, Lin):
            s = s.copy()
            s.imprecise('switch on unknown')
            return [('goto', c[1], s.copy()) for c in i['cases']] + [('goto', i['default'], s)]
        for s, x in self.nu(s, v, w):
            rest = s
            for c, b in i['cases']:
                k = int(c[2])
                if rest is None:
                    break
                t = rest.assume_eq(x - k)
                if t is not None:
                    outs.append(('goto', b, t))
                rest = rest.assume_ne(x - k) if not rest.eq(x - k) else None
            if rest is not None:
                # exclude by adjacent bounds
                outs.append(('goto', i['default'], rest))
        return outs

    # ---------------------------------------------------------------- instructions
    def step(self, s, f, i):
        op = i['op']
        h = getattr(self, 'i_' + op, None)
        if h is None:
            s = s.copy()
            s.imprecise('instruction ' + op)
            s.env[i['id']] = UNDEF
            return [s]
        return h(s, f, i)

    def setv(self, s, i, v):
        n = s.copy()
        n.env[i['id']] = v
        return n

    def i_alloca(self, s, f, i):
        n = self.val(s, i['ops'][0])
        size = C(i['asz']) if not isinstance(n, Lin) else n.scale(i['asz'])
        o = Obj('alloca', size, i.get('name') or 'tmp', site=s.frame)
        o.aty = i.get('aty')
        s = self.setv(s, i, Ptr(o))
        s.mem[o] = EMPTY
        return [s]

    def i_getelementptr(self, s, f, i):
        out = []
        base = self.res(s, self.val(s, i['base']))
        if not i['ok']:
            s = s.copy()
            s.imprecise('gep')
            return [self.setv(s, i, UNDEF)]
        if not i['idx'] and i['off'] == 0:
            return [self.setv(s, i, base)]
        if isinstance(base, Lin) and base.is_const():
            # null + offset
            off = C(i['off'])
            for v, sc, w in i['idx']:
                x = self.val(s, v)
                if isinstance(x, Lin):
                    off = off + x.scale(sc)
            return [self.setv(s, i, base + off)]
        for s2, p in self.deref_ptr(s, base):
            off = p.off + i['off']
            bad = False
            for v, sc, w in i['idx']:
                x = self.val(s2, v)
                if not isinstance(x, Lin):
                    bad = True
                    continue
                if w < 64:
                    r = self.ns(s2, x, w)
                    if len(r) == 1:
                        s2, x = r[0]
                off = off + x.scale(sc)
            if bad:
                s2 = s2.copy()
                s2.imprecise('gep index unknown')
                off = L(fresh(None, None, 'off'))
            out.append(self.setv(s2, i, Ptr(p.obj, s2.norm(off), p.win)))
        return out

    def i_load(self, s, f, i):
        self.ord = i.get('ord', 'na')
        out = []
        for s2, p in self.deref_ptr(s, self.val(s, i['ops'][0])):
            s2 = self.on_access(s2, p, i['sz'], 'load')
            if s2 is None:
                continue
            if i.get('ord', 'na') != 'na':
                s2 = self.on_atomic(s2, p, 'load', i['ord'], None)
                if s2 is None:
                    continue
            for s3, v in self.load(s2, p, i['sz'], i['ty']):
                if 'rng' in i and isinstance(v, Lin):
                    t = s3.assume_ge(v - i['rng'][0])
                    t = t and t.assume_ge(C(i['rng'][1] - 1) - v)
                    if t is None:
                        continue
                    s3 = t
                s3 = self.setv(s3, i, v)
                s3 = self.on_loaded(s3, p, i['sz'], v)
                out.append(s3)
        return out

    def on_loaded(self, st, p, size, v):
        return st

    def i_store(self, s, f, i):
        self.ord = i.get('ord', 'na')
        out = []
        v = self.res(s, self.val(s, i['ops'][0]))
        if i['vsz'] == 8 and isinstance(v, Lin) and v.t:
            x = self.int_to_ptr(s, v)       # an address stored as an integer (std::atomic<T *>) stays a pointer
            if isinstance(x, Ptr) and not s.norm(x.off).t:
                v = x
        for s2, p in self.deref_ptr(s, self.val(s, i['ops'][1])):
            s2 = self.on_access(s2, p, i['vsz'], 'store', v)
            if s2 is None:
                continue
            if i.get('ord', 'na') != 'na':
                s2 = self.on_atomic(s2, p, 'store', i['ord'], v)
                if s2 is None:
                    continue
            out.append(self.store(s2, p, v, i['vsz']))
        return out

    def i_atomicrmw(self, s, f, i):
        self.ord = i.get('ord', 'na')
        out = []
        arg = self.val(s, i['ops'][1])
        for s2, p in self.deref_ptr(s, self.val(s, i['ops'][0])):
            s2 = self.on_access(s2, p, i['sz'], 'rmw')
            if s2 is None:
                continue
            s2 = self.on_atomic(s2, p, 'rmw-' + i['rmw'], i['ord'], arg)
            if s2 is None:
                continue
            for s3, old in self.load(s2, p, i['sz'], i['ty']):
                k = i['rmw']
                if k == 'xchg':
                    new = arg
                elif isinstance(old, Lin) and isinstance(arg, Lin) and k in ('add', 'sub'):
                    new = old + arg if k == 'add' else old - arg
                else:
                    new = L(fresh(0, M[width(i['ty']) or 64] - 1))
                s3 = self.store(s3, p, new, i['sz'])
                s3.env[i['id']] = old
                s3 = self.on_rmw(s3, p, k, old, new, arg)
                out.append(s3)
        return out

    def on_rmw(self, st, p, k, old, new, arg):
        return st

    def i_cmpxchg(self, s, f, i):
        self.ord = i.get('ord', 'na')
        out = []
        exp, new = self.val(s, i['ops'][1]), self.val(s, i['ops'][2])
        for s2, p in self.deref_ptr(s, self.val(s, i['ops'][0])):
            s2 = self.on_access(s2, p, 4 if i['ty'].startswith('{ i32') else 1 if i['ty'].startswith('{ i8') else 8, 'rmw')
            s2 = s2 and self.on_atomic(s2, p, 'cmpxchg', i['ord'], new)
            if s2 is None:
                continue
            ty = 'ptr' if isinstance(exp, (Ptr, UP)) else 'i32'
            m = re.match(r'\{ (\w+), i1 \}', i['ty'])
            ty = m.group(1) if m else ty
            size = 8 if ty == 'ptr' else int(ty[1:]) // 8
            for s3, old in self.load(s2, p, size, ty):
                for s4, eq in self.compare(s3, 'eq', old, exp, width(ty)):
                    if eq:
                        s5 = self.store(s4, p, new, size)
                        s5.env[i['id']] = Agg([old, ONE])
                        s5 = self.on_rmw(s5, p, 'cas', old, new, exp)
                        out.append(s5)
                        s6 = s4.copy()   # spurious failure of a weak exchange
                        s6.env[i['id']] = Agg([old, ZERO])
                        out.append(s6)
                    else:
                        out.append(self.setv(s4, i, Agg([old, ZERO])))
        return out

    def i_fence(self, s, f, i):
        return [self.on_fence(s, i['ord'])]

    def on_fence(self, st, order):
        return st

    def i_bitcast(self, s, f, i):
        return [self.setv(s, i, self.val(s, i['ops'][0]))]

    i_freeze = i_bitcast
    i_addrspacecast = i_bitcast

    def i_trunc(self, s, f, i):
        v = self.val(s, i['ops'][0])
        w = width(i['ty'])
        if not isinstance(v, Lin):
            return [self.setv(s, i, v if v is UNDEF else UNDEF)]
        v = s.norm(v)
        if v.is_const():
            return [self.setv(s, i, C(v.c % (1 << w) if w == 1 else signed(v.c % (1 << w), w)))]
        lo, hi = s.cons.bounds(v)
        if lo is not None and hi is not None and lo >= -(1 << (w - 1)) and hi < (1 << w):
            return [self.setv(s, i, v)]
        fw = width(i['fty'])
        out = []
        for s2, x in self.nu(s, v, fw):
            b = self.to_bits(s2, x, fw)
            if b is not None:
                out.append(self.setv(s2, i, self.from_bits(s2, b[:w])))
            elif w == 1:
                out.append(self.setv(s2, i, self.divc(s2, x, 2)[1]))
            else:
                out.append(self.setv(s2, i, x))
        return out

    def i_zext(self, s, f, i):
        v = self.val(s, i['ops'][0])
        w = width(i['fty'])
        if not isinstance(v, Lin):
            return [self.setv(s, i, UNDEF)]
        return [self.setv(s2, i, x) for s2, x in self.nu(s, v, w)]

    def i_sext(self, s, f, i):
        v = self.val(s, i['ops'][0])
        w = width(i['fty'])
        if not isinstance(v, Lin):
            return [self.setv(s, i, UNDEF)]
        return [self.setv(s2, i, x) for s2, x in self.ns(s, v, w)]

    def i_ptrtoint(self, s, f, i):
        if self.res(s, self.val(s, i['ops'][0])) is UNDEF:
            return [self.setv(s, i, UNDEF)]
        return [self.setv(s2, i, x) for s2, x in self.ptr_to_int(s, self.val(s, i['ops'][0]))]

    def i_inttoptr(self, s, f, i):
        v = self.val(s, i['ops'][0])
        return [self.setv(s, i, self.int_to_ptr(s, v) if isinstance(v, Lin) else v)]

    def fpop(self, s, f, i):
        return [self.setv(s, i, FP)]

    i_sitofp = i_uitofp = i_fpext = i_fptrunc = i_fadd = i_fsub = i_fmul = i_fdiv = i_fneg = fpop

    def i_fptosi(self, s, f, i):
        return [self.setv(s, i, L(fresh(0, (1 << 63) - 1)))]

    i_fptoui = i_fptosi

    def i_fcmp(self, s, f, i):
        return [self.setv(s, i, L(fresh(0, 1)))]

    def arith(self, s, i):
        a = self.val(s, i['ops'][0])
        b = self.val(s, i['ops'][1])
        w = width(i['ty'])
        if w is None:
            return None
        out = []
        for s2, x in (self.ptr_to_int(s, a) if isinstance(a, (Ptr, UP)) else [(s, a)]):
            for s3, y in (self.ptr_to_int(s2, b) if isinstance(b, (Ptr, UP)) else [(s2, b)]):
                out.append((s3, x, y, w))
        return out

    def binop(self, s, f, i, fn):
        r = self.arith(s, i)
        if r is None:
            return [self.setv(s, i, UNDEF)]
        out = []
        for s2, x, y, w in r:
            if not isinstance(x, Lin) or not isinstance(y, Lin):
                out.append(self.setv(s2, i, UNDEF))
                continue
            for s3, v in fn(s2, x, y, w):
                out.append(self.setv(s3, i, v))
        return out

    def red(self, st, e, w):
        """keep coefficients small (value only matters modulo 2^w)"""
        m = 1 << w
        if abs(e.c) < m << 8 and all(abs(v) < m for _, v in e.t):
            return e
        e2 = st.norm(e)
        if len(e2.t) > 2 and st.ge(e2) and st.ge(C(m - 1) - e2):
            return e2
        h = m >> 1
        r = lambda v: (v + h) % m - h
        return Lin(r(e.c), tuple((s, r(v)) for s, v in e.t if r(v)))

    def on_arith(self, st, op, x, y, r, w):
        return st

    def i_add(self, s, f, i):
        return self.binop(s, f, i, lambda s, x, y, w: [(self.on_arith(s, 'add', x, y, x + y, w), self.red(s, x + y, w))])

    def i_sub(self, s, f, i):
        return self.binop(s, f, i, lambda s, x, y, w: [(self.on_arith(s, 'sub', x, y, x - y, w), self.red(s, x - y, w))])

    def i_mul(self, s, f, i):
        def g(s, x, y, w):
            x, y = s.norm(x), s.norm(y)
            if x.is_const():
                x, y = y, x
            if y.is_const():
                return [(self.on_arith(s, 'mul', x, y, x.scale(y.c), w), self.red(s, x.scale(y.c), w))]
            out = []
            for s2, a in self.nu(s, x, w):
                for s3, b in self.nu(s2, y, w):
                    if repr(a) > repr(b):
                        a, b = b, a
                    out.append((s3, L(ksym(('mul', a, b, w), 0, (1 << w) - 1))))
            return out
        return self.binop(s, f, i, g)

    def _div(self, s, x, y, w, want, sgn):
        out = []
        for s2, a in (self.ns if sgn else self.nu)(s, x, w):
            for s3, b in (self.ns if sgn else self.nu)(s2, y, w):
                b = s3.norm(b)
                if b.is_const() and b.c > 0:
                    if sgn and not s3.ge(a):
                        # split on sign
                        p = s3.assume_ge(a)
                        if p is not None:
                            out.append((p, self.divc(p, a, b.c)[want]))
                        n = s3.assume_ge(-a - 1)
                        if n is not None:
                            q, r = self.divc(n, -a, b.c)
                            out.append((n, -q if want == 0 else -r))
                        continue
                    for s4 in self.divsplit(s3, a, b.c):
                        out.append((s4, self.divc(s4, a, b.c)[want]))
                    continue
                s3 = self.on_div(s3, b)
                if s3 is None:
                    continue
                if want == 0:
                    v = ksym(('udiv', a, b), None if sgn else 0, (1 << w) - 1)
                    if not sgn:
                        v.defs = (('ge', a - L(v)),)
                else:
                    v = ksym(('urem', a, b), None if sgn else 0, (1 << w) - 1)
                    if not sgn:
                        v.defs = (('ge', a - L(v)),)
                        if s3.ge(b - 1):
                            t = s3.assume_ge(b - 1 - L(v))
                            s3 = t if t is not None else s3
                out.append((s3, L(v)))
        return out

    split_div = 0              # decide quotients that have at most so many values

    def divsplit(self, st, a, c):
        if not self.split_div or c < 256:
            return [st]
        a = st.norm(a)
        lo, hi = st.cons.bounds(a)
        if lo is None or lo < 0:
            if not st.ge(a):
                return [st]
            lo = 0
        if hi is None or hi // c - lo // c >= self.split_div:
            hi = (lo // c + self.split_div) * c - 1
            if not st.ge(C(hi) - a):
                return [st]
        if lo // c == hi // c:
            return [st]
        out = []
        for q in range(lo // c, hi // c + 1):
            t = st.assume_ge(a - q * c)
            t = t and t.assume_ge(C(q * c + c - 1) - a)
            if t is not None:
                out.append(t)
        return out

    def on_div(self, st, b):
        return st

    def i_udiv(self, s, f, i):
        return self.binop(s, f, i, lambda s, x, y, w: self._div(s, x, y, w, 0, False))

    def i_urem(self, s, f, i):
        return self.binop(s, f, i, lambda s, x, y, w: self._div(s, x, y, w, 1, False))

    def i_sdiv(self, s, f, i):
        return self.binop(s, f, i, lambda s, x, y, w: self._div(s, x, y, w, 0, True))

    def i_srem(self, s, f, i):
        return self.binop(s, f, i, lambda s, x, y, w: self._div(s, x, y, w, 1, True))

    def i_shl(self, s, f, i):
        def g(s, x, y, w):
            y = s.norm(y)
            if y.is_const():
                if y.c >= w or y.c < 0:
                    s = self.on_shift(s, y, w)
                    return [(s, L(fresh(0, (1 << w) - 1)))]
                # keep exact bits when they can be tracked
                b = self.to_bits(s, x, w)
                if b is not None:
                    return [(s, self.from_bits(s, ([0] * y.c + b)[:w]))]
                return [(s, self.red(s, x.scale(1 << y.c), w))]
            s = self.on_shift(s, y, w)
            if s.norm(x).is_const():
                lo, hi = s.cons.bounds(y)
                if lo is not None and hi is not None and 0 <= lo and hi < w and hi - lo <= 40:
                    out = []
                    for k in range(lo, hi + 1):
                        t = s.assume_eq(y - k)
                        if t is not None:
                            out.append((t, self.red(t, C(s.norm(x).c << k), w)))
                    return out
            v = ksym(('shl', x, y, w), 0, (1 << w) - 1)
            if s.norm(x).is_const() and s.norm(x).c == 1:
                v.defs = (('ge', L(v) - 1), ('ge', L(v) - y - 1))
            return [(s, L(v))]
        return self.binop(s, f, i, g)

    def on_shift(self, st, y, w):
        return st

    def i_lshr(self, s, f, i):
        def g(s, x, y, w):
            y = s.norm(y)
            out = []
            for s2, a in self.nu(s, x, w):
                if y.is_const() and 0 <= y.c < w:
                    for s3 in self.divsplit(s2, a, 1 << y.c):
                        out.append((s3, self.divc(s3, a, 1 << y.c)[0] if y.c else a))
                else:
                    s2 = self.on_shift(s2, y, w)
                    v = ksym(('lshr', a, y), 0, (1 << w) - 1)
                    v.defs = (('ge', a - L(v)),)
                    out.append((s2, L(v)))
            return out
        return self.binop(s, f, i, g)

    def i_ashr(self, s, f, i):
        def g(s, x, y, w):
            y = s.norm(y)
            out = []
            for s2, a in self.ns(s, x, w):
                if y.is_const() and 0 <= y.c < w:
                    out.append((s2, self.divc(s2, a, 1 << y.c)[0] if y.c else a))
                else:
                    out.append((s2, L(ksym(('ashr', a, y), -(1 << (w - 1)), (1 << (w - 1)) - 1))))
            return out
        return self.binop(s, f, i, g)

    def bitop(self, s, x, y, w, kind):
        if w == 1:
            x, y = s.norm(x), s.norm(y)
            if x.is_const():
                x, y = y, x
            if y.is_const():
                k = y.c & 1
                if kind == 'and':
                    return [(s, x if k else ZERO)]
                if kind == 'or':
                    return [(s, ONE if k else x)]
                return [(s, ONE - x if k else x)]
            out = []
            for s2, cx in self.cond(s, x):
                for s3, cy in self.cond(s2, y):
                    r = (cx and cy) if kind == 'and' else (cx or cy) if kind == 'or' else cx != cy
                    out.append((s3, ONE if r else ZERO))
            return out
        out = []
        for s2, a in self.nu(s, x, w):
            for s3, b in self.nu(s2, y, w):
                k = s3.norm(b)
                if kind == 'and' and self.split_div and k.is_const() and k.c & (k.c + 1) == 0:
                    for s4 in self.divsplit(s3, a, k.c + 1):
                        out.append((s4, self.bits2(s4, a, b, w, kind)))
                    continue
                out.append((s3, self.bits2(s3, a, b, w, kind)))
        return out

    def bits2(self, s, a, b, w, kind):
        a, b = s.norm(a), s.norm(b)
        if a.is_const() and b.is_const():
            v = {'and': a.c & b.c, 'or': a.c | b.c, 'xor': a.c ^ b.c}[kind]
            return C(v)
        if a.is_const():
            a, b = b, a
        m = (1 << w) - 1
        if b.is_const():
            if b.c == 0:
                return ZERO if kind == 'and' else a
            if b.c == m:
                if kind == 'and':
                    return a
                if kind == 'or':
                    return C(m)
                return C(m) - a
        A, B = self.to_bits(s, a, w), self.to_bits(s, b, w)
        if A is not None and B is not None:
            r = []
            for x, y in zip(A, B):
                if x == 0 or y == 0:
                    z = 0 if kind == 'and' else (y if x == 0 else x)
                elif kind == 'and' and (x == 1 or y == 1):
                    z = y if x == 1 else x
                elif kind == 'or' and (x == 1 or y == 1):
                    z = 1
                elif x == y:
                    z = 0 if kind == 'xor' else x
                else:
                    z = None
                if z is None:
                    r = None
                    break
                r.append(z)
            if r is not None:
                return self.from_bits(s, r)
        if b.is_const() and kind == 'and':
            if (b.c & (b.c + 1)) == 0:
                return self.divc(s, a, b.c + 1)[1]
            inv = m - b.c
            if (inv & (inv + 1)) == 0:
                return a - self.divc(s, a, inv + 1)[1]
        if repr(a) > repr(b):
            a, b = b, a
        v = ksym((kind, a, b, w), 0, m)
        if kind == 'and':
            v.defs = (('ge', a - L(v)), ('ge', b - L(v)))
        elif kind == 'or':
            v.defs = (('ge', L(v) - a), ('ge', L(v) - b), ('ge', a + b - L(v)))
        return L(v)

    def i_and(self, s, f, i):
        return self.binop(s, f, i, lambda s, x, y, w: self.bitop(s, x, y, w, 'and'))

    def i_or(self, s, f, i):
        return self.binop(s, f, i, lambda s, x, y, w: self.bitop(s, x, y, w, 'or'))

    def i_xor(self, s, f, i):
        return self.binop(s, f, i, lambda s, x, y, w: self.bitop(s, x, y, w, 'xor'))

    def i_extractvalue(self, s, f, i):
        v = self.val(s, i['ops'][0])
        for k in i['ix']:
            v = v.v[k] if isinstance(v, Agg) and k < len(v.v) else UNDEF
        return [self.setv(s, i, v)]

    def i_insertvalue(self, s, f, i):
        a = self.val(s, i['ops'][0])
        v = self.val(s, i['ops'][1])

        def ins(a, ix):
            l = list(a.v) if isinstance(a, Agg) else []
            while len(l) <= ix[0]:
                l.append(UNDEF)
            l[ix[0]] = v if len(ix) == 1 else ins(l[ix[0]], ix[1:])
            return Agg(l)
        return [self.setv(s, i, ins(a, i['ix']))]

    def i_select(self, s, f, i):
        out = []
        for s2, c in self.cond(s, self.val(s, i['ops'][0])):
            out.append(self.setv(s2, i, self.val(s2, i['ops'][1 if c else 2])))
        return out

    # ---------------------------------------------------------------- comparisons
    def i_icmp(self, s, f, i):
        a = self.val(s, i['ops'][0])
        b = self.val(s, i['ops'][1])
        w = width(i['oty'])
        return [self.setv(s2, i, ONE if r else ZERO) for s2, r in self.compare(s, i['pred'], a, b, w)]

    def split(self, s, e, op):
        """decide e op 0 (op in ge, eq): list of (state, bool)"""
        if self.track_cmp:
            n = s.norm(e)
            if n.t:
                self.cmp_log.add(n)
        if op == 'ge':
            if s.ge(e):
                return [(s, True)]
            if s.ge(-e - 1):
                return [(s, False)]
            out = []
            t = s.assume_ge(e)
            if t is not None:
                out.append((t, True))
            t = s.assume_ge(-e - 1)
            if t is not None:
                out.append((t, False))
            return out
        if s.cons.ne0(e):
            return [(s, False)]
        if s.eq(e):
            return [(s, True)]
        out = []
        t = s.assume_eq(e)
        if t is not None:
            out.append((t, True))
        t = s.assume_ne(e)
        if t is not None:
            out.append((t, False))
        return out

    def on_ptr_compare(self, st, a, b, pred):
        return None

    def compare(self, s, pred, a, b, w):
        a, b = self.res(s, a), self.res(s, b)
        ptr = isinstance(a, (Ptr, UP)) or isinstance(b, (Ptr, UP))
        if ptr:
            return self.compare_ptr(s, pred, a, b)
        if a is UNDEF or b is UNDEF or not isinstance(a, Lin) or not isinstance(b, Lin):
            if isinstance(a, Tok) and isinstance(b, Tok) and pred in ('eq', 'ne') and a == b:
                return [(s, pred == 'eq')]
            s = s.copy()
            if a is UNDEF or b is UNDEF:
                self.on_undef_branch(s)
            s.imprecise('compare of unknown')
            return [(s, True), (s.copy(), False)]
        w = w or 64
        if pred in ('eq', 'ne'):
            d = s.norm(a - b)
            m = 1 << w
            if d.is_const():
                r = d.c % m == 0
                return [(s, r if pred == 'eq' else not r)]
            lo, hi = s.cons.bounds(d)
            if lo is not None and hi is not None and -m < lo and hi < m:
                return [(t, r if pred == 'eq' else not r) for t, r in self.split(s, d, 'eq')]
            out = []
            for s2, x in self.nu(s, a, w):
                for s3, y in self.nu(s2, b, w):
                    out += [(t, r if pred == 'eq' else not r) for t, r in self.split(s3, x - y, 'eq')]
            return out
        sg = pred[0] == 's'
        out = []
        for s2, x in self.normw(s, a, w, sg):
            for s3, y in self.normw(s2, b, w, sg):
                k = pred[1:]
                e = {'ge': x - y, 'gt': x - y - 1, 'le': y - x, 'lt': y - x - 1}[k]
                out += self.split(s3, e, 'ge')
        return out

    def compare_ptr(self, s, pred, a, b):
        r = self.on_ptr_compare(s, a, b, pred)
        if r is not None:
            return r
        if isinstance(a, UP) and isinstance(b, UP) and a is b and pred in ('eq', 'ne'):
            return [(s, pred == 'eq')]
        # resolve unknowns against null / each other
        if isinstance(a, UP) and isinstance(b, UP):
            out = []
            t = s.copy()
            t.bind[b] = a
            out.append((t, pred in ('eq', 'ule', 'uge')))
            for s2, x in self.resolve(s, a):
                for s3, y in self.resolve(s2, b):
                    out += self.compare_ptr(s3, pred, x, y)
            return out
        if isinstance(a, UP) or isinstance(b, UP):
            out = []
            for s2, x in self.resolve(s, a):
                for s3, y in self.resolve(s2, b):
                    out += self.compare_ptr(s3, pred, x, y)
            return out
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj is b.obj:
                d = a.off - b.off
                if pred in ('eq', 'ne'):
                    return [(t, r if pred == 'eq' else not r) for t, r in self.split(s, d, 'eq')]
                k = pred[1:]
                e = {'ge': d, 'gt': d - 1, 'le': -d, 'lt': -d - 1}[k]
                return self.split(s, e, 'ge')
            if pred in ('eq', 'ne'):
                return [(s, pred == 'ne')]
            s = s.copy()
            s.imprecise('ordering of unrelated pointers')
            return [(s, True), (s.copy(), False)]
        # pointer vs integer constant
        p, n = (a, b) if isinstance(a, Ptr) else (b, a)
        if isinstance(n, Lin):
            n = s.norm(n)
            if pred in ('eq', 'ne'):
                if n.is_const():
                    return [(s, pred == 'ne')]
            elif n.is_const() and n.c == 0:
                gt = isinstance(a, Ptr)
                r = {'ugt': gt, 'uge': gt, 'ult': not gt, 'ule': not gt}.get(pred)
                if r is not None:
                    return [(s, r)]
        s = s.copy()
        s.imprecise('pointer/integer comparison')
        return [(s, True), (s.copy(), False)]

    # ---------------------------------------------------------------- calls
    def i_call(self, s, f, i):
        self.ord = 'na'
        ce = i['callee']
        args = [self.res(s, self.val(s, a)) for a in i['args']]
        if ce[0] == 'asm':
            return [self.setv(s, i, UNDEF)]
        if ce[0] == 'g':
            tgts = [(s, self.p.funcs.get(ce[1]))]
        else:
            v = self.res(s, self.val(s, ce))
            if isinstance(v, Ptr) and v.obj.kind == 'fn':
                tgts = [(s, v.obj.func)]
            else:
                r = self.on_indirect(s, v, args, i)
                out = []
                for s2, x in r:
                    out.append(self.setv(s2, i, x))
                return out
        out = []
        for s2, fn in tgts:
            for s3, x in self.dispatch(s2, fn, args, i):
                if s3 is None:
                    continue
                self.cur = (f, i)
                out.append(self.setv(s3, i, x) if i['ty'] != 'void' else s3)
        return out

    i_invoke = i_call

    def on_indirect(self, s, v, args, i):
        s = s.copy()
        s.imprecise('indirect call of %r' % (v,))
        return [(s, self.unk_ret(i['ty']))]

    def unk_ret(self, ty):
        if ty == 'void':
            return None
        if ty == 'ptr':
            self.uid += 1
            return up(('ret', self.uid))
        w = width(ty)
        if w is None:
            return UNDEF
        return L(fresh(0, (1 << w) - 1))

    def on_call(self, s, fn, args, i):
        """spec hook; None = not handled"""
        return None

    def dispatch(self, s, fn, args, i):
        r = self.on_call(s, fn, args, i)
        if r is not None:
            return r
        m = self.model(fn)
        if m is not None:
            r = m(self, s, args, i, fn)
            if r is not None:
                return r
        if fn.has_body:
            return self.call(s, fn, args, i)
        if i.get('noreturn') or fn.d.get('noreturn'):
            return []
        self.unmodelled.add(fn.dem)
        s = s.copy()
        s.imprecise('external ' + fn.dem)
        for a in args:
            if isinstance(a, Ptr) and a.obj.kind not in ('fn',) and not a.obj.const:
                s = self.havoc(s, a.obj)
        return [(s, self.unk_ret(i['ty']))]

    def model(self, fn):
        return None

    # ---------------------------------------------------------------- loops
    def run_loop(self, f, loop, pred, st):
        self.stats['loops'] += 1
        st = self.do_phis(f, loop[0], pred, st)
        header = loop[0]
        phis = [i['id'] for i in f.blocks[header] if i['op'] == 'phi']
        outer = set(st.env)

        def run(s):
            s = self.hook_loop_head(s, f, header)
            if s is None:
                return [], []
            outs = self.run_blocks(f, header, None, s, loop, True)
            backs, exits = [], []
            for o in outs:
                if o[0] == 'back':
                    b = self.do_phis(f, header, o[1], o[2])
                    b = b if b is not o[2] else b.copy()
                    b.env = {k: v for k, v in b.env.items() if k in outer}
                    b = self.hook_loop_head(b, f, header)
                    if b is not None:
                        backs.append(b)
                else:
                    exits.append(o)
            return backs, exits
        st = self.hook_loop_head(st, f, header)
        # 1. decided loops are unrolled
        r = self.unroll(st, run)
        if r is not None:
            return r
        return self.fix([st], run, '%s@%s' % (f.dem, self.hdrline(f, header)))

    def hdrline(self, f, h):
        for i in f.blocks[h]:
            if 'line' in i:
                return i['line']
        return '?'

    def hook_loop_head(self, st, f, header):
        return st

    def unroll(self, st, run):
        cur = [st]
        acc = []
        limit = self.force_unroll or self.max_unroll
        vs = []
        sav_v = self.viol
        steps0 = self.steps
        for k in range(limit):
            nxt = []
            for s in cur:
                self.viol = []
                sav = self.cmp_log
                self.cmp_log = set()
                backs, exits = run(s)
                self.cmp_log = sav | self.cmp_log
                vs += self.viol
                self.viol = sav_v
                if backs and any(e[0] == 'exit' for e in exits) and not self.force_unroll and k + 1 >= self.speculate:
                    return None
                acc += exits
                nxt += backs
            if not nxt:
                self.viol = sav_v
                self.viol += vs
                return acc
            if len(nxt) > (self.unroll_states if self.force_unroll or k + 1 < self.speculate else 6):
                return None
            if k >= 3 and not self.force_unroll and len(nxt) > 1:
                return None
            cur = nxt
        return None

    def fix(self, entries, run, label, pkey=None):
        groups = []
        work = []
        for s in entries:
            self.absorb(groups, s, work, pkey)
        rounds = 0
        while work:
            g = work.pop()
            g.queued = False
            rounds += 1
            if rounds > self.max_rounds:
                raise Budget('fixpoint ' + label)
            sv, sc = self.viol, self.cmp_log
            self.viol, self.cmp_log = [], set()
            backs, exits = run(g.state)
            g.viol, cl = self.viol, self.cmp_log
            self.viol, self.cmp_log = sv, sc | cl
            g.exits = exits
            if g.runs < 2:
                g.templates |= cl
            g.runs += 1
            if self.dbg:
                print('   ' * self.depth, 'fix', label, 'group', groups.index(g), 'runs', g.runs, 'backs', len(backs), 'exits', len(exits), 'locs', len(g.locs))
            for b in backs:
                self.absorb(groups, b, work, pkey)
            if len(groups) > self.max_groups:
                raise Budget('too many partitions in ' + label)
            if g.runs == 2 and not g.queued and g.locs:
                # try to strengthen with guard templates
                if self.strengthen(g, backs):
                    g.queued = True
                    work.append(g)
        out = []
        for g in groups:
            out += g.exits
            self.viol += g.viol
        return out

    def strengthen(self, g, backs):
        return False

    def absorb(self, groups, b, work, pkey):
        k = pkey(b) if pkey else None
        best = None
        for g in groups:
            if g.pk != k:
                continue
            try:
                r = self.merge(g, b)
            except ShapeMismatch as e:
                if self.dbg:
                    print('   ' * self.depth, '  mismatch', e)
                continue
            if r and not g.queued:
                g.queued = True
                work.append(g)
            return
        g = Group(b, k)
        groups.append(g)
        g.queued = True
        work.append(g)

    def merge(self, g, b):
        """try to absorb header state b in group g.  Returns True if g changed."""
        z = Zip(self, g, g.state, b)
        ns = z.zip_state()
        amap = Ren(self, {s: a for s, a in g.locs.items()}, g.anchor_objs)
        newlocs = {}
        for gs, la, lb in z.new:
            newlocs[gs.id] = la
        amap_new = Ren(self, dict(list(g.locs.items()) + list(newlocs.items())),
                       dict(list(g.anchor_objs.items()) + [(n, a) for n, a, _ in z.newobjs]))
        bm = dict(z.smap)
        for gs, la, lb in z.new:
            bm[gs.id] = lb
        bmap = Ren(self, bm, dict(list(z.omap.items()) + [(n, x) for n, _, x in z.newobjs]))
        changed = bool(z.new or z.newobjs or z.dropped)
        locs = dict(g.locs)
        locs.update(newlocs)
        order = sorted(locs)
        # affine hull rows
        bc = b.cons
        cols = {}
        rows = []
        for idx, s in enumerate(order):
            if s not in bm:
                d = None
            else:
                d = bc.norm(bm[s] - locs[s])
            if d is None:
                cols.setdefault(('missing', s), {})[s] = 1
                continue
            if d.c:
                cols.setdefault('c', {})[s] = d.c
            for q, v in d.t:
                cols.setdefault(q, {})[s] = v
        newrows = list(cols.values())
        allrows = g.rows + newrows
        # candidate linear facts
        cands = set(g.cands)
        if z.new or z.newobjs or not g.made or g.tries < 4:
            g.tries += 1
            cands |= self.gen_cands(g, z, b, newlocs, amap_new, bm)
            g.made = True
        else:
            # delayed widening of the bounds of a value
            for s in g.locs:
                if s in bm and g.delayed.get(s, 0) < 2:
                    lb = b.cons.norm(bm[s])
                    if lb.single() == s:
                        continue
                    lo, hi = (lb.c, lb.c) if not lb.t else b.cons.bounds(lb)
                    new = {('ge', Lin(-lo, ((s, 1),)))} if lo is not None else set()
                    if hi is not None:
                        new.add(('ge', Lin(hi, ((s, -1),))))
                    if not new <= cands:
                        g.delayed[s] = g.delayed.get(s, 0) + 1
                        cands |= new
        for t in g.templates:
            for tt in self.tmpl(t, locs, g, z):
                if tt not in g.rejected:
                    cands.add(tt)
        anchor = g.anchor
        keep = set()
        cands = {c for c in cands if c not in g.rejected}
        for c in cands:
            kind, e = c
            try:
                ea = amap_new.lin(e)
                eb = bmap.lin(e)
            except ShapeMismatch:
                g.rejected.add(c)
                continue
            if self.holds(anchor, kind, ea) and self.holds(b, kind, eb):
                keep.add(c)
            else:
                g.rejected.add(c)
        # equalities
        rws = [[r.get(s, 0) for s in order] for r in allrows]
        eqs = []
        for n in nullspace(rws, len(order)):
            e = ZERO
            for c, s in zip(n, order):
                e = e + (Lin(0, ((s, 1),)) - locs[s]).scale(c)
            eqs.append(e)
        key = (frozenset(keep), frozenset(eqs))
        if key != g.key:
            changed = True
        if not changed:
            return False
        c = Cons()
        for e in eqs:
            c2 = c.add_eq(e)
            if c2 is None:
                raise ShapeMismatch('inconsistent equalities')
            c = c2
        for kind, e in sorted(keep, key=lambda x: (x[0], repr(x[1]))):
            c2 = c.add_ge(e) if kind == 'ge' else c.add_eq(e) if kind == 'eq' else c.add_ne(e)
            if c2 is not None:
                c = c2
        ns.cons = c
        ns.trace = g.anchor.trace
        ns.imp = tuple(dict.fromkeys(g.state.imp + b.imp))
        ns.frame = g.anchor.frame
        g.state = ns
        g.locs = locs
        g.anchor_objs = dict(list(g.anchor_objs.items()) + [(n, a) for n, a, _ in z.newobjs])
        # prune rows to a basis-size list
        g.rows = allrows if len(allrows) < 60 else [dict(zip(order, r)) for r in rws[:60]]
        g.cands = keep
        g.key = key
        return True

    def holds(self, st, kind, e):
        if kind == 'ge':
            return st.cons.ge(e)
        if kind == 'eq':
            return st.cons.eq0(e)
        return st.cons.ne0(e)

    def tmpl(self, t, locs, g, z):
        ok = all(s in locs or s < g.birth for s in t.syms())
        if not ok or not any(s in locs for s in t.syms()):
            return []
        out = []
        for e in (t, -t, t - 1, -t - 1, t + 1, -t + 1):
            out.append(('ge', e))
        return out

    def gen_cands(self, g, z, b, newlocs, amap, bm):
        cands = set()
        # facts of the other side about the values that are being generalised
        invb = {}
        for s in list(g.locs) + list(newlocs):
            lb = bm.get(s)
            if lb is None:
                continue
            lb = b.cons.norm(lb)
            G_ = Lin(0, ((s, 1),))
            if lb.is_const():
                cands.add(('ge', G_ - lb))
                cands.add(('ge', lb - G_))
                continue
            if len(lb.t) == 1 and lb.t[0][1] == 1:
                invb.setdefault(lb.t[0][0], []).append((s, lb.c))
            if g.bounded.get(s, 0) < 6 or len(lb.t) > 1:
                g.bounded[s] = g.bounded.get(s, 0) + 1
                lo, hi = b.cons.bounds(lb)
                if lo is not None:
                    cands.add(('ge', Lin(-lo, ((s, 1),))))
                if hi is not None:
                    cands.add(('ge', Lin(hi, ((s, -1),))))
        # facts that bound the value as a whole
        for st_, vals in ((b, bm), (g.anchor, dict(list(g.locs.items()) + list(newlocs.items())))):
            many = []
            for s, x in vals.items():
                x = st_.cons.norm(x)
                if len(x.t) > 1:
                    many.append((s, x))
            if many:
                for kind, e in list(st_.cons.facts()):
                    if kind == 'ge' and len(e.t) > 1:
                        for s, x in many:
                            if len(x.t) <= len(e.t) <= len(x.t) + 1:
                                for d, sg in ((e + x, -1), (e - x, 1)):
                                    if len(d.t) <= len(e.t) - len(x.t):
                                        cands.add(('ge', d + Lin(0, ((s, sg),))))
        if invb:
            for kind, e in list(b.cons.facts()):
                for q in e.syms():
                    for s, c in invb.get(q, ()):
                        e2 = e.subst({q: Lin(-c, ((s, 1),))})
                        if not any(x in invb for x in e2.syms()):
                            cands.add((kind, e2))
        # facts of the anchor, as they are and with anchor values abstracted
        inv = {}
        allloc = dict(g.locs)
        allloc.update(newlocs)
        for s, la in allloc.items():
            q = g.anchor.cons.norm(la).single()
            if q is not None:
                inv.setdefault(q, []).append(s)
            G_ = Lin(0, ((s, 1),))
            cands.add(('ge', G_ - la))
            cands.add(('ge', la - G_))
            cands.add(('ge', G_))
            if z.sizes.get(s) is not None:
                cands.add(('ge', z.sizes[s] - G_))
        cands.update(z.extra)
        objr = {a: n for n, a, _ in z.newobjs}
        for n, a in g.anchor_objs.items():
            objr[a] = n
        ro = Ren(self, {}, objr) if objr else None
        for kind, e in list(g.anchor.cons.facts()) + list(g.state.cons.facts()):
            cands.add((kind, e))
            es = [e]
            if ro is not None:
                try:
                    e2 = ro.lin(e)
                    if e2 != e:
                        es.append(e2)
                        cands.add((kind, e2))
                except ShapeMismatch:
                    pass
            for x in es:
                for q in x.syms():
                    for s in inv.get(q, ()):
                        cands.add((kind, x.subst({q: Lin(0, ((s, 1),))})))
        for q, ss in inv.items():
            y = SYMS[q]
            for s in ss:
                if y.lo is not None:
                    cands.add(('ge', Lin(-y.lo, ((s, 1),))))
                if y.hi is not None:
                    cands.add(('ge', Lin(y.hi, ((s, -1),))))
        return cands


def hash_val(v):
    return hash(v) if v is not None else 0


class Group:
    def __init__(self, st, pk):
        self.anchor = st
        self.state = st
        self.pk = pk
        self.locs = {}          # generic symbol id -> anchor Lin
        self.anchor_objs = {}   # generic object -> anchor object
        self.rows = []
        self.cands = set()
        self.rejected = set()
        self.templates = set()
        self.key = None
        self.made = False
        self.tries = 0
        self.exits = []
        self.viol = []
        self.queued = False
        self.runs = 0
        self.birth = len(SYMS)
        self.delayed = {}
        self.bounded = {}       # symbol -> how often it was given bounds from a new state


class Ren:
    """Renaming of symbols (to Lins) and objects (to objects), applied through keys."""

    def __init__(self, eng, smap, omap):
        self.e = eng
        self.s = smap
        self.o = omap
        self.hit = frozenset([('s', k) for k in smap] + [('o', k.id) for k in omap])
        self.memo = {}

    def lin(self, l):
        if not self.hit:
            return l
        r = Lin(l.c)
        for s, v in l.t:
            r = r + self.sym(s).scale(v)
        return r

    def sym(self, s):
        if s in self.s:
            return self.s[s]
        y = SYMS[s]
        if not (y.objs & self.hit):
            return Lin(0, ((s, 1),))
        if s in self.memo:
            return self.memo[s]
        k = y.key
        if k[0] == 'slice':
            b = self.sym(k[1])
            q = b.single()
            if q is None:
                raise ShapeMismatch('slice')
            r = L(ksym(('slice', q, k[2], k[3]), y.lo, y.hi))
        else:
            nk = self.key(k)
            n = ksym(nk, y.lo, y.hi, y.name)
            if not n.defs and y.defs:
                self.memo[s] = L(n)
                n.defs = tuple((kd, self.lin(d)) for kd, d in y.defs)
            r = L(n)
        self.memo[s] = r
        return r

    def key(self, k):
        if isinstance(k, tuple):
            return tuple(self.key(x) for x in k)
        if isinstance(k, Lin):
            return self.lin(k)
        if isinstance(k, Obj):
            return self.obj(k)
        if isinstance(k, UP):
            return self.up(k)
        if isinstance(k, Ptr):
            return Ptr(self.obj(k.obj), self.lin(k.off))
        if isinstance(k, Str):
            return Str(self.obj(k.data), self.lin(k.len))
        if isinstance(k, Agg):
            return Agg(self.key(x) for x in k.v)
        if isinstance(k, Tok):
            return Tok(k.kind, *[self.key(x) for x in k.a])
        return k

    def up(self, u):
        if u.deps & self.hit:
            return up(self.key(u.key), u.hint)
        return u

    def obj(self, o):
        if o in self.o:
            return self.o[o]
        if not (o.deps & self.hit) or o.key is None:
            return o
        nk = self.key(o.key)
        if nk[0] == 'deref':
            return self.e.lazy(nk[1])
        if nk[0] == 'strdata':
            return self.e.init_string(None, nk[1], nk[2]).data
        return o


def st_rel_dis(e, st, x, y):
    return e.rel(st, x[1], x[2].c, y[1], y[2]) == 'dis'


class Zip:
    def __init__(self, eng, g, A, B):
        self.e = eng
        self.g = g
        self.A = A
        self.B = B
        self.smap = {}
        self.new = []
        self.omap = {}
        self.ident = set()
        self.newobjs = []
        self.nmap = {}
        self.dropped = False
        self.todo = []
        self.sizes = {}
        self.extra = []

    def lin(self, a, b, what=''):
        s = a.single()
        if s is not None and s in self.g.locs:
            if s in self.smap and self.smap[s] != b:
                raise ShapeMismatch('loc reuse')
            self.smap[s] = b
            return a
        if a == b:
            return a
        na, nb = self.A.cons.norm(a), self.B.cons.norm(b)
        if na == nb and not any(q in self.g.locs for q in na.syms()):
            return na
        for c in (b, nb, a):
            if c.t and not any(q in self.g.locs for q in c.syms()) and self.A.eq(a - c) and self.B.eq(b - c):
                return c
        for gs, la, lb in self.new:
            if la == a and lb == b and False:
                return L(gs)
        if any(q in self.g.locs for q in a.syms()):
            # value expressed over generic symbols: anchor value is its image
            anchor = self.g.anchor.cons.norm(a.subst(self.g.locs))
        else:
            anchor = self.g.anchor.cons.norm(a)
        gs = fresh(None, None, 'w' + what)
        self.new.append((gs, anchor, b))
        return L(gs)

    def obj(self, a, b):
        if a is b and a not in self.g.anchor_objs:
            if a.kind == 'heap' and a not in self.ident:
                if any(x is a or y is a for x, y in self.nmap):
                    raise ShapeMismatch('object pairing')
                self.ident.add(a)
            return a
        if a in self.g.anchor_objs:
            if self.omap.get(a, b) is not b:
                raise ShapeMismatch('generic object used for two objects')
            if a not in self.omap:
                self.omap[a] = b
                self.todo.append((a, a, b))
            return a
        if (a, b) in self.nmap:
            return self.nmap[(a, b)]
        if a.root or b.root or a.kind != b.kind or a.cls != b.cls or a.kind in ('global', 'fn', 'alloca'):
            raise ShapeMismatch('objects %r %r' % (a, b))
        if a.kind == 'heap' and a.site != b.site and not (a.size is not None and a.size == b.size and getattr(a, 'how', 0) == getattr(b, 'how', 1)):
            raise ShapeMismatch('heap sites')
        if not self.e.hook_mergeable(a, b):
            raise ShapeMismatch('objects %r %r' % (a, b))
        if a in self.ident or b in self.ident:
            raise ShapeMismatch('object pairing')
        for x, y in self.nmap:
            if x is a or y is b:
                raise ShapeMismatch('object pairing')
        n = Obj(a.kind, a.size if a.size == b.size else None, a.name.split('~')[0] + '~', cls=a.cls, align=a.align, site=a.site)
        for k, v in a.__dict__.items():
            if k not in n.__dict__ and (k in ('role', 'aty') or (isinstance(v, (bool, str)) and b.__dict__.get(k) == v)):
                setattr(n, k, v)
        self.nmap[(a, b)] = n
        self.newobjs.append((n, a, b))
        self.todo.append((n, a, b))
        if a.size is not None and b.size is not None and a.size != b.size:
            n.size = self.lin(a.size, b.size, 'size')
        return n

    def val(self, a, b, what=''):
        e = self.e
        a, b = e.res(self.A, a), e.res(self.B, b)
        if a is b:
            if isinstance(a, Lin):
                return self.lin(a, b, what)
            if isinstance(a, (Ptr, Str)):
                pass
            elif not isinstance(a, (tuple, Agg, Tok, Obj, dict)):
                return a
        if isinstance(a, Lin) and isinstance(b, Lin):
            return self.lin(a, b, what)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            o = self.obj(a.obj, b.obj)
            n = len(self.new)
            off = self.lin(a.off, b.off, what)
            if len(self.new) > n and o.size is not None:
                self.sizes[self.new[-1][0].id] = o.size
            win = None
            if a.win is not None and b.win is not None:
                win = (self.lin(a.win[0], b.win[0]), self.lin(a.win[1], b.win[1]))
            return Ptr(o, off, win)
        if isinstance(a, UP) and isinstance(b, UP):
            if a is b:
                return a
            if a.key[0] == 'generic' and a.key[2] is self.g:
                return a
            # structural renaming through known objects?
            u = up(('generic', len(self.new) + 1000 * len(SYMS), self.g), a.hint)
            self.dropped = True
            return u
        if isinstance(a, Agg) and isinstance(b, Agg) and len(a.v) == len(b.v):
            return Agg(self.val(x, y, what) for x, y in zip(a.v, b.v))
        if isinstance(a, Str) and isinstance(b, Str):
            return Str(self.obj(a.data, b.data), self.lin(a.len, b.len, what))
        if isinstance(a, Tok) and isinstance(b, Tok) and a.kind == b.kind and len(a.a) == len(b.a):
            return Tok(a.kind, *[self.val(x, y, what) for x, y in zip(a.a, b.a)])
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                raise ShapeMismatch('tuple length %s' % what)
            return tuple(self.val(x, y, what) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            if set(a) != set(b):
                raise ShapeMismatch('dict keys %s' % what)
            return {k: self.val(a[k], b[k], what) for k in a}
        if isinstance(a, Obj) and isinstance(b, Obj):
            return self.obj(a, b)
        if a is UNDEF or b is UNDEF:
            if a is b:
                return a
            if self.e.undef_joins:
                return UNDEF
            raise ShapeMismatch('undef %s' % what)
        if type(a) is type(b) and a == b:
            return a
        raise ShapeMismatch('values %s: %r / %r' % (what, a, b))

    def log(self, o, oa, ob, la, lb):
        """zip two write logs"""
        e = self.e
        if len(la) != len(lb) or any(x[0] != y[0] for x, y in zip(la, lb)):
            la, lb = self.align(oa, ob, la, lb)
        out = []
        for x, y in zip(la, lb):
            if x[0] != y[0]:
                raise ShapeMismatch('log kinds of %r' % o)
            off = self.lin(x[1], y[1], 'off')
            ln = self.lin(x[2], y[2], 'len')
            if x[0] != 'v' and (off.t or ln.t):
                # where a written range ends: before the next cell at a fixed place
                ex, ey = x[1] + x[2], y[1] + y[2]
                for k in sorted({w[1].c for w in la if w[0] == 'v' and not w[1].t} | ({o.size.c} if o.size is not None and o.size.is_const() else set())):
                    if self.A.ge(C(k) - ex) and self.B.ge(C(k) - ey):
                        self.extra.append(("ge", C(k) - off - ln))
                        break
            if x[0] == 'v':
                if x[1].is_const() and y[1].is_const() and x[1] != y[1]:
                    raise ShapeMismatch('log offsets')
                out.append(('v', off, ln, self.val(x[3], y[3], '%s+%r' % (o.name, x[1]))))
            elif x[0] == 'c':
                try:
                    src = self.obj(x[3], y[3])
                except ShapeMismatch:
                    e.uid += 1
                    out.append(('u', off, ln, ('forget', id(self.g), e.uid)))
                    continue
                out.append(('c', off, ln, src, self.lin(x[4], y[4], 'src')))
            elif x[0] == 's':
                out.append(('s', off, ln, self.lin(x[3], y[3], 'byte')))
            else:
                if x[3] != y[3]:
                    e.uid += 1
                    out.append(('u', off, ln, ('w', id(self.g), x[3])))
                else:
                    out.append(('u', off, ln, x[3]))
        return tuple(out)

    def align(self, oa, ob, la, lb):
        """make two logs comparable by materialising initial values at constant cells"""
        def consts(l):
            return all(x[0] == 'v' and x[1].is_const() and x[2].is_const() for x in l)
        if consts(la) and consts(lb):
            ka = {(x[1].c, x[2].c): x for x in la}
            kb = {(x[1].c, x[2].c): x for x in lb}
            ra, rb = [], []
            for k in sorted(set(ka) | set(kb)):
                x, y = ka.get(k), kb.get(k)
                if x is None:
                    x = self.mat(self.A, oa, k, y[3])
                if y is None:
                    y = self.mat(self.B, ob, k, x[3])
                if x is None or y is None:
                    continue
                ra.append(x)
                rb.append(y)
            return tuple(ra), tuple(rb)
        # cells at fixed places that nothing else in the log touches commute with the rest
        ia, da = self.independent(self.A, la)
        ib, db = self.independent(self.B, lb)
        both = set(ia) & set(ib)
        for k in list(ia):
            if k not in both and not self.clear(self.B, k, db):
                da = [x for x in la if x is ia[k] or x in da]
                del ia[k]
        for k in list(ib):
            if k not in both and not self.clear(self.A, k, da):
                db = [x for x in lb if x is ib[k] or x in db]
                del ib[k]
        ra, rb = [], []
        for k in sorted(set(ia) | set(ib)):
            x, y = ia.get(k), ib.get(k)
            x = x or self.mat(self.A, oa, k, y[3])
            y = y or self.mat(self.B, ob, k, x[3])
            if x is None or y is None:
                # forget the cell on both sides
                self.e.uid += 1
                x = y = ('u', C(k[0]), C(k[1]), ('forget', oa.id, k))
            ra.append(x)
            rb.append(y)
        if len(da) == len(db) and all(x[0] == y[0] and (x[0] != 'c' or x[3] is y[3]) for x, y in zip(da, db)):
            return tuple(ra + da), tuple(rb + db)
        # keep the most recent entries that correspond, forget older ones
        ea, eb = [x for x in da if x[0] != 'u'], [x for x in db if x[0] != 'u']
        sa, sb = [], []
        i, j = len(ea) - 1, len(eb) - 1
        while i >= 0 and j >= 0 and ea[i][0] == eb[j][0] and (ea[i][0] != 'c' or ea[i][3] is eb[j][3]):
            sa.append(ea[i])
            sb.append(eb[j])
            i -= 1
            j -= 1
        if not ea or not eb:
            # an entry of length zero changes nothing
            for x in (ea or eb)[-1:]:
                y = self.e.hook_pad(self.A if not ea else self.B, x)
                if y is not None:
                    (sa if not ea else sb).append(y)
                    (sb if not ea else sa).append(x)
        # what is forgotten: the gap between the independent cells around the dropped entries
        lo, hi = ZERO, oa.size if oa.size is not None else C(1 << 62)
        if oa.size is not None and ob.size != oa.size:
            raise ShapeMismatch('sizes of %r' % oa)
        for k in sorted(set(ia) | set(ib)):
            x = C(k[0] + k[1])
            if all(st.ge(d[1] - x) for st, dd in ((self.A, da), (self.B, db)) for d in dd):
                lo = x
        for k in sorted(set(ia) | set(ib), reverse=True):
            x = C(k[0])
            if all(st.ge(x - d[1] - d[2]) for st, dd in ((self.A, da), (self.B, db)) for d in dd):
                hi = x
        if any(not (k[0] + k[1] <= lo.c or hi.is_const() and k[0] >= hi.c) for k in set(ia) | set(ib)):
            raise ShapeMismatch('logs of %r' % oa)
        if not sa and (ea or eb) and not self.e.may_forget(oa):
            raise ShapeMismatch('logs of %r' % oa)
        self.e.uid += 1
        u = ('u', lo, hi - lo, ('forget', oa.id, self.e.uid))
        return tuple(ra + [u] + sa[::-1]), tuple(rb + [u] + sb[::-1])

    def independent(self, st, log):
        ind, dep = {}, []
        for n, x in enumerate(log):
            if x[0] == 'v' and x[1].is_const() and x[2].is_const() and \
                    all(m == n or st_rel_dis(self.e, st, x, y) for m, y in enumerate(log)):
                ind[(x[1].c, x[2].c)] = x
            else:
                dep.append(x)
        return ind, dep

    def clear(self, st, k, dep):
        x = ('v', C(k[0]), C(k[1]))
        return all(st_rel_dis(self.e, st, x, y) for y in dep)

    def mat(self, st, o, k, like):
        ty = 'ptr' if isinstance(like, (Ptr, UP)) else 'string' if isinstance(like, Str) else 'i%d' % (k[1] * 8)
        if isinstance(like, Lin) and k[1] == 8 and like == ZERO:
            ty = 'ptr?'
        if isinstance(like, Tok):
            return None if True else None
        if o.kind in ('alloca', 'heap'):
            if self.e.undef_joins:
                return ('v', C(k[0]), C(k[1]), UNDEF)
            return ('v', C(k[0]), C(k[1]), UNDEF)
        if ty == 'ptr?':
            u = up(('initp', o, C(k[0])))
            if u in st.bind:
                return ('v', C(k[0]), C(k[1]), st.bind[u])
            ty = 'i64'
        r = self.e.init_load(st, o, C(k[0]), k[1], ty)
        if len(r) != 1:
            raise ShapeMismatch('materialise')
        return ('v', C(k[0]), C(k[1]), r[0][1])

    def zip_state(self):
        A, B = self.A, self.B
        n = State()
        for k in A.env:
            if k not in B.env:
                continue
            n.env[k] = self.val(A.env[k], B.env[k], 'v%s' % k)
        gk = set(A.ghost) | set(B.ghost)
        facts = [k for k in gk if isinstance(k, tuple)]
        for k in gk:
            if isinstance(k, tuple):
                continue
            n.ghost[k] = self.val(A.ghost.get(k), B.ghost.get(k), 'ghost.%s' % (k,))
        done = set()

        def one(o, oa, ob):
            xa, xb = A.mem.get(oa, EMPTY), B.mem.get(ob, EMPTY)
            if xa.alive != xb.alive:
                raise ShapeMismatch('liveness of %r' % o)
            if xa is xb and not xa.log:
                lg = xa.log
            else:
                lg = self.log(o, oa, ob, xa.log, xb.log)
            if lg or not xa.alive or o.kind in ('alloca', 'heap'):
                n.mem[o] = OS(lg, xa.alive)
        late = []
        for o in list(A.mem):
            if o in B.mem or o.kind in ('global',) or o.root or o.kind == 'alloca':
                if o in self.g.anchor_objs:
                    continue
                if o.kind == 'lazy' and not o.root and any(o is a for _, a, _ in self.newobjs):
                    continue
                if o.kind == 'heap':
                    late.append(o)
                    continue
                one(o, o, o)
                done.add(o)
        for o in list(B.mem):
            if o not in A.mem and (o.root or o.kind == 'global' or (o.kind == 'lazy' and o.deps <= self.rootdeps())):
                one(o, o, o)
        while self.todo:
            o, a, b = self.todo.pop()
            one(o, a, b)
        for o in late:
            if o not in self.g.anchor_objs and not any(o is a for _, a, _ in self.newobjs):
                one(o, o, o)
                while self.todo:
                    one(*self.todo.pop())
        # derived facts (ghosts keyed by what they are about) survive only where both sides agree
        rb = Ren(self.e, self.smap, dict(list(self.omap.items()) + [(a, y) for _, a, y in self.newobjs]))
        rn = Ren(self.e, {}, {a: x for x, a, _ in self.newobjs})
        for k in facts:
            if k not in A.ghost:
                continue
            try:
                kb = rb.key(k)
                if kb in B.ghost:
                    n.ghost[rn.key(k)] = self.val(A.ghost[k], B.ghost[kb], 'fact')
                    continue
            except ShapeMismatch:
                pass
            self.dropped = True
        # bindings known on both sides
        for u, v in A.bind.items():
            w = B.bind.get(u)
            if w is not None and w == v:
                n.bind[u] = v
            elif w is None or w != v:
                if u.deps & frozenset(('o', o.id) for o in self.g.anchor_objs):
                    # about a generic object: check the renamed pointer
                    r = Ren(self.e, self.smap, self.omap)
                    w2 = B.bind.get(r.up(u))
                    if w2 is not None and r.key(v) == w2:
                        n.bind[u] = v
                        continue
                if u in A.bind and self.g.key is not None:
                    self.dropped = True
        if self.newobjs:
            # facts about the paired objects
            ra = {a: x for x, a, _ in self.newobjs}
            rb = {y: x for x, _, y in self.newobjs}
            RA, RB = Ren(self.e, {}, ra), Ren(self.e, {}, rb)
            bb = {RB.up(u): RB.key(v) for u, v in B.bind.items() if u.deps & RB.hit}
            for u, v in A.bind.items():
                if u.deps & RA.hit:
                    u2, v2 = RA.up(u), RA.key(v)
                    if bb.get(u2) == v2:
                        n.bind[u2] = v2
        return n

    def rootdeps(self):
        return frozenset(d for o in self.A.mem for d in o.deps) | frozenset(d for o in self.A.mem for d in [('o', o.id)])


Engine.undef_joins = True


def _hook_pad(self, st, x):
    return ('c', x[1], ZERO, x[3], x[4]) if x[0] == 'c' else None


def _may_forget(self, o):
    return True


Engine.hook_pad = _hook_pad
Engine.may_forget = _may_forget


def _hook_mergeable(self, a, b):
    return True


Engine.hook_mergeable = _hook_mergeable
