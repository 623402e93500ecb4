"""Linear expressions over integer symbols and the linear-constraint abstract domain
(equalities in solved form + inequalities, entailment by Gaussian/Fourier-Motzkin elimination
with integer tightening).  Purely a numerical abstract domain: no solver is involved."""
from math import gcd
from fractions import Fraction


class Sym:
    """An integer-valued unknown.  Identity is its key; same key, same unknown."""
    __slots__ = ('id', 'key', 'lo', 'hi', 'bits', 'defs', 'objs', 'name')

    def __repr__(self):
        return self.name or 's%d' % self.id


class Lin:
    __slots__ = ('c', 't', 'h')

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = t
        self.h = hash((c, t))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def is_const(self):
        return not self.t

    def add(self, o, k=1):
        if isinstance(o, int):
            return Lin(self.c + k * o, self.t)
        if not o.t:
            return Lin(self.c + k * o.c, self.t)
        d = dict(self.t)
        for s, v in o.t:
            n = d.get(s, 0) + k * v
            if n:
                d[s] = n
            else:
                d.pop(s, None)
        return Lin(self.c + k * o.c, tuple(sorted(d.items())))

    def __add__(self, o):
        return self.add(o)

    def __sub__(self, o):
        return self.add(o, -1)

    def __neg__(self):
        return self.scale(-1)

    def scale(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Lin(self.c * k, tuple((s, v * k) for s, v in self.t))

    def subst(self, m):
        """m: symid -> Lin"""
        if not any(s in m for s, _ in self.t):
            return self
        r = Lin(self.c, tuple((s, v) for s, v in self.t if s not in m))
        for s, v in self.t:
            if s in m:
                r = r.add(m[s], v)
        return r

    def coef(self, s):
        for a, v in self.t:
            if a == s:
                return v
        return 0

    def syms(self):
        return [s for s, _ in self.t]

    def single(self):
        return self.t[0][0] if len(self.t) == 1 and self.t[0][1] == 1 and self.c == 0 else None

    def __repr__(self):
        if not self.t:
            return str(self.c)
        parts = []
        for s, v in self.t:
            n = repr(SYMS[s])
            parts.append(n if v == 1 else '-' + n if v == -1 else '%d*%s' % (v, n))
        if self.c:
            parts.append(str(self.c))
        return ' + '.join(parts).replace('+ -', '- ')


ZERO = Lin(0)
ONE = Lin(1)
SYMS = []
_BYKEY = {}
_nfresh = [0]


def reset():
    SYMS.clear()
    _BYKEY.clear()
    _FMCACHE.clear()
    _nfresh[0] = 0


def C(n):
    return Lin(n)


def sym(key, lo, hi, name=None, objs=frozenset()):
    s = _BYKEY.get(key)
    if s is None:
        s = Sym()
        s.id = len(SYMS)
        s.key = key
        s.lo = lo
        s.hi = hi
        s.bits = None
        s.defs = ()
        s.objs = objs
        s.name = name
        SYMS.append(s)
        _BYKEY[key] = s
    return s


def fresh(lo, hi, name=None):
    _nfresh[0] += 1
    n = '%s#%d' % (name or 'f', _nfresh[0])
    return sym(('fresh', _nfresh[0]), lo, hi, n)


def L(s):
    return Lin(0, ((s.id, 1),))


def normineq(e):
    """e >= 0, divide by gcd of coefficients, floor constant"""
    g = 0
    for _, v in e.t:
        g = gcd(g, v)
        if g == 1:
            return e
    if g > 1:
        return Lin(e.c // g, tuple((s, v // g) for s, v in e.t))
    return e


_FMCACHE = {}
FM_LIMIT = 160


def _fm_infeasible(ineqs, eqs):
    """ineqs: iterable of Lin (>=0), eqs: Lin (==0). True iff proved to have no integer solution."""
    key = (frozenset(ineqs), frozenset(eqs))
    r = _FMCACHE.get(key)
    if r is None:
        r = _fm(set(ineqs), list(eqs))
        if len(_FMCACHE) > 200000:
            _FMCACHE.clear()
        _FMCACHE[key] = r
    return r


def _fm(ineqs, eqs):
    # gaussian elimination of equalities
    eqs = list(eqs)
    while eqs:
        e = eqs.pop()
        if not e.t:
            if e.c != 0:
                return True
            continue
        g = 0
        for _, v in e.t:
            g = gcd(g, v)
        if e.c % g:
            return True
        if g > 1:
            e = Lin(e.c // g, tuple((s, v // g) for s, v in e.t))
        # pivot: smallest abs coef
        s, v = min(e.t, key=lambda x: (abs(x[1]), x[0]))
        if abs(v) == 1:
            rhs = Lin(e.c, tuple(x for x in e.t if x[0] != s)).scale(-v)
            m = {s: rhs}
            eqs = [x.subst(m) for x in eqs]
            ineqs = {normineq(x.subst(m)) for x in ineqs}
        else:
            # scale elimination
            ne = []
            for x in eqs:
                c = x.coef(s)
                if c:
                    x = x.scale(abs(v)).add(e, -c if v > 0 else c)
                ne.append(x)
            eqs = ne
            ni = set()
            for x in ineqs:
                c = x.coef(s)
                if c:
                    x = normineq(x.scale(abs(v)).add(e, -c if v > 0 else c))
                ni.add(x)
            ineqs = ni
    while True:
        cur = {}
        for e in ineqs:
            if not e.t:
                if e.c < 0:
                    return True
                continue
            o = cur.get(e.t)
            if o is None or e.c < o:
                cur[e.t] = e.c
        if not cur:
            return False
        # quick contradiction of opposite pairs
        for t, c in cur.items():
            n = tuple((s, -v) for s, v in t)
            if n in cur and cur[n] + c < 0:
                return True
        pos, neg = {}, {}
        for t in cur:
            for s, v in t:
                if v > 0:
                    pos[s] = pos.get(s, 0) + 1
                else:
                    neg[s] = neg.get(s, 0) + 1
        best = None
        for s in set(pos) | set(neg):
            p, q = pos.get(s, 0), neg.get(s, 0)
            cost = p * q - p - q
            if best is None or (cost, s) < best:
                best = (cost, s)
        s = best[1]
        P, N, R = [], [], set()
        for t, c in cur.items():
            e = Lin(c, t)
            k = e.coef(s)
            if k > 0:
                P.append((k, e))
            elif k < 0:
                N.append((-k, e))
            else:
                R.add(e)
        if len(P) * len(N) + len(R) > FM_LIMIT:
            return False
        for kp, ep in P:
            for kn, en in N:
                g = gcd(kp, kn)
                R.add(normineq(ep.scale(kn // g).add(en, kp // g)))
        ineqs = R


QUO = {}        # quotient symbol -> symbols of its dividend


class Cons:
    """Conjunction of linear facts.  Immutable."""
    __slots__ = ('eq', 'ineq', 'ne', 'bad', '_box')

    def __init__(self, eq=None, ineq=frozenset(), ne=frozenset(), bad=False):
        self.eq = eq or {}
        self.ineq = ineq
        self.ne = ne
        self.bad = bad
        self._box = None

    def norm(self, e):
        return e.subst(self.eq) if self.eq else e

    def facts(self):
        for s, r in self.eq.items():
            yield ('eq', Lin(0, ((s, 1),)) - r)
        for e in self.ineq:
            yield ('ge', e)
        for e in self.ne:
            yield ('ne', e)

    def _cone(self, seed):
        """inequalities, equalities relevant to the symbols of seed"""
        todo = list(seed.syms())
        seen = set(todo)
        ineqs, eqs = set(), set()
        rest = list(self.ineq)
        while todo:
            nxt = []
            for s in todo:
                y = SYMS[s]
                if y.lo is not None:
                    ineqs.add(Lin(-y.lo, ((s, 1),)))
                if y.hi is not None:
                    ineqs.add(Lin(y.hi, ((s, -1),)))
                if y.key[0] == 'slice':
                    self._topslice(s, y, ineqs)
                for kind, d in y.defs:
                    d = self.norm(d)
                    (eqs if kind == 'eq' else ineqs).add(d)
                    for q in d.syms():
                        if q not in seen:
                            seen.add(q)
                            nxt.append(q)
            keep = []
            ts = set(todo)
            for e in rest:
                if any(s in ts or s in seen or (s in QUO and not seen.isdisjoint(QUO[s])) for s, _ in e.t):
                    ineqs.add(e)
                    for q, _ in e.t:
                        if q not in seen:
                            seen.add(q)
                            nxt.append(q)
                else:
                    keep.append(e)
            rest = keep
            # symbols eliminated by equalities still carry their type bounds / definitions
            for s in list(self.eq):
                if s in seen:
                    continue
                r = self.eq[s]
                if any(q in seen for q, _ in r.t) or (s in QUO and not seen.isdisjoint(QUO[s])):
                    y = SYMS[s]
                    seen.add(s)
                    if y.lo is not None:
                        ineqs.add(r - y.lo)
                    if y.hi is not None:
                        ineqs.add(-r + y.hi)
                    for kind, d in y.defs:
                        d = self.norm(d)
                        (eqs if kind == 'eq' else ineqs).add(d)
                        for q in d.syms():
                            if q not in seen:
                                seen.add(q)
                                nxt.append(q)
                    for q, _ in r.t:
                        if q not in seen:
                            seen.add(q)
                            nxt.append(q)
            todo = nxt
        return ineqs, eqs

    def _topslice(self, s, y, ineqs):
        """the highest bits of a bounded symbol are bounded by the (integer) shift of its bounds"""
        _, base, lo, n = y.key
        b = SYMS[base]
        if b.lo is None or b.lo < 0 or (b.hi is not None and b.hi.bit_length() > lo + n):
            return
        p, q = self._range(self.norm(Lin(0, ((base, 1),))))
        if b.hi is None and (q is None or q.bit_length() > lo + n):
            return
        if q is not None and q >= 0:
            ineqs.add(Lin(q >> lo, ((s, -1),)))
        if p is not None and p > 0:
            ineqs.add(Lin(-(p >> lo), ((s, 1),)))

    def _mkbox(self):
        """bounds of single symbols among the facts"""
        box = {}
        for f in self.ineq:
            if len(f.t) == 1:
                s, v = f.t[0]
                b = box.get(s, (None, None))
                if v > 0:
                    x = -(f.c // v)
                    box[s] = (x if b[0] is None else max(b[0], x), b[1])
                else:
                    x = f.c // -v
                    box[s] = (b[0], x if b[1] is None else min(b[1], x))
        return box

    def _range(self, e):
        lo = hi = e.c
        box = self._box
        if box is None:
            box = self._box = self._mkbox()
        for s, v in e.t:
            y = SYMS[s]
            a, b = y.lo, y.hi
            if s in box:
                p, q = box[s]
                if p is not None and (a is None or p > a):
                    a = p
                if q is not None and (b is None or q < b):
                    b = q
            if v < 0:
                a, b = b, a
            lo = None if lo is None or a is None else lo + v * a
            hi = None if hi is None or b is None else hi + v * b
        return lo, hi

    def ge(self, e):
        """entails e >= 0 ?"""
        e = self.norm(e)
        if not e.t:
            return e.c >= 0
        lo, hi = self._range(e)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
        if e in self.ineq:
            return True
        if len(e.t) >= 6 and self._by_one_fact(e):
            return True
        ineqs, eqs = self._cone(e)
        ineqs.add(normineq(-e - 1))
        return _fm_infeasible(ineqs, eqs)

    def _by_one_fact(self, e):
        """e is a positive multiple of one known inequality, plus a remainder that is >= 0 by the bounds of its symbols alone"""
        def low(r):
            x = self._range(r)[0]
            return -1 if x is None else x
        if low(e) >= 0:
            return True
        top = max(e.t, key=lambda x: abs(x[1]))
        for f in self.ineq:
            if len(f.t) < 4:
                continue
            k = f.coef(top[0])
            if k and (k > 0) == (top[1] > 0):
                r = e.scale(abs(k)).add(f, -abs(top[1]))
                if low(r) >= 0:
                    return True
        return False

    def eq0(self, e):
        e = self.norm(e)
        if not e.t:
            return e.c == 0
        return self.ge(e) and self.ge(-e)

    def ne0(self, e):
        e = self.norm(e)
        if not e.t:
            return e.c != 0
        if e in self.ne or -e in self.ne:
            return True
        g = 0
        for _, v in e.t:
            g = gcd(g, v)
        if e.c % g:
            return True
        if self.ge(e - 1) or self.ge(-e - 1):
            return True
        ineqs, eqs = self._cone(e)
        eqs.add(e)
        return _fm_infeasible(ineqs, eqs)

    def bounds(self, e):
        """cheap interval of e (may be None)"""
        e = self.norm(e)
        lo, hi = self._range(e)
        if e.t:
            for f in self.ineq:
                # f = a*e + c  ?
                if len(f.t) == len(e.t):
                    if f.t == e.t:
                        v = e.c - f.c
                        if lo is None or v > lo:
                            lo = v
                    elif f.t == tuple((s, -v) for s, v in e.t):
                        v = f.c + e.c
                        if hi is None or v < hi:
                            hi = v
        return lo, hi

    # -- adding facts: each returns a Cons, or None when infeasible
    def add_ge(self, e):
        e = normineq(self.norm(e))
        if not e.t:
            return self if e.c >= 0 else None
        if e in self.ineq:
            return self
        lo, hi = self._range(e)
        if lo is not None and lo >= 0:
            return self
        if hi is not None and hi < 0:
            return None
        if self.ge(-e - 1):
            return None
        if self.ge(-e):
            return self.add_eq(e)
        if self.ge(e):
            return self
        n = Cons(self.eq, self.ineq | {e}, self.ne)
        return n._tighten(e)

    def _tighten(self, e):
        n = self
        ss = set(e.syms())
        for d in list(self.ne):
            if ss & set(d.syms()):
                if n.ge(d):
                    n = Cons(n.eq, n.ineq, n.ne - {d}).add_ge(d - 1)
                elif n.ge(-d):
                    n = Cons(n.eq, n.ineq, n.ne - {d}).add_ge(-d - 1)
                if n is None:
                    return None
        return n

    def add_eq(self, e):
        e = self.norm(e)
        if not e.t:
            return self if e.c == 0 else None
        g = 0
        for _, v in e.t:
            g = gcd(g, v)
        if e.c % g:
            return None
        if g > 1:
            e = Lin(e.c // g, tuple((s, v // g) for s, v in e.t))
        if e in self.ne or -e in self.ne:
            return None
        ineqs, eqs = self._cone(e)
        eqs.add(e)
        if _fm_infeasible(ineqs, eqs):
            return None
        # pivot: youngest symbol with unit coefficient
        piv = [s for s, v in e.t if abs(v) == 1]
        if not piv:
            return Cons(self.eq, self.ineq | {normineq(e), normineq(-e)}, self.ne)
        s = max(piv)
        v = e.coef(s)
        rhs = Lin(e.c, tuple(x for x in e.t if x[0] != s)).scale(-v)
        m = {s: rhs}
        neq = {k: r.subst(m) for k, r in self.eq.items()}
        neq[s] = rhs
        nin = set()
        for x in self.ineq:
            y = normineq(x.subst(m))
            if not y.t:
                if y.c < 0:
                    return None
                continue
            nin.add(y)
        y = SYMS[s]
        # keep the eliminated symbol's own bounds
        if rhs.t:
            lo, hi = self._range(rhs)
            if y.lo is not None and (lo is None or lo < y.lo):
                nin.add(normineq(rhs - y.lo))
            if y.hi is not None and (hi is None or hi > y.hi):
                nin.add(normineq(-rhs + y.hi))
        elif (y.lo is not None and rhs.c < y.lo) or (y.hi is not None and rhs.c > y.hi):
            return None
        nne = set()
        for x in self.ne:
            z = x.subst(m)
            if not z.t:
                if z.c == 0:
                    return None
                continue
            nne.add(z)
        n = Cons(neq, frozenset(nin), frozenset(nne))
        for x in nin:
            if x.t and x.t[0][1] > 0 and -x in nin:
                # x >= 0 and -x >= 0 after the substitution
                return n.add_eq(x)
        return n

    def add_ne(self, e):
        e = self.norm(e)
        if not e.t:
            return self if e.c != 0 else None
        if self.ge(e):
            return self.add_ge(e - 1)
        if self.ge(-e):
            return self.add_ge(-e - 1)
        return Cons(self.eq, self.ineq, self.ne | {e})


def nullspace(rows, n):
    """rows: list of length-n integer vectors; basis (integers) of {x : row.x = 0 for all rows}"""
    m = [[Fraction(v) for v in r] for r in rows]
    piv = []
    r = 0
    for c in range(n):
        p = next((i for i in range(r, len(m)) if m[i][c] != 0), None)
        if p is None:
            continue
        m[r], m[p] = m[p], m[r]
        k = m[r][c]
        m[r] = [x / k for x in m[r]]
        for i in range(len(m)):
            if i != r and m[i][c] != 0:
                f = m[i][c]
                m[i] = [x - f * y for x, y in zip(m[i], m[r])]
        piv.append(c)
        r += 1
    out = []
    for f in range(n):
        if f in piv:
            continue
        v = [Fraction(0)] * n
        v[f] = Fraction(1)
        for i, c in enumerate(piv):
            v[c] = -m[i][f]
        den = 1
        for x in v:
            den = den * x.denominator // gcd(den, x.denominator)
        out.append([int(x * den) for x in v])
    return out
