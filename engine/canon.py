"""A key for states that is the same for states which differ only in the names of fresh objects and unknowns."""
import bisect
import hashlib
from ai import *
from lin import *


class Canon:
    def __init__(self, st):
        self.st = st
        self.on = {}
        self.sn = {}
        self.work = []
        self.live = {o.id for o in st.mem if o.kind == 'heap' or (o.kind == 'lazy' and not o.root)}

    def obj(self, o):
        if o.id not in self.live:
            return (o.kind, o.id)
        n = self.on.get(o.id)
        if n is None:
            n = self.on[o.id] = len(self.on)
            self.work.append(o)
        return ('o', n)

    def sym(self, q):
        n = self.sn.get(q)
        if n is None:
            n = self.sn[q] = len(self.sn)
        return n

    def lin(self, v):
        v = self.st.norm(v)
        if not v.t:
            return v.c
        return (v.c,) + tuple((k, self.sym(q)) for q, k in sorted(v.t, key=lambda x: (self.sn.get(x[0], 1 << 40), x[1], x[0])))

    def val(self, v):
        if isinstance(v, Lin):
            return self.lin(v)
        if isinstance(v, Ptr):
            c = self.st.mem.get(v.obj) if v.obj.id in self.live and v.obj.id not in self.on else None
            if c is not None and not c.alive:
                return ('dangling',)        # any use of it is an error, whichever it is
            return ('p', self.obj(v.obj), self.lin(v.off))
        if isinstance(v, Obj):
            return self.obj(v)
        if isinstance(v, UP):
            return ('up', self.val(v.key))
        if isinstance(v, Agg):
            return ('agg',) + tuple(self.val(x) for x in v.v)
        if isinstance(v, Str):
            return ('str', self.obj(v.data), self.lin(v.len))
        if isinstance(v, Tok):
            return ('tok', v.kind) + tuple(self.val(x) for x in v.a)
        if isinstance(v, (tuple, list)):
            return tuple(self.val(x) for x in v)
        if isinstance(v, dict):
            return tuple((k, self.val(v[k])) for k in sorted(v, key=repr))
        if isinstance(v, (set, frozenset)):
            return tuple(sorted((self.val(x) for x in v), key=repr))
        return v if isinstance(v, (int, str, bool, type(None))) else repr(v)

    @staticmethod
    def flat(log):
        """the same contents as disjoint pieces in order of place, where the log allows that"""
        if not all(x[0] in 'vs' and x[1].is_const() and x[2].is_const() for x in log):
            return log
        out, at = [], []                        # (from, to, entry), disjoint and in order; where they start
        for x in log:
            f, t = x[1].c, x[1].c + x[2].c
            i = bisect.bisect_left(at, f)
            if i and out[i - 1][1] > f:
                i -= 1
            j, new = i, []
            while j < len(out) and out[j][0] < t:
                f1, t1, y = out[j]
                if (f1 < f or t < t1) and y[0] != 's':
                    return log
                if f1 < f:
                    new.append((f1, f, y))
                j += 1
            new.append((f, t, x))
            if j > i and t < out[j - 1][1]:
                new.append((t, out[j - 1][1], out[j - 1][2]))
            out[i:j] = new
            at[i:j] = [z[0] for z in new]
        res = []
        for f, t, y in out:
            rest = tuple(y[3:])
            if y[0] == 'v' and isinstance(rest[0], Lin) and rest[0].is_const() and rest[0].c == 0:
                y, rest = ('s',), (C(0),) + rest[1:]
            if res and y[0] == 's' and res[-1][0] == 's' and res[-1][2] == f and res[-1][3] == rest:
                res[-1] = ('s', res[-1][1], t, rest)
            else:
                res.append((y[0], f, t, rest))
        return [(k, C(f), C(t - f)) + r for k, f, t, r in res]

    def log(self, log):
        log = self.flat(log)
        return tuple((x[0], self.lin(x[1]), self.lin(x[2])) + tuple(self.val(y) for y in x[3:]) for x in log)

    def key(self):
        st = self.st
        out = [tuple((k, self.val(st.env[k])) for k in sorted(st.env, key=str))]
        for o in sorted((o for o in st.mem if o.id not in self.live), key=lambda o: o.id):
            out.append((o.id, st.mem[o].alive, self.log(st.mem[o].log)))
        for k in sorted((k for k in st.ghost if isinstance(k, str) and k not in ('$nd', '$pend')), key=str):
            out.append((k, self.val(st.ghost[k])))
        while self.work:
            o = self.work.pop(0)
            c = st.mem[o]
            out.append((self.on[o.id], o.kind, o.name.split('.')[0].rstrip('~'), c.alive,
                        tuple((k, v) for k, v in sorted(o.__dict__.items()) if isinstance(v, bool)),
                        None if o.size is None else self.lin(o.size), self.log(c.log)))
        # facts about the things met above
        rest = []
        for k, v in st.ghost.items():
            if isinstance(k, tuple) and self.known(k) and self.known(v):
                rest.append(repr((self.val(k), self.val(v))))
        for u, v in st.bind.items():
            if self.known(u) and self.known(v):
                rest.append(repr((self.val(u), self.val(v))))
        out.append(tuple(sorted(rest)))
        facts = []
        todo = [(k, e) for k, e in st.cons.facts()]
        for k, e in todo:
            if all(q in self.sn for q in e.syms()):
                facts.append(repr((k, e.c, sorted((self.sn[q], c) for q, c in e.t))))
        out.append(tuple(sorted(facts)))
        out.append(tuple((SYMS[q].lo, SYMS[q].hi, SYMS[q].bits) for q in self.sn))
        out.append(bool(st.imp))
        return tuple(out)

    def known(self, v):
        if isinstance(v, Lin):
            return all(q in self.sn for q in v.syms())
        if isinstance(v, Obj):
            return v.id not in self.live or v.id in self.on
        if isinstance(v, Ptr):
            return self.known(v.obj) and self.known(v.off)
        if isinstance(v, UP):
            return self.known(v.key)
        if isinstance(v, Str):
            return self.known(v.data) and self.known(v.len)
        if isinstance(v, Tok):
            return all(self.known(x) for x in v.a)
        if isinstance(v, Agg):
            return all(self.known(x) for x in v.v)
        if isinstance(v, (tuple, list, frozenset)):
            return all(self.known(x) for x in v)
        return True


def canon_state(st):
    return hashlib.md5(repr(Canon(st).key()).encode()).digest()


class Exact(Canon):
    """the same state, not merely one of the same shape"""
    def __init__(self, st):
        super().__init__(st)
        self.live = set()

    def sym(self, q):
        n = self.sn.get(q)
        if n is None:
            k = SYMS[q].key
            # outcomes of system calls: one of them is as good as another of which the same is known
            n = self.sn[q] = '%s %s %d' % (k[0], k[1], len(self.sn)) if k[0] in ('errno', 'ret') else 'q%d' % q
        return n

    def lin(self, v):
        v = self.st.norm(v)
        return (v.c,) + tuple((k, self.sym(q)) for q, k in sorted(v.t)) if v.t else v.c


def exact_state(st):
    return hashlib.md5(repr(Exact(st).key()).encode()).digest()
