from ai import *
from lin import *
from canon import Canon


class Accel:
    """one call, then any number of calls at once: the step of a call is measured, applied k times, and measured again from there"""

    def cells(self, s):
        out = {}
        for o, c in s.mem.items():
            if o.kind == 'alloca' or not c.alive:
                continue
            for x in Canon.flat(c.log):
                if not x[1].is_const() or not x[2].is_const():
                    return None
                out[(o, x[1].c, x[2].c)] = x[3] if x[0] != 'u' else x
        return out

    def v_snap(self, s, a, i):
        s = s.copy()
        s.ghost['snap'] = tuple((k, s.norm(v) if isinstance(v, Lin) else v) for k, v in (self.cells(s) or {}).items())
        return [(s, None)]

    def step_of(self, s):
        """what changed since the snapshot: ((cell, constant difference), ...)"""
        was, now = dict(s.ghost['snap']), self.cells(s)
        if now is None:
            return None
        d = []
        old = {k[0] for k in was}
        for k in set(was) | set(now):
            if k[0] not in old:
                continue        # made by the call and not referred to by anything older
            u, v = was.get(k), now.get(k)
            if isinstance(v, Lin):
                v = s.norm(v)
            if u == v:
                continue
            if not isinstance(u, Lin) or not isinstance(v, Lin):
                return None
            x = s.norm(v - u)
            if not x.is_const():
                return None
            d.append((k, x.c % (1 << 8 * k[2])))
        return tuple(sorted(d, key=lambda x: (x[0][0].id, x[0][1])))

    def v_many(self, s, a, i):
        s = s.copy()
        d = self.step_of(s)
        self.checks['many'] = self.checks.get('many', 0) + 1
        if d is None:
            s.imprecise('a call does more than count')
            return [(s, None)]
        s.ghost['step'] = d
        self.uid += 1
        k = L(ksym(('in', self.nextuid()), 0, s.norm(a[0]).c, 'calls'))
        out = [s]
        for (o, off, n), x in d:
            nxt = []
            for t in out:
                for t1, v in self.load(t, Ptr(o, C(off)), n, 'i%d' % (8 * n)):
                    y = x if x < 1 << (8 * n - 1) else x - (1 << 8 * n)
                    w = v + k.scale(y)
                    t1 = t1.assume_ge(w) and t1.assume_ge(w).assume_ge(C((1 << 8 * n) - 1) - w)
                    if t1 is not None:
                        nxt.append(self.store(t1, Ptr(o, C(off)), t1.norm(w), n))
            out = nxt
        return [(t, None) for t in out]

    def v_same_step(self, s, a, i):
        """the step measured at the start is also the step from the state reached by it"""
        s = s.copy()
        self.oblige()
        if s.ghost.get('step') is not None and self.step_of(s) != s.ghost['step']:
            s.imprecise('calls differ in what they change')
        return [(s, None)]
