"""Happens-before data races between two threads: one runs an operation, the other runs one whole operation at any point where the first is about to lock, or before or after it.
Vector clocks per thread, mutex and atomic location (release/acquire); every access to memory that is not on a stack is checked against the conflicting accesses of the other thread."""
from inter import Inter
from spec import Spec
from ai import *
from lin import *

ACQ = ('acquire', 'acq_rel', 'seq_cst')
REL = ('release', 'acq_rel', 'seq_cst')


def join(a, b):
    return tuple(max(x, y) for x, y in zip(a, b))


class Locks(Spec):
    """every mutex is taken when free, in one order, and released before the operation returns"""
    assert_is_violation = True

    def __init__(self, *a):
        super().__init__(*a)
        self.order = {}

    def on_lock(self, st, p):
        held = st.ghost.get('locks', ())
        self.oblige(1 + len(held))
        self.checks['lock'] = self.checks.get('lock', 0) + 1
        if p in held:
            self.report(st, 'self-deadlock', 'the mutex is locked while this thread holds it')
            return None
        t = super().on_lock(st, p)
        if t is not None:
            for q in held:
                self.order.setdefault((q, p), self.where(st))
                if (p, q) in self.order:
                    self.report(t, 'lock order', 'two mutexes are taken in this order here and in the opposite order at %s' % self.order[(p, q)])
        return t

    def on_unlock(self, st, p):
        if p not in st.ghost.get('locks', ()):
            self.report(st, 'unlock without lock', 'a mutex that is not held is unlocked')
            return None
        return super().on_unlock(st, p)

    def idle(self, st):
        self.oblige()
        self.checks['operation ended'] = self.checks.get('operation ended', 0) + 1
        if st.ghost.get('locks'):
            self.report(st, 'lock kept', 'an operation ends with a mutex still held')
            return False
        return True

    def v_idle(self, s, a, i):
        return [(s, None)] if self.idle(s) else []


class Race(Inter, Locks):
    assert_is_violation = True
    histories = True
    inter = 'x_op'
    inter_max = 1
    check_mem = True
    max_paths = 1 << 20

    def init_state(self, st):
        super().init_state(st)
        st.ghost['vc'] = ((1, 0), (0, 1))
        st.ghost['racing'] = False

    # ------------------------------------------------ threads
    def v_interference(self, s, a, i):
        r = super().v_interference(s, a, i)
        out = []
        for t, v in r:
            if t.ghost.get('locks'):
                self.report(t, 'lock kept', 'an operation ends with a mutex still held')
                continue
            t.ghost['racing'] = t.ghost['inter']
            if t.ghost['inter']:
                out += [(u, v) for u in self.points(t)]
            else:
                t.ghost['inter'] = True
                t.ghost['racing'] = True
                for u in self.points(t):
                    u = u.copy()
                    u.ghost['inter'] = u.ghost['racing'] = False
                    out.append((u, v))
        return out

    def me(self, st):
        return 1 if st.ghost.get('other') else 0

    def acquire(self, st, vc):
        k = self.me(st)
        v = list(st.ghost['vc'])
        v[k] = join(v[k], vc)
        st.ghost['vc'] = tuple(v)

    def release(self, st):
        """the clock to publish; what the thread does from now on is not covered by it"""
        k = self.me(st)
        v = list(st.ghost['vc'])
        c = v[k]
        v[k] = tuple(x + (j == k) for j, x in enumerate(c))
        st.ghost['vc'] = tuple(v)
        return c

    def on_lock(self, st, p):
        t = super().on_lock(st, p)
        if t is not None and t.ghost['racing']:
            self.acquire(t, t.ghost.get(('lk', p.obj, p.off.c), (0, 0)))
        return t

    def on_unlock(self, st, p):
        t = super().on_unlock(st, p)
        if t is not None and t.ghost['racing']:
            k = ('lk', p.obj, p.off.c)
            t.ghost[k] = join(t.ghost.get(k, (0, 0)), self.release(t))
        return t

    def on_wait(self, st, cv, m):
        if m not in st.ghost.get('locks', ()):
            self.report(st, 'wait without lock', 'a thread waits for a condition without holding its mutex')
            return []
        st = self.on_unlock(st, m)
        out = []
        for t in self.points(st):
            t = self.on_lock(t, m)
            if t is not None:
                out.append(t)
        return out

    # ------------------------------------------------ accesses
    def private(self, o):
        return o.kind in ('stack', 'local', 'alloca', 'fn') or o.kind == 'global' and (o.const or o is self.gobj.get('$errno')) or getattr(o, 'clientmem', False)

    def race(self, st, p, size, kind, order):
        o = p.obj
        g = st.ghost
        if not g.get('racing') or self.private(o):
            return st
        k = self.me(st)
        off = st.norm(p.off)
        n = size if isinstance(size, int) else st.norm(size)
        n = C(n) if isinstance(n, int) else n
        wr = kind != 'load'
        at = order != 'na'
        vc = g['vc'][k]
        log = g.get(('acc', o), ())
        self.oblige()
        for e in log:
            if e[0] == k or not (wr or e[3]) or at and e[4] or e[5] <= vc[e[0]]:
                continue
            if off.c >= e[1].c + e[2].c or e[1].c >= off.c + n.c:
                if not (off.t or n.t or e[1].t or e[2].t):
                    continue
            t = st.assume_ge(off + n - e[1] - 1)
            t = t and t.assume_ge(e[1] + e[2] - off - 1)
            if t is None:
                continue
            self.report(t, 'data race', '%s of %s (offset %r) is not ordered with the %s by another thread at %s' % (
                {'load': 'the read', 'free': 'the release'}.get(kind, 'the write'), o.name, off, 'write' if e[3] else 'read', e[6]))
            return None
        ent = (k, off, n, wr, at, vc[k], self.where(st))
        if not any(e[:6] == ent[:6] for e in log):
            st = st.copy()
            st.ghost[('acc', o)] = log + (ent,)
            self.checks['access'] = self.checks.get('access', 0) + 1
        return st

    def on_access(self, st, p, size, kind, val=None):
        st = super().on_access(st, p, size, kind, val)
        if st is None:
            return None
        st = self.race(st, p, size, kind, self.ord)
        if st is not None and self.ord != 'na' and st.ghost.get('racing') and not self.private(p.obj):
            key = ('rel', p.obj, st.norm(p.off).c)
            st = st.copy()
            g = st.ghost
            if kind != 'store' and self.ord in ACQ:
                self.acquire(st, g.get(key, (0, 0)))
            if kind == 'store':
                g[key] = self.release(st) if self.ord in REL else (0, 0)
            elif kind == 'rmw' and self.ord in REL:
                g[key] = join(g.get(key, (0, 0)), self.release(st))
        return st

    def on_touch(self, st, p, size, kind):
        return self.race(st, p, size, kind, 'na') or st

    def on_free(self, st, p, how):
        st = super().on_free(st, p, how)
        if st is None or p.obj.kind != 'heap':
            return st
        return self.race(st, Ptr(p.obj), p.obj.size if p.obj.size is not None else 1 << 40, 'free', 'na')

    # the points of the first thread
    def points(self, s):
        if s.ghost.get('other') or not s.ghost.get('inter'):
            return [s]
        return super().points(s)
