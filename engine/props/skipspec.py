from spec import Spec
from ai import *
from lin import *


class Skip(Spec):
    assert_is_violation = True
    histories = True
    deep = False
    stops = (0, 1)                    # draws after which the height may be settled; otherwise it grows to the limit

    def init_state(self, st):
        super().init_state(st)
        st.ghost['draws'] = 0
        st.ghost['inserting'] = False
        st.ghost['reading'] = False
        st.ghost['log'] = ()              # writes of the insertions a reader may overlap with
        st.ghost['now'] = 0
        st.ghost['fence'] = -1

    def v_deep(self, s, a, i):
        return [(s, C(int(self.deep)))]

    def v_insert(self, s, a, i):
        s = s.copy()
        s.ghost['draws'] = 0
        s.ghost['inserting'] = s.norm(a[0]).c != 0
        s.ghost['fence'] = -1
        self.checks['insert'] = self.checks.get('insert', 0) + 1
        return [(s, None)]

    def v_settled(self, s, a, i):
        """from here on every reader sees the insertions made so far"""
        s = s.copy()
        s.ghost['log'] = ()
        s.ghost['now'] = 0
        return [(s, None)]

    def v_reader(self, s, a, i):
        s = s.copy()
        s.ghost['reading'] = s.norm(a[0]).c != 0
        s.ghost['seen'] = 0               # everything written up to then happened before what the reader does next
        s.ghost['pending'] = 0            # what an acquire fence would add
        return [(s, None)]

    def v_sign(self, s, a, i):
        x, u, v = s.norm(a[0]), s.norm(a[1]), s.norm(a[2])
        self.oblige()
        if u == ZERO or v == ZERO:
            self.report(s, 'dummy key', 'the comparator is called on the dummy key of the head')
            return []
        sign = x.c if x.c < 2 else -1
        if not sign:
            return [(s, ZERO)]
        return [(s, L(fresh(1, (1 << 31) - 1, 'cmp') if sign > 0 else fresh(-(1 << 31), -1, 'cmp')))]

    def on_fn(self, s, fn, args, i):
        d = fn.dem
        if d == 'lsmdb::Random::Next()':
            self.checks['height drawn'] = self.checks.get('height drawn', 0) + 1
            if self.stops is None:
                return [(s, L(fresh(1, (1 << 31) - 2, 'rnd')))]
            s = s.copy()
            n = s.ghost['draws']
            s.ghost['draws'] = min(n + 1, 99)
            out = [(s, C(5040 * 16))]      # goes on, whatever small number it is divided by
            if n in self.stops:
                out.append((s.copy(), ONE))
            return out
        if d.startswith('lsmdb::Arena::Allocate'):
            # the contract of the arena (C13): fresh memory of that size
            out = []
            for s1, n in self.nu(s, args[1], 64):
                s1 = s1.copy()
                o = Obj('heap', n, 'node', align=8 if 'Aligned' in d else 1, site='node')
                s1.mem[o] = EMPTY
                o.node = True
                self.checks['node'] = self.checks.get('node', 0) + 1
                out.append((self.on_node(s1, o), Ptr(o)))
            return out
        return super().on_fn(s, fn, args, i)

    def on_node(self, s, o):
        return s

    # ------------------------------------------------ what a reader that runs at the same time may see
    # log: (object, offset, size, value, time, time released by it or -1, atomic); time 0: the value from before
    def shared(self, o):
        return o.kind not in ('stack', 'local', 'alloca') and not (o.kind == 'global' and o.const)

    def on_access(self, st, p, size, kind, val=None):
        o = p.obj
        if getattr(o, 'node', False) and (o.align or 1) < 8 and not isinstance(size, Lin) and size > 1:
            self.report(st, 'alignment', 'memory for a node that is not aligned is accessed as a %d-byte value' % size)
            return None
        st = super().on_access(st, p, size, kind, val)
        if st is None or not self.shared(o):
            return st
        at = self.atomic
        if st.ghost['inserting'] and kind in ('store', 'rmw'):
            off, n = st.norm(p.off), size if isinstance(size, int) else st.norm(size).c if not st.norm(size).t else None
            if off.t or n is None:
                st = st.copy()
                st.imprecise('write of unknown place during an insertion')
                return st
            st = st.copy()
            g = st.ghost
            g['now'] = t = g['now'] + 1
            rel = -1
            if at:
                rel = t if at in ('release', 'acq_rel', 'seq_cst') else g['fence']
            if not any(e[0] is o and e[1] == off.c and e[2] == n for e in g['log']):
                old = UNDEF
                if n in (1, 2, 4, 8):
                    r = self.load(st, p, n, 'ptr' if n == 8 else 'i%d' % (8 * n))
                    old = r[0][1] if len(r) == 1 else UNDEF
                g['log'] += ((o, off.c, n, old, 0, -1, True),)
            g['log'] += ((o, off.c, n, val, t, rel, bool(at)),)
            return st
        if st.ghost['reading']:
            if kind in ('store', 'rmw') and not at:
                self.report(st, 'reader writes', 'a reader writes to %s, which other readers use at the same time' % o.name)
                return None
            off = st.norm(p.off)
            for e in st.ghost['log']:
                if e[0] is o and e[4] > st.ghost['seen'] and not (at and e[6]):
                    n = size if isinstance(size, int) else st.norm(size).c
                    if off.t or off.c < e[1] + e[2] and e[1] < off.c + n:
                        self.report(st, 'race', 'a reader uses a place in %s (offset %r) that the insertion writes, without having synchronised with that write' % (o.name, off))
                        return None
        return st

    atomic = None

    def i_store(self, s, f, i):
        self.atomic = i['ord'] if i.get('ord', 'na') != 'na' else None
        try:
            return super().i_store(s, f, i)
        finally:
            self.atomic = None

    def i_atomicrmw(self, s, f, i):
        self.atomic = i['ord']
        try:
            return super().i_atomicrmw(s, f, i)
        finally:
            self.atomic = None

    def i_cmpxchg(self, s, f, i):
        self.atomic = i['ord']
        try:
            return super().i_cmpxchg(s, f, i)
        finally:
            self.atomic = None

    def on_rmw(self, st, p, k, old, new, arg):
        log = st.ghost['log']
        if st.ghost['inserting'] and log and log[-1][0] is p.obj:
            st = st.copy()
            st.ghost['log'] = log[:-1] + (log[-1][:3] + (new,) + log[-1][4:],)
        return st

    def on_fence(self, st, order):
        st = st.copy()
        if st.ghost['inserting'] and order in ('release', 'acq_rel', 'seq_cst'):
            st.ghost['fence'] = st.ghost['now']
        if st.ghost['reading'] and order in ('acquire', 'acq_rel', 'seq_cst'):
            st.ghost['seen'] = max(st.ghost['seen'], st.ghost['pending'])
        return st

    def i_load(self, s, f, i):
        self.atomic = i['ord'] if i.get('ord', 'na') != 'na' else None
        try:
            if not (self.atomic and s.ghost['reading'] and s.ghost['log']):
                return super().i_load(s, f, i)
            out = []
            for s2, p in self.deref_ptr(s, self.val(s, i['ops'][0])):
                s2 = self.on_access(s2, p, i['sz'], 'load')
                if s2 is None:
                    continue
                off, n = s2.norm(p.off), i['sz']
                near = [e for e in s2.ghost['log'] if e[0] is p.obj and (off.t or off.c < e[1] + e[2] and e[1] < off.c + n)]
                if not near:
                    out += [self.setv(s3, i, v) for s3, v in self.load(s2, p, n, i['ty'])]
                    continue
                if any(off.t or e[1] != off.c or e[2] != n for e in near):
                    s2 = s2.copy()
                    s2.imprecise('a reader loads part of what is written')
                    out += [self.setv(s3, i, v) for s3, v in self.load(s2, p, n, i['ty'])]
                    continue
                T = s2.ghost['seen']
                last = max(e[4] for e in near if e[4] <= T)
                for e in near:
                    if e[4] < last:
                        continue
                    v = e[3]
                    if v is UNDEF or v is None:
                        self.report(s2, 'uninitialised', 'a reader may follow a link of %s (offset %d) before the insertion has written it' % (p.obj.name, off.c))
                        continue
                    s3 = s2.copy()
                    if e[5] >= 0:
                        k = 'seen' if self.atomic in ('acquire', 'acq_rel', 'seq_cst') else 'pending'
                        s3.ghost[k] = max(s3.ghost[k], e[5])
                    self.checks['overlapping load'] = self.checks.get('overlapping load', 0) + 1
                    out.append(self.setv(s3, i, self.coerce(s3, v, i['ty'])))
            return out
        finally:
            self.atomic = None
