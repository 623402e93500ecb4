from inter import Inter
from ai import *
from lin import *

witness = ['w_budget.cc']
ndebug_quick = False       # left to the thorough tier
TECH = 'resource-counting abstract interpretation with symbolic limits and interference at every atomic operation'


class S(Inter):
    assert_is_violation = True
    inter = 'x_toggle'
    inter_max = 1
    max_groups = 200
    max_rounds = 800

    def cap(self, f, header):
        return 100000

    def sys_may_fail(self, st, name, args):
        return name in ('open', 'mmap', 'stat', 'fstat')

    def v_limits(self, s, a, i):
        s = s.copy()
        s.ghost.update(F=s.norm(a[0]), M=s.norm(a[1]), maps=0, fd0=None, fd1=None, fd2=None, slot0='none', slot1='none', slot2='none')
        return [(s, None)]

    def kept(self, g):
        return sum(g['fd%d' % k] is not None for k in range(3))

    def me(self, g):
        return 'x' if g.get('other') else 'm'

    def on_sys(self, st, name, args, r, ok, err):
        if 'M' not in st.ghost:
            return st
        st = st.copy()
        g = st.ghost
        if name == 'mmap':
            if 'op' + self.me(g) in g:
                g['tried' + self.me(g)] = True
            if ok:
                g['maps'] += 1
                self.oblige()
                self.checks['mapping'] = self.checks.get('mapping', 0) + 1
                if not st.ge(g['M'] - g['maps']):
                    self.report(st, 'budget', 'more mappings than the configured limit exist at once')
                    return None
        elif name == 'munmap':
            g['maps'] -= 1
        elif name in ('open', 'openat') and ok:
            k = 'op' + self.me(g)
            g[k] = g.get(k, ()) + (r,)
        elif name == 'close':
            for k in ('opm', 'opx'):
                if k in g and any(st.eq(x - args[0]) for x in g[k]):
                    g[k] = tuple(x for x in g[k] if not st.eq(x - args[0]))
                    return st
            for k in ('fd0', 'fd1', 'fd2'):
                if g[k] is not None and st.eq(g[k] - args[0]):
                    g[k] = None
                    return st
        return st

    def v_open(self, s, a, i):
        s = s.copy()
        g = s.ghost
        me = self.me(g)
        if s.norm(a[0]).c:
            g['at' + me] = (g['maps'], self.kept(g), g.get('nint', 0))
            g['op' + me] = ()
            g['tried' + me] = False
            return [(s, None)]
        out = []
        for t, ok in self.cond(s, a[1]):
            t = t.copy()
            g = t.ghost
            maps, cached, nint = g.pop('at' + me)
            mine = g.pop('op' + me)
            tried = g.pop('tried' + me)
            if nint == g.get('nint', 0) and not (me == 'x' and 'atm' in g):
                self.oblige()
                self.checks['opened'] = self.checks.get('opened', 0) + 1
                if tried and t.assume_ge(C(maps) - g['M']) is not None:
                    self.report(t.assume_ge(C(maps) - g['M']), 'budget', 'a mapping is attempted beyond the configured limit')
                if not tried and ok and t.assume_ge(g['M'] - maps - 1) is not None:
                    self.report(t.assume_ge(g['M'] - maps - 1), 'budget', 'a file is not mapped although fewer mappings exist than configured: a unit was lost')
                if ok and not tried:
                    if mine and t.assume_ge(C(cached) - g['F']) is not None:
                        self.report(t.assume_ge(C(cached) - g['F']), 'budget', 'a descriptor is kept open beyond the configured limit')
                    if not mine and t.assume_ge(g['F'] - cached - 1) is not None:
                        self.report(t.assume_ge(g['F'] - cached - 1), 'budget', 'a descriptor is not kept open although fewer are kept than configured: a unit was lost')
            # kinds of objects are kept apart when histories are joined
            g['slot%d' % t.norm(a[2]).c] = 'none' if not ok else 'map' if tried else 'fd' if mine else 'nofd'
            g['fd%d' % t.norm(a[2]).c] = mine[0] if mine else None
            self.oblige()
            if mine and not t.ge(g['F'] - self.kept(g)):
                self.report(t, 'budget', 'more descriptors are kept open than configured')
                continue
            out.append((t, None))
        return out

    def v_gone(self, s, a, i):
        s = s.copy()
        k = 'at' + self.me(s.ghost)
        if s.norm(a[0]).c:
            s.ghost[k] = ()
        else:
            s.ghost.pop(k, None)
            s.ghost['slot%d' % s.norm(a[1]).c] = 'none'
        return [(s, None)]


clients = [('c06_history', S, {'expect': ['reach:any history', 'mapping', 'opened']}), ('c06_threads', S, {'budget': 6, 'expect': ['reach:two threads', 'mapping', 'opened']})]
explain = ('Random-access files are opened and destroyed in arbitrary order under symbolic mmap and descriptor limits (any non-negative ints), with every open, fstat and mmap failing or succeeding. '
           'c06_history: any number of operations on two files (inductive). c06_threads: two operations, interrupted at every atomic step of the budget counter by a whole open or destroy of another thread, then everything '
           'destroyed and one file opened again. Rules: live mappings <= configured mappings at each mmap; kept read-only descriptors <= configured; with an undisturbed open, a mapping (else a kept descriptor) is used if and only if a unit is free, '
           'so a lost or twice-returned unit shows up at a later open.')
