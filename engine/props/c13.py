from leak import Leaks
from ai import *
from lin import *

witness = ['w_arena.cc']
TECH = 'ownership and affine bounds analysis of the memory handed out'


class S(Leaks):
    def cap(self, f, header):
        return 100000

    assert_is_violation = True
    deep = False
    check_leaks = True

    def init_state(self, st):
        super().init_state(st)
        st.ghost['arena'] = 0
        st.ghost['sum'] = ZERO            # bytes of the blocks
        st.ghost['blocks'] = ZERO

    def v_deep(self, s, a, i):
        return [(s, C(int(self.deep)))]

    def v_arena(self, s, a, i):
        s = s.copy()
        s.ghost['arena'] = s.norm(a[0]).c
        return [(s, None)]

    def on_alloc(self, st, o, n, kind):
        if st.ghost['arena']:
            st.ghost[('high', o)] = ZERO          # nothing handed out yet below this
            st = st.assume_ge(C(1 << 47) - st.ghost['sum'] - n)         # all memory fits into the address space
            if st is None:
                return None
            st.ghost['sum'] = st.norm(st.ghost['sum'] + n)
            st.ghost['blocks'] = st.norm(st.ghost['blocks'] + 1)
        return st

    def v_bound(self, s, a, i):
        return [(s, None)]

    def v_alloc(self, s, a, i):
        out = []
        n = s.norm(a[1])
        self.checks['allocated'] = self.checks.get('allocated', 0) + 1
        for s1, p in self.deref_ptr(s, a[0]):
            self.oblige(3)
            if p.obj.kind != 'heap' or ('high', p.obj) not in s1.ghost or not self.os(s1, p.obj).alive:
                self.report(s1, 'owned', 'memory is handed out that is not part of a live block of the arena (%s)' % p.obj.name)
                continue
            high = s1.norm(s1.ghost[('high', p.obj)])
            if not s1.ge(p.off - high):
                self.report(s1, 'overlap', 'memory handed out may overlap an earlier allocation (offset %r, handed out up to %r)' % (s1.norm(p.off), high))
                continue
            if not s1.ge(p.obj.size - p.off - n):
                self.report(s1, 'bounds', 'memory handed out ends outside its block (offset %r, length %r, block %r)' % (s1.norm(p.off), n, s1.norm(p.obj.size)))
                continue
            s1 = s1.copy()
            s1.ghost[('high', p.obj)] = s1.norm(p.off + n)
            out.append((s1, None))
        return out

    def v_usage(self, s, a, i):
        out = []
        self.checks['usage'] = self.checks.get('usage', 0) + 1
        for t, n in self.nu(s, a[0], 64):
            self.oblige(2)
            g = t.ghost
            if not t.ge(n - g['sum']):
                self.report(t, 'usage', 'MemoryUsage is less than the bytes of the blocks (%r, blocks %r)' % (n, g['sum']))
            elif not t.ge(g['sum'] + g['blocks'].scale(16) - n):
                self.report(t, 'usage', 'MemoryUsage is more than the bytes of the blocks and their bookkeeping (%r, blocks %r)' % (n, g['sum']))
            else:
                out.append((t, None))
        return out


class Many(S):
    """any number of allocations: what older blocks the arena remembers is forgotten, so no claim is made about their release"""
    def hook_loop_head(self, st, f, header):
        if not self.bounded and f.name == self.cur_client:
            st = st.copy()
            near = set()
            for o, c in list(st.mem.items()):
                if o.name.startswith('vecbuf') or getattr(o, 'vecbuf', False):
                    st = self.havoc(st, o)
                else:
                    near |= {e[3].obj for e in c.log if e[0] == 'v' and isinstance(e[3], Ptr)}
            for k in [k for k in st.ghost if isinstance(k, tuple) and k[0] == 'high' and k[1] not in near]:
                del st.ghost[k]
        return super().hook_loop_head(st, f, header)

    def v_bound(self, s, a, i):
        s = s.copy()
        for e in (C(1 << 47) - s.ghost['sum'], C(1 << 47) - s.ghost['blocks'], s.ghost['sum'], s.ghost['blocks']):
            s = s and s.assume_ge(e)
        return [(s, None)] if s is not None else []

    def on_unreachable(self, st, o):
        return st

    def on_end(self, st, client):
        pass


class Few(S):
    histories = True


clients = [('a_few', Few, {'K': 9, 'expect': ['allocated', 'usage', 'reach:some allocations', 'aligned memory starts at an aligned address'], 'thorough': {'deep': True, 'budget': 20}}),
           ('a_many', Many, {'expect': ['allocated', 'usage', 'reach:any allocations', 'aligned memory starts at an aligned address']})]
explain = ('Any number of allocations, plain or aligned, of 1 to 2^40 bytes each (a fixpoint over the loop of the client with affine relations between the bump pointer, the bytes left and what was handed '
           'out before): each lies inside a live block of the arena and beyond everything handed out of that block before, an aligned one starts at an aligned address, '
           'and MemoryUsage is the sum of the sizes of the blocks plus at most 16 bytes each. Up to four (thorough: six) allocations of arbitrary sizes followed by the end of the arena, '
           'all combinations: every block is released exactly once.')
assumptions = ['operator new returns memory aligned to 16 bytes and all memory in use fits into 2^47 bytes', 'allocations of at least one byte (the code asserts this)']
