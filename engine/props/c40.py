from inter import Inter
from ai import *
from lin import *

witness = ['w_atomic.cc']
ndebug_quick = False       # left to the thorough tier
TECH = 'atomicity analysis: every lock acquisition and atomic operation of one call is a preemption point for a whole call of another thread; the outcome is compared with both sequential orders'


class Atomic(Inter):
    histories = True
    inter_max = 1
    max_paths = 1 << 20

    def init_state(self, st):
        super().init_state(st)
        st.ghost['hashes'] = ()

    def v_hash(self, s, a, i):
        s = s.copy()
        k = bytes(self.const_bytes(s, a[0], s.norm(a[1]).c))
        s.ghost['hashes'] += ((k, s.norm(a[2])),)
        return [(s, None)]

    def on_fn(self, s, fn, args, i):
        if fn.dem.startswith('lsmdb::Hash(') and s.ghost['hashes']:
            b = self.const_bytes(s, args[0], s.norm(args[1]).c)
            return [(s, dict(s.ghost['hashes'])[bytes(b)])]
        return super().on_fn(s, fn, args, i)


class Cache(Atomic):
    inter = 'x_cop'


class Mem(Atomic):
    inter = 'x_mop'


RULE = 'the outcome is that of one of the two sequential orders'
clients = [(n, c, {'K': 40, 'budget': 6, 'expect': ['reach:' + r, RULE]}) for n, c, r in (
    ('n_pinned', Cache, 'two calls on a cache'), ('n_unpinned', Cache, 'two calls on a cache'),
    ('n_one', Mem, 'two calls on an in-memory environment'), ('n_two', Mem, 'two calls on an in-memory environment'), ('n_data', Mem, 'two calls on an in-memory file'))]
explain = ('Every ordered pair of calls on a cache (Insert, Lookup, Release, Erase, Prune, TotalCharge, NewId; full partition, entries held or not), on the names of an in-memory environment (two names, one or both '
           'present) and on its files (a short file and one that ends at a block boundary, with open readers and writers). The second call runs as a whole at every point where the first acquires a lock or executes '
           'an atomic operation. The results of both calls and everything observable afterwards (which values were deleted, what every key maps to, what is evicted next; which names exist, sizes, contents, the position of open '
           'sequential files) must equal those of one of the two sequential orders, which are computed from the same code on two further instances.')
assumptions = ['two threads, one call each; one thread per writer and sequential reader', 'Prune and TotalCharge visit the partitions one after the other: the entries used here share one partition',
               'code between two lock acquisitions does not race (C08)']
