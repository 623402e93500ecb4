from cachespec import Cache
from ai import *
from lin import *

witness = ['w_cache.cc']
TECH = 'effect analysis over all histories of the cache against a map oracle, plus abstract interpretation for arbitrary keys and hashes'


class S(Cache):
    want = ('map', 'entry')
    assert_is_violation = True
    split_div = 16


class Keys(S):
    histories = False

    def init_state(self, st):
        super().init_state(st)
        st.ghost['pure'] = 0

    def v_one_hash(self, s, a, i):
        s = s.copy()
        s.ghost['one'] = s.norm(a[0])
        return [(s, None)]

    def v_pure(self, s, a, i):
        s = s.copy()
        s.ghost['pure'] = s.norm(a[0]).c
        return [(s, None)]

    def on_fn(self, s, fn, args, i):
        if fn.dem.startswith('lsmdb::Hash(') and 'one' in s.ghost:
            self.checks['hash'] = self.checks.get('hash', 0) + 1
            return [(s, s.ghost['one'])]
        return super().on_fn(s, fn, args, i)

    def on_access(self, st, p, size, kind, val=None):
        o = p.obj
        if st.ghost.get('pure') and not getattr(o, 'clientmem', False) and o.kind not in ('stack', 'local', 'alloca') and not (o.kind == 'global' and o.const):
            self.report(st, 'pure', 'the hash of a key depends on %s' % o.name)
            return None
        return super().on_access(st, p, size, kind, val)


X = ['hash', 'insert', 'lookup', 'release', 'erase', 'destroy']
clients = [('k_same', S, {'expect': ['reach:same hash'] + X}), ('k_mixed', S, {'expect': ['reach:mixed hashes'] + X}),
           ('k_grow', S, {'expect': ['reach:growing table'] + X, 'thorough': {'deep': True, 'budget': 10}}), ('k_index', S, {'expect': ['reach:any hash'] + X}),
           ('k_keys', Keys, {'expect': ['reach:any keys', 'hash']}), ('k_copy', Keys, {'expect': ['reach:key copied', 'hash']}),
           ('k_hash', Keys, {'expect': ['reach:hash']})]
explain = ('(1) Histories of any length (insert, lookup, release, erase, prune) over keys with equal hashes, and over keys with equal buckets and different partitions, against a map oracle; '
           'the set of reachable states comes to an end, so the result covers every history. (2) A table that grows from 4 to 16 (thorough: 32) buckets, with three patterns of hashes and an erasure at '
           'any point, after which every key is looked up. (3) A key with an arbitrary 32-bit hash: every operation on it uses the same partition and bucket, and both are in range. '
           '(4) Two keys of arbitrary bytes and lengths with one hash: one is found, replaced or erased under the other only if they are equal byte by byte; the cache compares its own copy of the key. '
           '(5) The hash reads nothing but the bytes of the key, in bounds, for every length.')
assumptions = ['at most four keys in the histories, at most 9 (thorough: 19) in the growing table; keys of up to 1 TiB; one thread']
