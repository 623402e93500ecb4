from cachespec import Cache
from accel import Accel
import c12
from spec import Spec

witness = ['w_cache.cc']
TECH = 'ownership (reference-count) analysis over all histories: values tracked from insertion to their deleter'


class S(Cache):
    want = ('entry',)


class K(Accel, c12.Keys):
    want = ('entry',)


class R(K):
    def on_unreachable(self, st, o):
        return st

    def on_end(self, st, client):
        Spec.on_end(self, st, client)       # handles are still held


X = ['hash', 'insert', 'lookup', 'release', 'erase', 'prune', 'destroy', 'deleted']
clients = [('k_life', S, {'budget': 3, 'expect': ['reach:life'] + X}),
           ('k_apart', S, {'budget': 3, 'expect': ['reach:apart'] + X}),
           ('k_uncached', S, {'expect': ['reach:uncached'] + X}), ('k_grow', S, {'expect': ['reach:growing table', 'deleted']}),
           ('k_refs', R, {'expect': ['reach:many handles', 'many']}), ('k_deleter', K, {'expect': ['reach:any deleted key']})]
explain = ('Histories of any length over a cache: insert, lookup, release, erase, prune in any order on two keys with two handles held at once, ending with the cache destroyed; '
           'capacity one entry per partition, or none. The reachable states of the history loop are computed as a set of exact states up to renaming of fresh objects; the set comes to an '
           'end, so the result covers every history. An oracle (which entries are cached, which handles refer to them) says for every operation which values must be passed to their deleter '
           'before it returns. Rules: the deleter gets exactly these, each once, with its own key; no access to released memory, no double release, nothing allocated is left over. '
           'k_grow: the same in a table that grows. k_refs: any number of handles (up to 2^30) to one entry, by measuring the effect of one Lookup on the memory and applying it k times. '
           'k_deleter: keys of any length and bytes reach the deleter unchanged.')
assumptions = ['two keys (hashes chosen by the client), two handles, one thread; capacity of at most one entry of charge one per partition']
