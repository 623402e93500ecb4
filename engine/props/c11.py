from cachespec import Cache

witness = ['w_cache.cc']
ndebug_quick = False       # left to the thorough tier
TECH = 'effect analysis over all histories of the cache against an oracle of eviction order and charge'


class S(Cache):
    want = ('capacity',)


X = ['hash', 'insert', 'lookup', 'release', 'erase', 'prune', 'destroy', 'deleted', 'total']
clients = [('k_charge', S, {'budget': 3, 'expect': ['reach:charge'] + X}),
           ('k_edges', S, {'expect': ['reach:edges'] + X}),
           ('k_scale', S, {'expect': ['reach:scale'] + X}),
           ('k_order', S, {'budget': 3, 'expect': ['reach:order'] + X}),
           ('k_pinned', S, {'budget': 3, 'expect': ['reach:pinned'] + X, 'thorough': {'deep': True, 'budget': 30}})]
explain = ('Histories of any length over one partition: insert (with charges of zero, below, at and above the capacity, in any unit), lookup, release, erase, prune in any order, some entries held, or over the first and the last partition, and TotalCharge '
           'in every state. The reachable states of the history loop are computed as a set of exact states up to renaming of fresh objects; the set comes to an end, so the result covers every history. '
           'An oracle keeps the unpinned entries in the order of their last release. Rules: an operation removes exactly the entries the oracle removes, '
           'TotalCharge equals the sum of the charges of the cached entries.')
assumptions = ['three keys with one handle, or two keys with two handles, in one partition; capacities of two and three, charges none to three, in units of any size up to 2^55 (k_scale); one thread']
