from skipspec import Skip

witness = ['w_skip.cc']
TECH = 'abstract interpretation over all insertion histories (exact collecting fixpoint) against an ordered-set oracle'


class S(Skip):
    pass


class H(Skip):
    stops = None


X = ['height drawn', 'node', 'insert', 'Contains is true exactly for inserted keys', 'Seek stops at the first key not less than the target', 'SeekToFirst moves to the first key',
     'SeekToLast moves to the last key', 'Next moves to the next key', 'Prev moves to the previous key', 'a new iterator is not valid']
clients = [('s_order', S, {'K': 16, 'budget': 5, 'expect': X + ['reach:any insertions'], 'thorough': {'deep': True, 'budget': 40}}),
           ('s_heights', H, {'K': 16, 'budget': 3, 'expect': X + ['reach:any heights']})]
explain = ('The template is instantiated with 64-bit keys and a comparator that returns any number of the right sign. Every insertion order of any subset of four (thorough: five) keys, each node with height 1, 2 or 12, '
           'and of two keys with every pair of heights: the set of reachable lists comes to an end, and in each of them every operation (Contains and Seek for every key, SeekToFirst, SeekToLast, Next and Prev from every key) '
           'agrees with the ordered set of inserted keys; no assertion fails, no access leaves a node, and the dummy key of the head is never compared.')
assumptions = ['at most five keys; heights come from Random::Next, whose results are arbitrary', 'the arena returns fresh memory of the requested size, aligned when asked for (C13)']
