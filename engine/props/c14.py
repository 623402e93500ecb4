from skipspec import Skip

witness = ['w_skip2.cc']
ndebug_quick = False       # left to the thorough tier
TECH = 'abstract interpretation with a release/acquire view of every shared write of the insertion'


class S(Skip):
    max_paths = 1 << 20


class H(S):
    stops = (0, 4, 10)


clients = [('s_overlap', S, {'K': 16, 'budget': 12, 'expect': ['reach:reader', 'overlapping load', 'insert'], 'thorough': {'deep': True, 'budget': 40}}),
           ('s_overlap2', S, {'K': 16, 'budget': 3, 'thorough': {'deep': True, 'budget': 40}, 'expect': ['reach:reader', 'overlapping load', 'insert']}),
           ('s_overlap_heights', H, {'K': 16, 'budget': 3, 'expect': ['reach:reader', 'overlapping load', 'insert'], 'thorough': {'stops': None, 'budget': 40}})]
explain = ('The template is instantiated with 64-bit keys. Every write that Insert makes to shared memory is recorded with its order and with what a release store or fence publishes; a reader operation '
           '(Contains, Seek, SeekToFirst, SeekToLast, and Next or Prev after Seek) that overlaps one or two insertions may see, at each load, every value that the C++ release/acquire rules allow it to see. '
           'For every reachable list of up to three (thorough: four) keys with heights 1, 2, 12 (and two keys with more heights), every inserted key and every such choice: the reader never follows an unwritten link, '
           'never uses a plain field without having synchronised with its write, stays in the bounds of each node, never skips a key inserted before it started, and stops only at inserted keys.')
assumptions = ['one writer at a time, as the interface requires; at most two insertions overlap one reader operation', 'the arena returns fresh memory of the requested size, aligned when asked for (C13)',
               'coherence of repeated loads of one location is not assumed (more behaviours than C++ allows are considered)']
