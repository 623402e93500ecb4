from memspec import Mem
from accel import Accel
from leak import Leaks
from spec import Spec
import c24

witness = ['w_memenv.cc', 'w_memdata.cc']
TECH = 'ownership (reference-count) analysis over all histories: heap objects tracked from allocation to release'


class S(Mem):
    assert_is_violation = True
    want = ('data',)


class D(c24.S, Leaks):
    pass


class R(Accel, c24.S):
    pass


clients = [('m_life', S, {'budget': 3, 'expect': ['reach:any history of an in-memory environment', 'read', 'create', 'append', 'open', 'remove', 'rename']}),
           ('d_life', D, {'budget': 3, 'expect': ['reach:life of a long file']}), ('d_refs', R, {'expect': ['reach:many readers', 'many']})]
explain = ('Histories of any length over an in-memory environment with two names, one writer and one reader (random or sequential): create, append-open, open, read, '
           'grow, close, remove, rename (also onto itself and onto an existing file), in any order, ending with the environment or the open files destroyed first. '
           'The reachable states of the history loop are computed as a set of exact states up to renaming of fresh objects; the set comes to an end, so the result covers every history. '
           'Rules: no access to released memory, no double release, everything allocated is released at the end, and an open file delivers its contents. '
           'd_life: a file of an arbitrary length (up to two blocks and a bit) removed, replaced or emptied with a reader and a writer open or not. d_refs: any number of readers (up to 2^30) of one file, '
           'by measuring the effect of one open on the memory and applying it k times.')
assumptions = ['two names, one writer and one reader at a time; files of at most one byte in the histories']
