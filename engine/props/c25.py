from memspec import Mem
from spec import Spec

witness = ['w_memenv.cc']
TECH = 'abstract interpretation against an oracle of names and files, over all histories (inductive)'


class S(Mem):
    want = ('name space', 'data')


class N(Spec):
    assert_is_violation = True


clients = [('m_names', S, {'budget': 3, 'expect': ['reach:any history of names', 'read', 'create', 'append', 'open', 'remove', 'rename']}),
           ('m_children', N, {'expect': ['reach:children']}),
           ('m_exact', N, {'expect': ['reach:exact']})]
explain = ('m_names: histories of any length over two names, one a prefix of the other: create, append-open, grow, close, open and read, remove, rename, existence and size queries, against an oracle that maps names to numbered files; '
           'the reachable exact states (up to renaming of fresh objects) are enumerated to the end. m_exact and m_children: arbitrary symbolic names; equality of names and membership in a directory are known by construction '
           '(equal, longer, shorter, one byte changed; child, same prefix with another separator, shorter, changed prefix).')
assumptions = ['two names in histories, sizes up to two bytes']
