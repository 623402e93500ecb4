from leak import Leaks

witness = ['w_status.cc']
TECH = 'ownership of heap blocks (typestate) and byte-provenance of the message through every constructor, copy and move'


class S(Leaks):
    assert_is_violation = True


X = ['ok() only for OK', 'exactly the matching predicate is true', 'ToString has the first message', 'ToString has the second message', "two messages are joined with ': '"]
clients = [('c19_make', S, {'expect': X}), ('c19_ops', S, {'expect': X}), ('c19_seq', S, {'expect': X})]
explain = ('All six constructors, and all pairs of codes for each of copy/move construction and assignment (self-assignment and self-move included), with messages of arbitrary lengths and '
           'bytes; then sequences in which sources change, die or are reused.  Every block is tracked from new[] to delete[]: each is released exactly once, none is used after release, and the '
           'bytes ToString returns are traced back to the messages given.')
assumptions = ['messages totalling less than 4 GiB']
