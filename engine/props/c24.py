from spec import Spec

witness = ['w_memdata.cc']
ndebug_quick = False       # left to the thorough tier
TECH = 'abstract interpretation of symbolic-length appends and reads; region contents compared with the appended stream'


class S(Spec):
    assert_is_violation = True
    check_mem = True
    force_unroll = 8
    unroll_states = 4000
    split_div = 4
    max_paths = 60000


clients = [('d_random', S, {'budget': 8, 'expect': ['reach:random access']}),
           ('d_pieces', S, {'budget': 4, 'expect': ['reach:pieces']}),
           ('d_seq', S, {'budget': 4, 'expect': ['reach:sequential']}),
           ('d_again', S, {'budget': 4, 'expect': ['reach:again']})]
explain = ('A file is filled with an arbitrary amount of arbitrary data (up to three blocks and a bit) in up to four pieces of arbitrary lengths; lengths, offsets (all 64 bits) and read sizes stay symbolic '
           'and are split only at block boundaries. What a read delivers is compared, as a description of memory regions, with the part of the data that was appended at that place. '
           'd_seq: any three reads or skips of arbitrary size. d_again: a file read, then continued or emptied and written anew under an open reader.')
assumptions = ['files up to 3 blocks + 100 bytes, at most four appends, three sequential operations']
