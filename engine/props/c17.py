import c16

witness = ['w_coding.cc']
TECH = 'bounds of every byte read, on arbitrary input of arbitrary length'


class S(c16.S):
    K = 13


class H(c16.S):
    force_unroll = 0
    K = 3


clients = [('c17_var32', S, {'expect': ['no complete varint32: failure', 'on failure the input is unchanged']}),
           ('c17_var64', S, {'expect': ['no complete varint64: failure', 'on failure the input is unchanged']}),
           ('c17_lps', S, {'expect': ['no complete length-prefixed slice: failure', 'the result lies inside the input, after its length']}),
           ('c17_hash', H, {'expect': ['reach:Hash']})]
explain = ('Decoders and Hash on memory of exactly n arbitrary bytes, any n: every access must be inside it; the outcome is compared with the position of the first '
           'terminating byte.  The hash loop is solved with widening for every length.')
assumptions = ['lengths below 2^40']
