from spec import Spec
from ai import *
from lin import *

witness = ['w_coding.cc']
TECH = 'bit-level symbolic values through shifts, masks and stores; contract obligations at the client'
LPS = 'lsmdb::GetLengthPrefixedSlice(char const*, char const*, lsmdb::Slice*)'


class S(Spec):
    K = 13
    assert_is_violation = True
    force_unroll = 12
    max_unroll = 12

    def lps(self):
        for f in self.p.funcs.values():
            if f.dem == LPS and f.has_body:
                return f
        return None

    def v_islps(self, s, a, i):
        return [(s, ONE if self.lps() else ZERO)]

    def v_lps(self, s, a, i):
        return self.call(s, self.lps(), a)


clients = [('c16_fixed', S, {'expect': ['fixed32 round-trips', 'PutFixed64 round-trips', 'fixed encoding is little-endian']}),
           ('c16_var32', S, {'expect': ['varint32 round-trips', 'VarintLength is the encoder\'s length']}),
           ('c16_var64', S, {'expect': ['varint64 round-trips', 'GetVarint64 yields the value']}),
           ('c16_put', S, {'expect': ['PutVarint32 appends exactly the encoding', 'PutVarint64 appends exactly the encoding']}),
           ('c16_lps', S, {'expect': ['the payload follows its length', 'a length-prefixed slice decodes']})]
explain = ('Values are arbitrary in each of the 5 / 10 length classes; bits are tracked symbolically through shifts, masks, stores and loads, so each encoded byte and each decoded '
           'value is compared for all values at once.  Loops have at most 10 iterations and are unrolled completely.')
assumptions = ['length-prefixed payloads below 2^30 bytes']
