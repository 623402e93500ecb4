import os
from spec import Spec

witness = ['w_codec.cc']
TECH = 'exact interpretation of every path in each build configuration, against stand-ins with the optional libraries\' documented behaviour'
_inc = '-I' + os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'witness', 'fake')
configurations = [('with Snappy and CRC32C built in', ['-DHAVE_SNAPPY=1', '-DHAVE_CRC32C=1', _inc]),
                  ('without them', ['-DHAVE_SNAPPY=0', '-DHAVE_CRC32C=0'])]


class S(Spec):
    assert_is_violation = True


clients = [('f_compress', S, {'expect': ['Snappy_Compress tells whether it compressed', 'the output is what was compressed, or untouched']}),
           ('f_length', S, {'expect': ['the length is the library\'s, or untouched']}),
           ('f_uncompress', S, {'expect': ['the data is the library\'s, or untouched']}),
           ('f_other', S, {'expect': ['the checksum is the library\'s, or 0', 'no heap profile is claimed where none is made']})]
explain = ('Each wrapper with arbitrary input and output, in both build configurations.  Built in: the library is asked about exactly the caller\'s bytes, may use all the room it is '
           'promised and no more, and its answer is the wrapper\'s.  Left out: the answer is no, and nothing is touched.')
assumptions = ['Snappy and CRC32C meet their documentation']
