from spec import Spec

witness = ['w_slice.cc']


class S(Spec):
    assert_is_violation = True


clients = [('c18_client', S, {'expect': ['reach:pair', 'compare() has the sign of the bytewise order', 'starts_with() means is-a-prefix']}),
           ('c18_edit', S, {'expect': ['ToString length']})]
explain = ('Most-general client: two slices over arbitrary memory of arbitrary lengths that agree on their first d bytes '
           'and differ at byte d (or end there); every comparison operator is compared with the order this construction implies, '
           'and every byte access with the bounds of the two slices.')
assumptions = ['slice lengths below 2^40']
