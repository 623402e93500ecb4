from spec import Spec

witness = ['w_coding.cc']
TECH = 'exact integer (affine with divisibility) domain over the generator\'s arithmetic'


class S(Spec):
    assert_is_violation = True


clients = [('c28_next', S, {'expect': ['the first value is in 1..2^31-2', 'the first value follows the recurrence from the seed', 'after any value the generator continues as one seeded with that value']}),
           ('c28_range', S, {'expect': ['Uniform(n) < n', 'OneIn(1) is always true', 'Skewed(max_log) < 2^max_log']})]
explain = 'Any 32-bit seed, then Next (range and recurrence in exact integers) and Next again, compared with a generator freshly seeded with the first value (so the recurrence carries over to every later value); Uniform with any n >= 1, OneIn(1) and Skewed with every max_log in 0..30.'
