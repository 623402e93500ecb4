from leak import Leaks

witness = ['w_env.cc']
TECH = 'typestate of the file object over every outcome of every step; byte-provenance of the data'


class S(Leaks):
    assert_is_violation = True


clients = [('c27_write', S, {'expect': ['OK exactly when every step succeeded', 'the first error is returned', 'a file that could not be completed is removed',
                                       'OK only when the data was synced before closing', 'the file object is destroyed exactly once']}),
           ('c27_read', S, {'expect': ['OK only at the end of the file', 'the fragments are in order', 'the file object is destroyed exactly once']})]
explain = ('Both helpers run against an environment each of whose steps may succeed or fail with distinguishable errors, data of any length, fragments of any length at the scratch buffer or '
           'elsewhere, any number of reads (the loop is solved with widening).')
assumptions = ['files read are at most 1 GiB', 'append, sync and close outcomes are those of the environment interface']
