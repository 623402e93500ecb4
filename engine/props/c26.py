from spec import Spec

witness = ['w_env.cc']
TECH = 'call-effect analysis through a recording environment; argument provenance at every forwarded call'


class S(Spec):
    assert_is_violation = True


clients = [('c26_forward', S, {'expect': ['exactly one call of the wrapped environment', 'of the same operation', "with the caller's own result argument", 'the arguments arrive unchanged',
                                         'the status is returned unchanged', 'the object produced reaches the caller', 'the function and its argument arrive']})]
explain = ('EnvWapper around an environment that records its calls, all nineteen operations through the Env interface, arbitrary names, numbers and statuses: one call, of the same operation, '
           'the same arguments in the same positions (names compared byte for byte, pointers by identity), the same result and status message.')
