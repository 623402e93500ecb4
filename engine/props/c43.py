from spec import Spec
from ai import *
from lin import *

witness = ['w_sleep.cc']
TECH = 'symbolic accounting of the time asked for, over all durations and interruptions'


class S(Spec):
    assert_is_violation = True
    force_unroll = 8
    unroll_states = 2000
    max_signals = 2

    def v_slept(self, s, a, i):
        self.oblige()
        self.checks['slept'] = self.checks.get('slept', 0) + 1
        n = s.norm(a[0]).scale(1000) - s.ghost.get('slept', ZERO)
        t = s.assume_ge(n - 1)
        if t is not None:
            self.report(t, 'too short', 'the thread sleeps less than it was asked to')
        return [(s, None)]


clients = [('c43_sleep', S, {'expect': ['slept', 'reach:slept'], 'thorough': {'max_signals': 5}})]
explain = ('SleepForMicroseconds with an arbitrary argument, interpreted down to nanosleep, clock_nanosleep or usleep; the requests and the time left after each interruption are added up symbolically and compared with '
           'the argument. A request that is no valid time counts for nothing.')
assumptions = ['at most two signals during one sleep (thorough: five)', 'the kernel sleeps at least as long as it is asked to and reports the time left correctly']
