from spec import Spec
from ai import *
from lin import *

witness = ['w_port.cc']
TECH = 'effect analysis: the exact sequence of lock, unlock, wait and notify operations on each underlying object'


class S(Spec):
    assert_is_violation = True

    def ev(self, st, x):
        st = st.copy()
        st.ghost['ev'] = st.ghost.get('ev', ()) + (x,)
        return st

    def on_lock(self, st, p):
        if p in st.ghost.get('locks', ()):
            self.report(st, 'self-deadlock', 'the mutex is locked while this thread holds it')
            return None
        return self.ev(super().on_lock(st, p), ('L', p))

    def on_unlock(self, st, p):
        if p not in st.ghost.get('locks', ()):
            self.report(st, 'unlock without lock', 'a mutex that is not held is unlocked')
            return None
        return self.ev(super().on_unlock(st, p), ('U', p))

    def on_notify(self, st, p, all_):
        return self.ev(st, ('A' if all_ else '1', p))

    def on_wait(self, st, cv, m):
        if m not in st.ghost.get('locks', ()):
            self.report(st, 'wait without lock', 'waiting on a condition variable with a mutex that is not held')
            return []
        cvs = st.ghost.get('cvs', ())
        if cvs and cvs[0] != cv:
            self.report(st, 'contract', 'waits use different condition variables')
        st = self.ev(st, ('W', cv))
        st.ghost['cvs'] = (cv,)
        return [st]

    def v_held(self, s, a, i):
        rule = self.text_of(s, a[1])
        self.oblige()
        self.checks[rule] = self.checks.get(rule, 0) + 1
        if len(s.ghost.get('locks', ())) != s.norm(a[0]).c:
            self.report(s, 'contract', rule, self.where(s))
        return [(s, None)]

    def v_events(self, s, a, i):
        rule = self.text_of(s, a[1])
        want = self.text_of(s, a[0])
        self.oblige()
        self.checks[rule] = self.checks.get(rule, 0) + 1
        ev = s.ghost.get('ev', ())
        if ''.join(x[0] for x in ev) != want:
            self.report(s, 'contract', '%s: the operations were "%s"' % (rule, ''.join(x[0] for x in ev)), self.where(s))
        if any(x[0] in '1AW' and s.ghost.get('cvs', (x[1],))[0] != x[1] for x in ev):
            self.report(s, 'contract', '%s: on another condition variable' % rule, self.where(s))
        s = s.copy()
        s.ghost['ev'] = ()
        return [(s, None)]


clients = [('c31_mutex', S, {'expect': ['Lock locks once', 'Unlock unlocks once']}),
           ('c31_scoped', S, {'expect': ['a scoped lock unlocks when it dies, on every path', 'a scoped lock holds its mutex until the end of its scope']}),
           ('c31_cond', S, {'expect': ['Wait returns with the mutex held', 'Signal wakes one waiter', 'SignalAll wakes every waiter']})]
explain = ('The wrappers are interpreted down to std::mutex and std::condition_variable: each operation must perform exactly the operations its name says, on its own object, '
           'on every way out of a scope; what std::mutex and std::condition_variable do is taken from their specification.')
assumptions = ['std::mutex and std::condition_variable meet their specification']
