from inter import Inter
from spec import Spec
from ai import *
from lin import *

witness = ['w_sched.cc']
TECH = 'interference-aware abstract interpretation of the scheduler and its worker: typestate of every item, of the lock at every call, and of every wake-up'


class Threads(Inter):
    assert_is_violation = True

    def on_thread(self, st, t, state):
        st = st.copy()
        st.ghost['threads'] = st.ghost.get('threads', ()) + ((state, t),)
        st.ghost['loose'] = st.ghost.get('loose', ()) + (t,)
        self.oblige()
        if len(st.ghost['threads']) > self.max_threads:
            self.report(st, 'contract', 'more than one worker thread is started')
            return []
        return [st]

    max_threads = 1

    def on_detach(self, st, t, join):
        st = st.copy()
        st.ghost['loose'] = tuple(x for x in st.ghost.get('loose', ()) if x != t)
        if join and not getattr(self, 'joinable', False):
            self.report(st, 'contract', 'the caller waits for the thread')
            return None
        return st

    def run_thread(self, st):
        """[(state)] after the only thread created has run to its end"""
        ths = st.ghost.get('threads', ())
        if len(ths) != 1:
            self.report(st, 'contract', 'the operation started %d threads instead of one' % len(ths))
            return []
        if st.ghost.get('loose'):
            self.report(st, 'contract', 'the thread is neither detached nor joined')
            return []
        p = ths[0][0]
        out = []
        for s1, vt in self.load(st, p, 8, 'ptr'):
            for s2, vt in self.deref_ptr(s1, vt):
                for s3, fp in self.load(s2, Ptr(vt.obj, vt.off + 16), 8, 'ptr'):
                    fp = self.res(s3, fp)
                    f = self.p.funcs.get(getattr(fp.obj, 'name', '')) if isinstance(fp, Ptr) else None
                    if f is None:
                        s3 = s3.copy()
                        s3.imprecise('thread function')
                        out.append(s3)
                        continue
                    s3 = s3.copy()
                    s3.note(self.where(s3), 'the new thread runs')
                    out += [x for x, _ in self.call(s3, f, [p])]
        return out

    def v_run_thread(self, s, a, i):
        if s.ghost.get('locks'):
            self.report(s, 'lock kept', 'an operation ends with a mutex still held')
        return [(t, None) for t in self.run_thread(s)]


class Q(Threads):
    spurious_max = 1
    force_unroll = 16
    unroll_states = 20000
    inter = 'x_sched'
    inter_max = 2

    def v_next(self, s, a, i):
        s = s.copy()
        s.ghost['n'] = s.ghost.get('n', 0) + 1
        return [(s, C(s.ghost['n']))]

    def v_sched(self, s, a, i):
        s = s.copy()
        g = s.ghost
        n = s.norm(a[1]).c
        if s.norm(a[0]).c:
            g['before'] = g.get('before', ()) + ((n, g.get('done', ())),)
            g['op'] = g.get('op', ()) + ((n, 0),)
        else:
            g['done'] = g.get('done', ()) + (n,)
            locked = dict(g['op'])[n]
            g['op'] = tuple(x for x in g['op'] if x[0] != n)
            self.oblige()
            if not locked:
                self.report(s, 'contract', 'an item is queued without the lock')
        return [(s, None)]

    def on_lock(self, st, p):
        st = super().on_lock(st, p)
        if st is not None and st.ghost.get('op'):
            op = st.ghost['op']
            st.ghost['op'] = op[:-1] + ((op[-1][0], op[-1][1] + 1),)
        return st

    def on_unlock(self, st, p):
        if p not in st.ghost.get('locks', ()):
            self.report(st, 'unlock without lock', 'a mutex that is not held is unlocked')
            return None
        return super().on_unlock(st, p)

    def on_notify(self, st, p, all_):
        op = st.ghost.get('op', ())
        if op and op[-1][1]:
            st = st.copy()
            st.ghost['notified'] = (p, op[-1][1])
        return st

    def on_access(self, st, p, size, kind, val=None):
        st = super().on_access(st, p, size, kind, val)
        if st is not None and kind == 'store' and p.obj.kind != 'alloca' and st.ghost.get('op') and st.ghost.get('locks'):
            # the queue may be extended here: an earlier notification in another critical section came too early
            n = st.ghost['op'][-1][1]
            if st.ghost.get('notified') and st.ghost['notified'][1] < n:
                st = st.copy()
                st.ghost['notified'] = None
        return st

    def v_work(self, s, a, i):
        s = s.copy()
        g = s.ghost
        self.oblige()
        self.checks['item runs'] = self.checks.get('item runs', 0) + 1
        n = self.res(s, a[0])
        n = s.norm(n) if isinstance(n, Lin) else None
        if n is None or not n.is_const():
            self.report(s, 'contract', 'a work function is called with something that was not scheduled')
            return []
        n = n.c
        if s.ghost.get('locks'):
            self.report(s, 'contract', 'a work function is called with a lock held')
        ran = g.get('ran', ())
        if n in ran:
            self.report(s, 'contract', 'an item runs twice')
            return []
        bf = dict(g.get('before', ()))
        if n not in bf:
            self.report(s, 'contract', 'a work function is called with an argument that was not scheduled')
            return []
        if any(k not in ran for k in bf[n]):
            self.report(s, 'contract', 'an item runs before one that was scheduled earlier')
            return []
        if s.norm(a[1]).c != n % 2:
            self.report(s, 'contract', "an item runs another item's function")
            return []
        g['ran'] = ran + (n,)
        return [(t, None) for t in self.points(s)]

    def on_wait(self, st, cv, m):
        g = st.ghost
        self.oblige()
        if m not in g.get('locks', ()):
            self.report(st, 'contract', 'the worker sleeps without holding the lock')
            return []
        self.checks['sleep'] = self.checks.get('sleep', 0) + 1
        if any(k not in g.get('ran', ()) for k in g.get('done', ())):
            self.report(st, 'contract', 'the worker sleeps although an item is queued')
            return []
        if g.get('other') or g.get('op'):
            self.report(st, 'contract', 'Schedule waits for the worker')
            return []
        st = st.copy()
        g = st.ghost
        rest = tuple(x for x in g['locks'] if x != m)
        g['notified'] = None
        g['locks'] = rest
        out = []
        for t in self.points(st):
            t = t.copy()
            t.ghost['locks'] = rest + (m,)
            if t.ghost.get('n') == st.ghost.get('n'):
                # nothing happened: blocked, or a spurious wake-up
                if t.ghost.get('spurious', 0) < self.spurious_max:
                    t.ghost['spurious'] = t.ghost.get('spurious', 0) + 1
                    out.append(t)
                continue
            self.checks['woken'] = self.checks.get('woken', 0) + 1
            if (t.ghost.get('notified') or (None,))[0] != cv:
                self.report(t, 'contract', 'an item is queued while the worker sleeps and nothing wakes it')
                continue
            out.append(t)
        return out


class Many(Q):
    inter = None
    spurious_max = 0
    force_unroll = 200


class T(Threads):
    def v_mark(self, s, a, i):
        return [(s, None)]

    def v_started(self, s, a, i):
        s = s.copy()
        s.ghost['runs'] = s.ghost.get('runs', 0) + 1
        n = self.res(s, a[0])
        self.oblige()
        if not isinstance(n, Lin) or not s.eq(n - 77):
            self.report(s, 'contract', 'the thread function gets another argument')
        return [(s, None)]

    def v_end(self, s, a, i):
        self.oblige()
        self.checks['thread ran'] = self.checks.get('thread ran', 0) + 1
        if s.ghost.get('runs', 0) != 1:
            self.report(s, 'contract', 'the thread function runs %d times' % s.ghost.get('runs', 0))
        return [(s, None)]


clients = [('c09_queue', Q, {'expect': ['item runs'], 'budget': 4, 'thorough': {'inter_max': 3, 'spurious_max': 2, 'budget': 60}}), ('c09_many', Many, {'K': 200, 'expect': ['item runs', 'sleep']}),
           ('c09_start', T, {'expect': ['thread ran']})]
explain = ('Schedule calls of the client and, at every lock acquisition, during every sleep and after every item, of other threads, against the worker that the first of them starts; the queue, std::function '
           'and std::thread are interpreted down to the mutex, the condition variable and the start of the thread.  Each item must run once with its own function and argument, after all items whose Schedule '
           'had returned before its own began, with no lock held; a sleep with an item pending, a sleeping worker that is not notified of a new item, a notification before the lock is taken, a second worker or a '
           'thread that is not detached are violations; wake-ups without notification are included.')
assumptions = ['at most 4 items, 2 (thorough: 3) of them by other threads, and one spurious wake-up (two in the thorough tier)']
