from posixspec import *

# failures of these calls are not what an operation depends on
INCIDENTAL = ('close', 'closedir', 'munmap', 'getrlimit', 'fclose', 'fflush', 'chmod')


class S(PosixSpec):
    check_mem = False
    coarse = True
    contracts = True

    def on_ready(self, s):
        s = s.copy()
        s.ghost['entries'] = ZERO
        return s

    def counted(self, st, op, name):
        if name == 'close':
            return op == 'Close'
        if op == 'GetTestDirectory':
            return False
        return name not in INCIDENTAL

    def on_sys(self, st, name, args, r, ok, err):
        st = st.copy()
        op = st.ghost.get('op', '')
        f = st.ghost.get('fails', ())
        if f and f[-1][0] == name and isinstance(f[-1][1], Lin) and st.eq(f[-1][1] - EINTR):
            f = f[:-1]          # the interrupted call is being retried
        if not ok and self.counted(st, op, name) and st.ghost.get('op') not in (None, 'delete'):
            f = f + ((name, err),)
        st.ghost['fails'] = f
        st.ghost['ev'] = (ONE,)
        if name == 'readdir' and ok and err is None:
            n = st.norm(st.ghost.get('entries', ZERO) + 1)
            st.ghost['entries'] = n
            st = st.assume_ge(C(1 << 40) - n)
            if st is None:
                return None
            st = st.copy()
        return st

    def hook_loop_head(self, st, f, header):
        st = super().hook_loop_head(st, f, header)
        n = st.ghost.get('entries')
        return st.assume_ge(C(1 << 40) - n) if n is not None and st is not None else st

    def on_done(self, s, op, ok, nf, io):
        fails = s.ghost.get('fails', ())
        self.oblige()
        if not fails:
            if not ok and not (op in ('RandomRead', 'Skip') and not s.ghost.get('ev')):
                self.report(s, 'success reported as failure', '%s: every system call succeeded but the result is a failure' % op)
            return s
        if ok:
            self.report(s, 'failure swallowed', '%s reports success although %s failed' % (op, fails[0][0]))
            return s
        if op == 'FileExists':
            return s
        out = []
        for name, err in fails:
            t = s.assume_eq(err - EINTR) if name in ('read', 'write') else None
            if t is not None and (len(fails) == 1):
                self.report(t, 'interruption reported', '%s: an interrupted %s is reported instead of retried' % (op, name))
        # some failed call must explain the classification on every refinement
        st = s
        for name, err in fails:
            t = st.assume_ne(err - ENOENT) if nf else st.assume_eq(err - ENOENT)
            if t is None:
                return s
            st = t
        self.report(st, 'misclassified', '%s: %s failed with errno %s ENOENT but the result is %s' % (op, fails[0][0], 'other than' if nf else '==', 'NotFound' if nf else 'not NotFound'))
        return s


clients = [(c, S) for c in ('p_sequential', 'p_random', 'p_writable', 'p_names', 'p_children', 'p_lock')]
explain = ('Every operation of the default environment on arbitrary names and files, with every outcome (success, any errno) of every system call. '
           'The failures of the calls an operation depends on are collected in the order they happen. Rules: with none, the result is success; with one, the result is a failure, '
           'and it is NotFound only if one of the collected errors can be ENOENT, otherwise not NotFound only if one can be something else; an interrupted read or write is retried.')
TECH = 'collecting monitor over system-call outcomes: the status of every operation is compared with the failures that happened in it'
