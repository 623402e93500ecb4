from inter import Inter
from ai import *
from lin import *
from spec import Spec
from posixspec import PosixSpec

witness = ['w_lock.cc']
TECH = 'typestate of the lock file against a model of POSIX record locks, with interference at every lock acquisition and system call'
F_GETFD, F_SETFD, F_GETFL, F_SETFL, F_SETLK, F_SETLKW, OFD_SETLK, OFD_SETLKW = 1, 2, 3, 4, 6, 7, 37, 38
F_RDLCK, F_WRLCK, F_UNLCK = 0, 1, 2
SYS = ('open', 'openat', 'creat', 'close', 'fcntl', 'flock', 'open64', 'fcntl64')


class S(Inter):
    assert_is_violation = True
    inter = 'x_lock'
    inter_at = ('lock', 'sys')
    path_key = PosixSpec.path_key

    def v_name(self, s, a, i):
        s = s.copy()
        g = s.ghost
        k = s.norm(a[0]).c
        key = self.region_keys(s, self.res(s, a[1]).obj, self.res(s, a[1]).off, s.norm(a[2]))[0][1]
        g['names'] = g.get('names', ()) + (key,)
        g[('fds', k)] = ()
        g[('os', k)] = None              # None, or the descriptor whose fcntl() obtained the lock
        g[('holder', k)] = None
        return [(s, None)]

    def me(self, s):
        return 'x' if s.ghost.get('other') else 'm'

    def which(self, st, fd):
        for k in range(len(st.ghost['names'])):
            if any(st.eq(x - fd) for x, _ in st.ghost[('fds', k)]):
                return k
        return None

    def lost(self, st, k, why):
        """the record lock of file k ends"""
        h = st.ghost[('holder', k)]
        self.oblige()
        if h is not None:
            self.report(st, 'lock lost', 'the record lock of a held file ends: %s' % why)
            return False
        return True

    def on_sys(self, st, name, args, r, ok, err):
        g = st.ghost
        if 'names' not in g or len(g['names']) < 2:
            return st
        st = st.copy()
        g = st.ghost
        if not ok:
            g['failed' + self.me(st)] = True
        self.checks[name] = self.checks.get(name, 0) + 1
        if name in ('open', 'openat', 'creat') and ok:
            key = self.path_key(st, args[1 if name == 'openat' else 0])
            fl = st.norm(args[2 if name == 'openat' else 1]) if name != 'creat' else C(1)
            for k, n in enumerate(g['names']):
                if n == key:
                    g[('fds', k)] = g[('fds', k)] + ((r, fl.c & 3 if fl.is_const() else 2),)
        elif name == 'close':
            k = self.which(st, args[0])
            if k is not None:
                g[('fds', k)] = tuple(x for x in g[('fds', k)] if not st.eq(x[0] - args[0]))
                o = g[('os', k)]
                if o is not None and (o[0] == 'process' or st.eq(o[1] - args[0])):
                    if not self.lost(st, k, 'a descriptor of the file is closed'):
                        return None
                    g[('os', k)] = None
        elif name == 'fcntl' and ok:
            cmd = st.norm(args[1])
            cmd = cmd.c if cmd.is_const() else -1
            if cmd in (F_SETLK, F_SETLKW, OFD_SETLK, OFD_SETLKW):
                k = self.which(st, args[0])
                p = self.res(st, args[2])
                if k is None:
                    return st
                t = self.field(st, p, 0, 2)
                o = g[('os', k)]
                kind = 'process' if cmd in (F_SETLK, F_SETLKW) else 'file'
                if t == F_UNLCK:
                    if o is not None:
                        if not self.lost(st, k, 'it is unlocked'):
                            return None
                        g[('os', k)] = None
                elif t == F_WRLCK:
                    acc = [x[1] for x in g[('fds', k)] if st.eq(x[0] - args[0])][0]
                    if acc == 0:
                        self.report(st, 'not locked', 'an exclusive lock is requested through a read-only descriptor, which never succeeds (EBADF)')
                        return None
                    if [self.field(st, p, x, n) for x, n in ((2, 2), (8, 8), (16, 8))] == [0, 0, 0]:
                        g[('os', k)] = (kind, args[0])
                elif o is not None and not self.lost(st, k, 'it is converted'):
                    return None
        return st

    def field(self, st, p, off, n):
        r = self.load(st, Ptr(p.obj, p.off + off), n, 'i%d' % (8 * n))
        v = r[0][1] if len(r) == 1 else None
        v = st.norm(v) if isinstance(v, Lin) else None
        return v.c if v is not None and v.is_const() else None

    def v_lock(self, s, a, i):
        s = s.copy()
        g = s.ghost
        me = self.me(s)
        k = s.norm(a[2]).c
        if s.norm(a[0]).c:
            g['failed' + me] = False
            g['was' + me] = g[('holder', k)]
            g['at' + me] = g.get('nint', 0)
            g['n' + me] = len(g[('fds', k)])
            return [(s, None)]
        alone = g.pop('at' + me) == g.get('nint', 0) and me == 'm'
        was = g.pop('was' + me)
        n = g.pop('n' + me)
        failed = g.pop('failed' + me)
        out = []
        for t, ok in self.cond(s, a[1]):
            t = t.copy()
            g = t.ghost
            self.oblige()
            self.checks['locked' if ok else 'refused'] = self.checks.get('locked' if ok else 'refused', 0) + 1
            if ok:
                if g[('holder', k)] is not None:
                    self.report(t, 'two holders', 'LockFile returns OK for a file that is locked and was not unlocked')
                    continue
                if g[('os', k)] is None:
                    self.report(t, 'not locked', 'LockFile returns OK without an exclusive record lock on the whole file')
                    continue
                g[('holder', k)] = me
            elif alone:
                if was is None and not failed:
                    self.report(t, 'kept back', 'LockFile is refused although the file is not locked and no system call failed: something was not given back')
                if g[('holder', k)] is None and g[('os', k)] is not None:
                    self.report(t, 'kept back', 'a failed LockFile keeps the record lock')
                if len(g[('fds', k)]) != n:
                    self.report(t, 'kept back', 'a failed LockFile does not leave the descriptors as they were')
            out.append((t, None))
        return out

    def v_unlock(self, s, a, i):
        s = s.copy()
        g = s.ghost
        me = self.me(s)
        k = s.norm(a[2]).c
        if s.norm(a[0]).c:
            g[('holder', k)] = None
            g['failed' + me] = False
            return [(s, None)]
        failed = g.pop('failed' + me)
        out = []
        for t, ok in self.cond(s, a[1]):
            t = t.copy()
            g = t.ghost
            self.oblige()
            if not ok:
                if not failed:
                    self.report(t, 'kept back', 'UnlockFile fails although no system call failed')
                if g[('os', k)] is None:
                    continue
                if g[('holder', k)] is not None:
                    self.report(t, 'two holders', 'a file whose unlocking failed was locked by someone else')
                    continue
                g[('holder', k)] = me
            elif g[('holder', k)] is None and (g[('os', k)] is not None or g[('fds', k)]) and me == 'm' and not g.get('inter'):
                self.report(t, 'kept back', 'UnlockFile returns OK but the record lock or the descriptor is still there')
                continue
            self.checks['unlocked'] = self.checks.get('unlocked', 0) + 1
            out.append((t, None))
        return out

clients = [('c07_history', S, {'expect': ['reach:any history', 'locked', 'refused', 'unlocked']}), ('c07_threads', S, {'budget': 5, 'max_paths': 60000, 'expect': ['reach:two threads', 'locked', 'refused', 'unlocked']})]
explain = ('LockFile and UnlockFile run against a model of POSIX record locks: locks belong to the process and the file, closing any descriptor of the file drops them, the same process never conflicts with itself. '
           'c07_history: any history over two file names, every open and fcntl failing or succeeding (inductive). c07_threads: lock, unlock, lock by one thread with up to two whole operations of another thread on the same name inserted '
           'at every lock acquisition and every system call. Rules: OK only with an exclusive whole-file lock and no other holder; the lock of a holder is never dropped, released or converted by anyone else; a refused LockFile leaves '
           'descriptors and lock as they were and is refused only if the file is held or a system call failed; a successful UnlockFile leaves neither lock nor descriptor.')
assumptions = ['different names are different files', 'preemption is explored as whole operations of the other thread between steps of this one (at most two)']
