from posixspec import *

TECH = 'flag and mode analysis of every open, mkdir and fdopen reached by each operation'
O_ACC, O_WRONLY, O_RDWR, O_CREAT, O_EXCL, O_TRUNC, O_APPEND, O_CLOEXEC = 3, 1, 2, 0o100, 0o200, 0o1000, 0o2000, 0o2000000
READERS = ('NewSequentialFile', 'NewRandomAccessFile', 'RandomRead', 'Sync', 'SequentialRead', 'Skip', 'GetFileSize', 'FileExists', 'GetChildren')
APPENDERS = ('NewAppendableFile', 'NewLogger')
CREATORS = ('NewWritableFile', 'LockFile') + APPENDERS


class S(PosixSpec):
    """ghosts: tries = flags attempted in this operation, opened = (fd, flags) successes, noexec = descriptors without close-on-exec"""
    check_mem = False
    coarse = True

    def on_ready(self, s):
        s = s.copy()
        s.ghost.update(tries=(), opened=(), noexec=(), emptied=ZERO)
        return s

    def on_op(self, s):
        s = s.copy()
        s.ghost.update(tries=(), opened=(), emptied=ZERO, tried=())
        return s

    def constv(self, st, x, what):
        x = st.norm(x) if isinstance(x, Lin) else None
        if x is None or not x.is_const():
            st.imprecise('%s not constant' % what)
            return None
        return x.c % (1 << 32)

    def fopen_flags(self, m):
        fl = {'r': 0, 'w': O_WRONLY | O_CREAT | O_TRUNC, 'a': O_WRONLY | O_CREAT | O_APPEND}.get(m[:1], 0)
        if '+' in m:
            fl = fl & ~3 | O_RDWR
        if 'e' in m:
            fl |= O_CLOEXEC
        if 'x' in m:
            fl |= O_EXCL
        return fl

    def on_sys(self, st, name, args, r, ok, err):
        if 'tries' not in st.ghost:
            return st
        op = st.ghost.get('op', '')
        if name in ('open', 'openat', 'creat', 'fopen'):
            self.checks['open:' + op] = self.checks.get('open:' + op, 0) + 1
            self.oblige(3)
            a = args[1:] if name == 'openat' else args
            if name == 'creat':
                fl, mode = O_WRONLY | O_CREAT | O_TRUNC, a[1]
            elif name == 'fopen':
                fl, mode = self.fopen_flags(self.text_of(st, a[1]) or ''), C(0o666)
            else:
                fl, mode = self.constv(st, a[1], 'open flags'), a[2] if len(a) > 2 else None
            if fl is None:
                return st
            st = st.copy()
            g = st.ghost
            g['tries'] = g['tries'] + (C(fl),)
            if fl & O_CREAT:
                m = self.constv(st, mode, 'mode') if mode is not None else 0o777
                if m is not None and m & 0o022:
                    self.report(st, 'writable by others', '%s creates a file with mode %o' % (op, m))
            if op in READERS:
                if fl & O_ACC:
                    self.report(st, 'not read-only', '%s opens for writing' % op)
                if fl & (O_CREAT | O_TRUNC):
                    self.report(st, 'creates or truncates', '%s may create or truncate the file' % op)
            if op in APPENDERS and fl & O_TRUNC and not fl & O_EXCL:
                self.report(st, 'truncates', '%s truncates the existing file' % op)
            if op == 'LockFile' and fl & O_TRUNC and not fl & O_EXCL:
                self.report(st, 'truncates', 'LockFile truncates the existing file')
            if ok:
                g['opened'] = g['opened'] + ((r, C(fl)),)
                if not fl & O_CLOEXEC:
                    g['noexec'] = g['noexec'] + (r,)
            return st
        if name == 'fdopen' and ok:
            self.oblige()
            m = self.text_of(st, args[1]) or ''
            for fd, fl in st.ghost['opened']:
                if isinstance(fd, Lin) and st.eq(fd - args[0]):
                    can = fl.c & O_ACC
                    need = O_RDWR if '+' in m else {'r': 0}.get(m[:1], O_WRONLY)
                    if can != O_RDWR and need != can:
                        self.report(st, 'wrong stream mode', 'fdopen mode "%s" does not fit the descriptor' % m)
        if name == 'fcntl' and ok:
            cmd = self.constv(st, args[1], 'fcntl command')
            if cmd == 2 and len(args) > 2:
                v = self.constv(st, args[2], 'FD flags')
                st = st.copy()
                st.ghost['noexec'] = tuple(d for d in st.ghost['noexec'] if not st.eq(d - args[0])) + (() if v is None or v & 1 else (args[0],))
            if cmd == 4 and len(args) > 2 and (op in APPENDERS):
                v = self.constv(st, args[2], 'file status flags')
                if v is not None and not v & O_APPEND:
                    self.report(st, 'not appending', '%s clears O_APPEND' % op)
        if name == 'fcntl' and not ok:
            st = st.copy()          # it is about to be closed, or found at the end of the operation
            st.ghost['tried'] = st.ghost.get('tried', ()) + (args[0],)
        if name in ('close', 'read', 'write', 'pread', 'mmap', 'fdatasync', 'fsync', 'lseek', 'fstat', 'fdopen'):
            x = args[4] if name == 'mmap' else args[0]
            if isinstance(x, Lin) and any(st.eq(d - x) for d in st.ghost['noexec']) and not (name == 'close' and any(st.eq(d - x) for d in st.ghost.get('tried', ()))):
                self.report(st, 'not close-on-exec', '%s uses a descriptor that is not close-on-exec' % op)
            if name == 'close':
                st = st.copy()
                st.ghost['noexec'] = tuple(d for d in st.ghost['noexec'] if not st.eq(d - x))
        if name in ('ftruncate', 'truncate') and ok:
            if op in READERS + APPENDERS + ('LockFile',):
                self.report(st, 'truncates', '%s truncates the file' % op)
            if op == 'NewWritableFile' and st.eq(args[1]):
                st = st.copy()
                st.ghost['emptied'] = ONE
        if name in ('unlink', 'remove', 'rename') and op in READERS + APPENDERS + ('LockFile',):
            self.report(st, 'removes', '%s removes or renames the file' % op)
        if name == 'mkdir':
            self.oblige()
            self.checks['mkdir'] = self.checks.get('mkdir', 0) + 1
            m = self.constv(st, args[1], 'mode')
            if m is not None and m & 0o022:
                self.report(st, 'writable by others', '%s creates a directory with mode %o' % (op, m))
        if name in ('chmod', 'fchmod'):
            m = self.constv(st, args[1], 'mode')
            if m is not None and m & 0o022:
                self.report(st, 'writable by others', '%s sets mode %o' % (op, m))
        if name == 'umask':
            pass
        return st

    def on_done(self, s, op, ok, nf, io):
        g = s.ghost
        self.oblige()
        if g['noexec']:
            self.report(s, 'not close-on-exec', '%s leaves a descriptor that is not close-on-exec' % op)
            s = s.copy()
            s.ghost['noexec'] = ()
        if op not in CREATORS:
            return s
        tries = [f.c for f in g['tries']]
        if ok:
            fl = [f.c for _, f in g['opened']]
            if not fl:
                self.report(s, 'nothing opened', '%s returned OK without opening a file' % op)
                return s
            fl = fl[-1]
            if not fl & O_ACC:
                self.report(s, 'not writable', '%s opens the file read-only' % op)
            if op == 'NewWritableFile':
                if not fl & O_TRUNC and fl & (O_CREAT | O_EXCL) != O_CREAT | O_EXCL and not s.eq(g['emptied'] - 1):
                    self.report(s, 'not emptied', 'NewWritableFile does not empty an existing file')
                if fl & O_APPEND:
                    pass
            if op in APPENDERS and not fl & O_APPEND:
                self.report(s, 'not appending', '%s opens without O_APPEND' % op)
        elif tries and not any(f & O_CREAT and not f & O_EXCL for f in tries):
            self.report(s, 'not created', '%s fails without trying to create the file' % op)
        return s


clients = [('p_sequential', S, {'expect': ['open:NewSequentialFile']}), ('p_random', S, {'expect': ['open:NewRandomAccessFile', 'open:RandomRead']}),
           ('p_factories', S, {'expect': ['open:NewWritableFile', 'open:NewAppendableFile', 'open:NewLogger', 'open:LockFile', 'mkdir']}),
           ('p_sync_manifest', S, {'expect': ['open:Sync'], 'budget': 2})]
explain = ('Every open/openat/creat/fopen/fdopen/mkdir/chmod reached by each operation of the default environment, with the operation it happens in: readers never with write '
           'access, O_CREAT or O_TRUNC; NewWritableFile creates and empties; append and log files O_APPEND, created, never truncated; locks created, never truncated; close-on-exec by the end of '
           'the operation; no group/other write bits in any creation mode.')
