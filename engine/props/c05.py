from posixspec import *

TECH = 'typestate of every descriptor, mapping and stream handle: ledger of open handles, compared at every operation boundary'
OPEN = {'open': 'fd', 'openat': 'fd', 'creat': 'fd', 'opendir': 'dir', 'fdopen': 'file', 'fopen': 'file', 'mmap': 'map', 'dup': 'fd', 'tmpfile': 'file'}
CLOSE = {'close': 'fd', 'closedir': 'dir', 'fclose': 'file', 'munmap': 'map'}
USE = {'read': 0, 'write': 0, 'pread': 0, 'pwrite': 0, 'fsync': 0, 'fdatasync': 0, 'fcntl': 0, 'lseek': 0, 'fstat': 0, 'ftruncate': 0, 'mmap': 4, 'flock': 0, 'fchmod': 0,
       'fdopen': 0, 'sync_file_range': 0, 'posix_fadvise': 0}
FACTORY = ('NewSequentialFile', 'NewRandomAccessFile', 'NewWritableFile', 'NewAppendableFile', 'NewLogger', 'LockFile')
ENDING = ('delete', 'Close', 'UnlockFile')


class S(PosixSpec):
    """ghost res: tuple of (kind, handle) for everything open"""
    check_mem = False
    coarse = True

    def on_ready(self, s):
        s = s.copy()
        s.ghost.update(res=(), before=())
        return s

    def on_op(self, s):
        s = s.copy()
        s.ghost['before'] = s.ghost['res']
        return s

    def same(self, st, k, h, kind, x):
        if k != kind:
            return False
        if kind == 'fd':
            return isinstance(h, Lin) and isinstance(x, Lin) and st.eq(h - x)
        return isinstance(h, Ptr) and isinstance(x, Ptr) and h.obj is x.obj

    def find(self, st, kind, x):
        for q in st.ghost['res']:
            if self.same(st, q[0], q[1], kind, x):
                return q
        return None

    def closed(self, st, name, kind, x, args):
        self.checks[name] = self.checks.get(name, 0) + 1
        self.oblige()
        x = self.res(st, x) if kind != 'fd' else x
        if kind == 'fd' and isinstance(x, Lin):
            x = st.norm(x)
            lo = st.assume_ge(x)
            if lo is None:
                return st            # close(-1) releases nothing
        q = self.find(st, kind, x)
        if q is None:
            self.report(st, 'released twice', '%s of a handle that is not open (%s)' % (name, st.ghost.get('op')))
            return None
        if name == 'munmap':
            o = x.obj
            n = args[1]
            if not st.eq(x.off) or not st.eq(n - o.size):
                t = st.assume_ne(n - o.size) or (st if not st.eq(x.off) else None)
                if t is not None:
                    self.report(t, 'partly released', 'munmap does not release the whole mapping')
        st = st.copy()
        r = list(st.ghost['res'])
        r.remove(q)
        st.ghost['res'] = tuple(r)
        if name == 'fclose':
            fd = getattr(x.obj, 'owns', None)
            st.ghost['res'] = tuple(q for q in st.ghost['res'] if not (q[0] == 'fd' and fd is not None and st.eq(q[1] - fd)))
        return st

    def on_sys(self, st, name, args, r, ok, err):
        if 'res' not in st.ghost:
            return st
        if name in CLOSE:
            return self.closed(st, name, CLOSE[name], args[0], args)      # the handle is gone even when the call fails
        if name in USE:
            x = args[USE[name]]
            if isinstance(x, Lin):
                x = self.wrap(st.norm(x))
                self.oblige()
                if not (name == 'mmap' and st.eq(x + 1)) and self.find(st, 'fd', x) is None:
                    self.report(st, 'used while not open', '%s on a descriptor that is not open (%s)' % (name, st.ghost.get('op')))
                    return None
        if name in OPEN and ok:
            st = st.copy()
            h = r
            if name == 'mmap':
                h = Ptr(r.obj)
            if name == 'fdopen':
                r.obj.owns = args[0]
            st.ghost['res'] = st.ghost['res'] + ((OPEN[name], h),)
        if name in ('fwrite', 'fflush', 'fputs') and ok:
            f = self.res(st, args[-1])
            if isinstance(f, Ptr) and getattr(f.obj, 'stream', None) and self.find(st, 'file', f) is None:
                self.report(st, 'used while not open', '%s on a stream that is not open' % name)
        return st

    def wrap(self, x):
        return C(signed(x.c, 32)) if x.is_const() else x

    def on_access(self, st, p, size, kind, val=None):
        o = p.obj
        if getattr(o, 'mapping', False) and 'res' in st.ghost and self.find(st, 'map', Ptr(o)) is None:
            self.report(st, 'used while not open', 'access to a mapping that was released')
            return None
        return st

    def eqset(self, st, a, b):
        return len(a) == len(b) and all(any(self.same(st, q[0], q[1], w[0], w[1]) for w in b) for q in a)

    def on_done(self, s, op, ok, nf, io):
        g = s.ghost
        s = s.copy()
        s.ghost['before'] = ()
        self.oblige()
        if op in FACTORY and ok or op in ENDING:
            if op in FACTORY:
                n = len(g['res']) - len(g['before'])
                if n > 1 and not (op == 'NewLogger' and n == 2):
                    self.report(s, 'leak', '%s succeeded holding %d handles' % (op, n))
            return s
        if not self.eqset(s, g['res'], g['before']):
            self.report(s, 'leak' if len(g['res']) > len(g['before']) else 'lost handle', '%s %s but does not leave the open handles as they were' % (op, 'returned' if op not in FACTORY else 'failed'))
        return s

    def on_finish(self, s, w):
        self.oblige()
        if s.ghost['res']:
            self.report(s, 'leak', 'a handle (%s) is still open after the %s is gone' % (s.ghost['res'][0][0], w))
        return s


clients = [('p_sequential', S, {'expect': ['close']}), ('p_random', S, {'expect': ['close', 'munmap']}), ('p_writable', S, {'expect': ['close'], 'budget': 2}), ('p_names', S, {'expect': ['fclose']}),
           ('p_children', S, {'expect': ['closedir']}), ('p_lock', S, {'expect': ['close']}), ('p_sync_manifest', S, {'expect': ['close'], 'budget': 2})]
explain = ('Every operation of the default environment on arbitrary names with every outcome of every system call.  Each handle returned by open, mmap, opendir or '
           'fdopen enters a ledger and leaves it at close/munmap/closedir/fclose (even when that call fails).  Releasing or using a handle not in the ledger, a ledger changed by '
           'an operation that creates no object, or a handle left when the owning object is gone is a violation.')
