from posixspec import *
import c01

TECH = 'typestate over system calls: dir-open, dir-fsync, write, fdatasync order at every successful Sync'


FULLFSYNC = 51          # macOS's value; unused by Linux
# where fdatasync is missing fsync has to do, and where F_FULLFSYNC exists it is preferred
configurations = [('without fdatasync', ['-DHAVE_FDATASYNC=0']), ('with F_FULLFSYNC', ['-DHAVE_FULLFSYNC=1', '-DF_FULLFSYNC=%d' % FULLFSYNC])]


class S(c01.S):
    check_mem = False

    def on_ready(self, s):
        s = super().on_ready(s).copy()
        s.ghost.update(fd=None, kind=0, dir=None, dirfds=(), dirok=ZERO, synced=C(-1), stale=ZERO)
        return s

    def on_mark(self, s, what, a):
        if what == 'name':
            s = s.copy()
            k = s.norm(a[0]).c
            s.ghost['kind'] = k
            s.ghost['dir'] = (self.res(s, a[1]), self.nu64(s, a[2])) if k == 2 else None
        return s

    def on_op(self, s):
        s = s.copy()
        s.ghost['dirok'] = ZERO
        return s

    def is_dir(self, st, p):
        """does the path name the directory that contains the manifest?"""
        p = self.res(st, p)
        if not isinstance(p, Ptr):
            return False
        for t, n in c_strlen(self, st, p):
            ps = self.region_keys(t, p.obj, p.off, n)
            if len(ps) != 1 or ps[0][1] is None:
                continue
            t, ps = ps[0]
            pos = ZERO
            tail = []
            if st.ghost['kind'] == 2:
                d, ln = st.ghost['dir']
                want = self.region_keys(t, d.obj, d.off, ln)[0][1]
                if ps[:len(want)] != want:
                    return False
                tail = ps[len(want):]
            else:
                tail = ps
            by = [t.norm(q[3]).c if q[2] == 'v' and isinstance(q[3], Lin) and t.norm(q[3]).is_const() else None for q in tail]
            if None in by:
                return False
            tail = ''.join(chr(c) for c in by)
            if st.ghost['kind'] == 2:
                return tail in ('', '/', '/.')
            return tail in ('.', './', './.')
        return False

    def on_sys(self, st, name, args, r, ok, err):
        g = st.ghost
        if name == 'write' and ok:
            self.checks['write'] = self.checks.get('write', 0) + 1
            if g['fd'] is not None and not st.eq(args[0] - g['fd']):
                self.report(st, 'wrong descriptor', 'data is written to a descriptor that is not the file\'s')
                return None
            if g['op'] == 'Sync' and g['kind'] and not st.eq(g['dirok'] - 1):
                self.report(st, 'order', 'Sync writes manifest data before the directory was synced')
                return None
        if name == 'close' and any(st.eq(args[0] - d) for d in g['dirfds']):
            st = st.copy()          # released even when close() fails
            st.ghost['dirfds'] = tuple(d for d in g['dirfds'] if not st.eq(args[0] - d))
        st = super().on_sys(st, name, args, r, ok, err)
        if st is None or not ok:
            return st
        st = st.copy()
        g = st.ghost
        if name in ('open', 'creat', 'openat'):
            if g['op'].startswith('New') and g['fd'] is None:
                g['fd'] = r
            elif g['kind'] and self.is_dir(st, args[0] if name != 'openat' else args[1]):
                g['dirfds'] = g['dirfds'] + (r,)
        elif name in ('fsync', 'fdatasync') or name == 'fcntl' and st.eq(self.nu(st, args[1], 32)[0][1] - FULLFSYNC):
            self.checks['datasync'] = self.checks.get('datasync', 0) + 1
            if g['fd'] is not None and st.eq(args[0] - g['fd']):
                g['synced'] = g['wr']
            elif any(st.eq(args[0] - d) for d in g['dirfds']):
                g['dirok'] = ONE
        return st

    def on_done(self, s, op, ok, nf, io):
        g = s.ghost
        if op == 'Append' and ok:
            return super().on_done(s, op, ok, nf, io)
        if not ok:
            return None
        if op == 'Sync':
            self.oblige(3)
            if not s.eq(g['off'] - g['wr']):
                t = s.assume_ne(g['off'] - g['wr'])
                if t is not None:
                    self.report(t, 'unwritten data', 'Sync returned OK with appended data not yet written')
            if not s.eq(g['synced'] - g['off']):
                t = s.assume_ne(g['synced'] - g['off'])
                if t is not None:
                    self.report(t, 'not synced', 'Sync returned OK but the file descriptor was not data-synced after all its data was written')
            if g['kind'] and not s.eq(g['dirok'] - 1):
                self.report(s, 'directory not synced', 'Sync of a MANIFEST returned OK but the containing directory was not synced')
        return s


_x = ['done:Append', 'done:Flush', 'done:Sync', 'write', 'datasync']
clients = [(c, S, {'expect': _x, 'budget': 2}) for c in ('p_sync_dirmanifest', 'p_sync_manifest', 'p_sync_plain')]
explain = ('A writable or appendable file whose last name component begins with MANIFEST (with and without a directory part) or is arbitrary, under every '
           'sequence of Append, Flush, Sync with every outcome of open, write, fsync/fdatasync and close.  At each Sync that returns OK: all appended bytes '
           'written, then a successful fdatasync/fsync of the file\'s descriptor; for manifests also a successful sync of a descriptor opened on the '
           'containing directory, in this call and before any write of this call.  The same in the build configurations without fdatasync and with F_FULLFSYNC '
           '(where a successful fcntl with it counts as a sync).')
