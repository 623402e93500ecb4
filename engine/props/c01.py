from posixspec import *

TECH = 'ledger monitor over the write system calls: each written region must be the next unwritten bytes of the appended stream'


class S(PosixSpec):
    """the appended bytes are one infinite stream; ghosts: off = bytes accepted, wr = bytes written"""
    check_mem = True

    def on_ready(self, s):
        s = s.copy()
        s.ghost.update(off=ZERO, wr=ZERO, pend=ZERO, name='')
        return s

    def stream(self):
        o = self.gobj.get('$stream')
        if o is None:
            o = Obj('lazy', None, 'appended', key=('clientmem', 'stream'), align=1, root=True)
            o.clientmem = True
            self.gobj['$stream'] = o
        return o

    def v_stream(self, s, a, i):
        n = s.norm(a[0])
        s = s.copy()
        s.ghost['pend'] = n
        return [(s, Ptr(self.stream(), s.ghost['off']))]

    def on_access(self, st, p, size, kind, val=None):
        st = super().on_access(st, p, size, kind, val)
        if st is not None and p.obj is self.stream():
            sz = C(size) if isinstance(size, int) else size
            lo = p.off - st.ghost['off']
            hi = st.ghost['off'] + st.ghost['pend'] - p.off - sz
            for bad, m in ((lo, 'before'), (hi, 'past the end of')):
                if not st.ge(bad):
                    t = st.assume_ge(-bad - 1)
                    if t is not None and st.ghost.get('op'):
                        self.report(t, 'out-of-bounds', '%s %s the data handed to Append' % (kind, m))
                    st = st.assume_ge(bad)
                    if st is None:
                        return None
        return st

    def on_sys(self, st, name, args, r, ok, err):
        if name in ('pwrite', 'writev', 'sendfile', 'ftruncate') and ok:
            self.report(st, 'unexpected call', '%s on a writable file' % name)
        if name != 'write' or not ok:
            return st
        st = st.copy()
        g = st.ghost
        p, n = args[1], args[2]
        self.checks['write'] = self.checks.get('write', 0) + 1
        for t, ps in self.regions(st, p.obj, p.off, n):
            self.oblige()
            pos = ZERO
            good = ps is not None
            for q in ps or ():
                if q[2] == 'c' and q[3] is self.stream() and t.eq(q[0] - pos) and t.eq(q[4] - pos - g['wr']):
                    pos = t.norm(pos + q[1])
                else:
                    good = False
                    break
            if not good or not t.eq(pos - n):
                self.report(t, 'wrong data written', 'write() is not given the next unwritten bytes of the appended data')
                return None
            if not t.ge(g['off'] + g['pend'] - g['wr'] - n):
                u = t.assume_ge(g['wr'] + n - g['off'] - g['pend'] - 1)
                if u is not None:
                    self.report(u, 'wrong data written', 'write() is given bytes that were never appended')
                    return None
        g['wr'] = st.norm(g['wr'] + r)
        return st

    def on_done(self, s, op, ok, nf, io):
        g = s.ghost
        if not ok:
            return None
        s = s.copy()
        g = s.ghost
        if op == 'Append':
            g['off'] = s.norm(g['off'] + g['pend'])
            g['pend'] = ZERO
        elif op in ('Flush', 'Sync', 'Close'):
            self.oblige()
            if not s.eq(g['off'] - g['wr']):
                t = s.assume_ne(g['off'] - g['wr'])
                if t is not None:
                    self.report(t, 'data left behind', '%s returned OK but not every appended byte was handed to the operating system' % op)
        return s

    def hook_loop_head(self, st, f, header):
        st = super().hook_loop_head(st, f, header)
        return self.tidy(st)

    def tidy(self, st):
        """copies of bytes already written are dead"""
        if st is None or 'wr' not in st.ghost:
            return st
        o = self.stream()
        w = st.ghost['wr']
        out = None
        for q, os_ in list(st.mem.items()):
            lg = []
            ch = False
            for e in os_.log:
                if e[0] == 'c' and e[3] is o and st.ge(w - e[4] - e[2]) and q.kind == 'heap':
                    ch = True
                    if not st.eq(e[2]):
                        lg.append(('u', e[1], e[2], 'dead'))
                    continue
                lg.append(e)
            if ch:
                if out is None:
                    out = st.copy()
                out.mem[q] = OS(tuple(lg), os_.alive)
        return out if out is not None else st

    def hook_pad(self, st, x):
        if x[0] == 'c' and x[3] is self.stream() and 'wr' in st.ghost:
            return ('c', x[1], ZERO, x[3], st.ghost['wr'])
        return super().hook_pad(st, x)


clients = [('p_stream', S, {'expect': ['done:Append', 'done:Flush', 'done:Sync', 'done:Close', 'write'], 'budget': 2})]
explain = ('A writable or appendable file of the default environment under every sequence of Append (any size), Flush, Sync and Close, with '
           'every write() returning any count up to the request, failing or being interrupted.  At each write() the bytes passed must be '
           'exactly the next unwritten bytes of the appended stream, and after OK from Flush, Sync or Close none may be left.')
