"""Monitors over the default environment's system calls."""
from lin import *
from ai import *
from spec import Spec
import models
from models import getstr, c_strlen
from sysmodel import ENOENT, EINTR

witness = ['w_posix.cc']
OPENERS = ('open', 'openat', 'creat', 'opendir', 'fdopen', 'fopen', 'mmap')


class PosixSpec(Spec):
    contracts = False          # does this property own the client's own v_check obligations?

    def v_check(self, s, a, i):
        if self.contracts:
            return super().v_check(s, a, i)
        return [(t, None) for t, c in self.cond(s, a[0]) if c]

    def v_mark(self, s, a, i):
        what = self.text_of(s, a[0])
        if what == 'op':
            s = s.copy()
            s.ghost['op'] = self.text_of(s, a[1])
            s.ghost['opargs'] = tuple(self.nu64(s, x) for x in a[2:])
            s.ghost['fails'] = ()
            s.ghost['ev'] = ()
            s = self.on_op(s)
        elif what == 'ready':
            s = self.on_ready(s)
        else:
            s = self.on_mark(s, what, a[1:])
        return [(s, None)] if s is not None else []

    def nu64(self, s, x):
        return s.norm(x) if isinstance(x, Lin) else self.res(s, x)

    def on_op(self, s):
        return s

    def on_ready(self, s):
        return s

    def on_mark(self, s, what, a):
        return s

    def tri(self, s, v):
        v = s.norm(v) if isinstance(v, Lin) else v
        return v

    def v_done(self, s, a, i):
        op = self.text_of(s, a[0])
        out = []
        for s1, ok in self.cond(s, a[1]):
            for s2, nf in self.cond(s1, a[2]):
                for s3, io in self.cond(s2, a[3]):
                    self.checks['done:' + op] = self.checks.get('done:' + op, 0) + 1
                    r = self.on_done(s3, op, ok, nf, io)
                    if r is None:
                        continue
                    for x in (r if isinstance(r, list) else [r]):
                        x = x.copy()
                        x.ghost.update(op='', opargs=(), fails=(), ev=())
                        out.append((x, None))
        return out

    def on_done(self, s, op, ok, nf, io):
        return s

    def v_got(self, s, a, i):
        return [(s, None)]

    def v_grants(self, s, a, i):
        return [(s, None)]

    def v_end(self, s, a, i):
        w = self.text_of(s, a[0])
        self.checks['end:' + w] = self.checks.get('end:' + w, 0) + 1
        s = self.on_finish(s, w)
        return [(s, None)] if s is not None else []

    def on_finish(self, s, w):
        return s

    def v_sysval(self, s, a, i):
        k = self.text_of(s, a[0])
        return [(s, s.ghost.get(k, ZERO))]

    def on_sys(self, st, name, args, r, ok, err):
        st = st.copy()
        if not ok:
            st.ghost['fails'] = st.ghost.get('fails', ()) + ((name, err),)
        return st

    def path_key(self, st, p):
        """canonical description of the path text"""
        p = self.res(st, p)
        if not isinstance(p, Ptr):
            return ('?',)
        n = c_strlen(self, st, p)
        if not n:
            return ('?',)
        n = st.norm(n[0][1])
        k = self.region_keys(st, p.obj, p.off, n)
        return k[0][1] if k else ('?',)
