from leak import Leaks
from spec import Spec
from ai import *
from lin import *
import models

witness = ['w_log.cc']
TECH = 'byte-provenance of the entry written, typestate of the argument list, bounds of every buffer write'


class S(Leaks):
    assert_is_violation = True
    speculate = 3
    leak_text = 'memory from %s is never released (one per call of the logger)'

    def sys_may_fail(self, st, name, args):
        return name in ('fopen', 'open', 'fdopen')

    def v_logcall(self, s, a, i):
        s = s.copy()
        g = s.ghost
        g['lid'] = g.get('lid', 0) + 1
        g['lfmt'] = self.res(s, a[0])
        g['lev'] = ()
        return [(s, None)]

    def va(self, st, x):
        r = self.deref_ptr(st, x)
        return ('va', r[0][1].obj, st.norm(r[0][1].off)) if len(r) == 1 else None

    def on_va(self, st, kind, a, b):
        st = st.copy()
        ka = self.va(st, a)
        if kind == 'start':
            st.ghost[ka] = (st.ghost.get('lid', 0), False)
        elif kind == 'copy':
            st.ghost[ka] = st.ghost.get(self.va(st, b), (None, False))
        else:
            st.ghost.pop(ka, None)
        return st

    def on_vsnprintf(self, st, a, i):
        lid = st.ghost.get('lid', 0)
        k = self.va(st, a[3])
        src, used = st.ghost.get(k, (None, False))
        self.oblige()
        if used:
            self.report(st, 'consumed arguments', 'the message is formatted from an argument list that was already consumed')
            return []
        if src != lid:
            self.report(st, 'wrong arguments', 'the message is not formatted from the arguments of this call')
            return []
        if self.res(st, a[2]) != st.ghost.get('lfmt'):
            self.report(st, 'wrong format', 'the message is not formatted with the format of this call')
            return []
        st = st.copy()
        st.ghost[k] = (src, True)
        n = L(ksym(('vfmtlen', lid), 0, 1 << 30, 'length of message %d' % lid))
        return models.store_formatted(self, st, a[0], a[1], n, ('vfmt', lid))

    def on_sys(self, st, name, args, r, ok, err):
        st = st.copy()
        g = st.ghost
        if name in ('fclose', 'fflush', 'fwrite', 'write', 'fputs', 'fputc'):
            g['lev'] = g.get('lev', ()) + (name,)
        if name == 'fwrite' and 'lid' in g:
            p, tot = args[0], args[1]
            n = L(ksym(('vfmtlen', g['lid']), 0, 1 << 30))
            for t, ps in self.regions(st, p.obj, p.off, tot):
                self.oblige()
                at = ZERO
                good = ps is not None
                if t.ge(-n):
                    good = good and t.ge(tot - 1)
                else:
                    for q in ps or ():
                        if q[2] == 'u' and q[3] is not None and isinstance(q[3], tuple) and ('vfmt', g['lid']) in (q[3], q[3][0] if q[3] else None):
                            d = q[4] if q[4] is not None else q[3][1] if isinstance(q[3][1], Lin) else None
                            if d is not None and not t.eq(d - at):
                                good = False
                            at = t.norm(at + q[1])
                    good = good and t.eq(at - n)
                if ps and ps[-1][2] == 'v':
                    # the last byte was added to the message
                    for t2, x in self.load(t, Ptr(p.obj, t.norm(p.off + tot - 2)), 1, 'i8'):
                        if isinstance(x, Lin) and not t2.ge(-n) and any(r for _, r in self.split(t2, x - 10, 'eq')):
                            self.report(t2, 'second newline', 'a newline is added to an entry that may already end in one')
                if not good:
                    self.report(t, 'incomplete entry', 'the entry does not contain the complete message once')
                for t2, x in self.load(t, Ptr(p.obj, t.norm(p.off + tot - 1)), 1, 'i8'):
                    if not (isinstance(x, Lin) and t2.eq(x - 10)):
                        self.report(t2, 'no newline', 'the entry does not end in a newline')
                self.checks['entry'] = self.checks.get('entry', 0) + 1
        return st

    def v_logged(self, s, a, i):
        s = s.copy()
        self.oblige()
        ev = s.ghost.get('lev', ())
        self.checks['one entry, then flushed'] = self.checks.get('one entry, then flushed', 0) + 1
        w = [k for k, x in enumerate(ev) if x in ('fwrite', 'write', 'fputs', 'fputc')]
        if len(w) != 1:
            self.report(s, 'contract', 'a log call writes its entry with one write to the stream (%d made)' % len(w))
        elif 'fflush' not in ev[w[0]:]:
            self.report(s, 'contract', 'a log call flushes its entry')
        s.ghost['lev'] = ()
        s.ghost.pop('lfmt', None)
        for k in [k for k in s.ghost if isinstance(k, tuple) and k[0] == 'va']:
            del s.ghost[k]
        return [(s, None)]


clients = [('c22_log', S, {'expect': ['entry', 'one entry, then flushed', 'reach:logger destroyed']}), ('c22_null', S, {'expect': ['reach:null logger']})]
explain = ('Log on a logger of the default environment, any format and arguments, formatted message of any length from 0 to 2^30 bytes, any time and thread name: the region given to the one '
           'fwrite is traced back to the bytes vsnprintf produced, which must be the complete message of this call, followed by a newline (unless it ends in one); every write of the '
           'formatting functions is checked against its buffer; the dynamic buffer is released; the argument list is never used twice.')
assumptions = ['messages of at most 1 GiB', 'vsnprintf does not fail and is deterministic']
