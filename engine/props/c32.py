from spec import Spec
from accel import Accel
from ai import *
from lin import *

witness = ['w_default.cc']
TECH = 'abstract interpretation of the singleton\'s construction, exit handlers, time source and budget computation'


class S(Spec):
    assert_is_violation = True

    def sys_may_fail(self, st, name, args):
        return name in ('getrlimit', 'access', 'stat')


class D(S):
    def v_default(self, s, a, i):
        s = s.copy()
        s.ghost['indef'] = s.norm(a[0]).c
        return [(s, None)]

    def on_access(self, st, p, size, kind, val=None):
        if kind == 'store' and st.ghost.get('indef') and p.obj.kind == 'global':
            self.oblige()
            if not st.ghost.get('locks') and not self.in_guard(st):
                self.report(st, 'unprotected', 'Env::Default writes shared state without a lock or a guarded initialisation')
        return super().on_access(st, p, size, kind, val)

    def in_guard(self, st):
        return any(isinstance(k, tuple) and k[0] == 'guard' and v == 1 for k, v in st.ghost.items())

    def on_atexit(self, st, a):
        st = st.copy()
        st.ghost['exits'] = st.ghost.get('exits', ()) + (tuple(a[:2]),)
        return st

    def v_exit_handlers(self, s, a, i):
        cur = [s]
        for h in reversed(s.ghost.get('exits', ())):
            nxt = []
            for t in cur:
                f = self.res(t, h[0])
                f = getattr(f, 'obj', None)
                f = self.p.funcs.get(getattr(f, 'name', '')) if f is not None else None
                if f is None or not f.has_body:
                    t = t.copy()
                    t.imprecise('exit handler')
                    nxt.append(t)
                    continue
                nxt += [x for x, _ in self.call(t, f, [h[1]])]
            cur = nxt
        self.checks['exit handlers'] = self.checks.get('exit handlers', 0) + 1
        return [(t, None) for t in cur]


class N(S):
    def on_sys(self, st, name, args, r, ok, err):
        st = st.copy()
        if name == 'gettimeofday' and ok:
            st.ghost['t'] = st.ghost.get('t', ()) + ((args[1], args[2], 1),)
        return st

    def v_now(self, s, a, i):
        self.oblige()
        t = s.ghost.get('t', ())
        self.checks['now'] = self.checks.get('now', 0) + 1
        if len(t) != 1:
            self.report(s, 'contract', 'the time is not taken from the clock exactly once')
        elif not s.eq(s.norm(a[0]) - t[0][0].scale(1000000) - t[0][1]):
            self.report(s, 'contract', 'the time is not seconds * 1000000 + microseconds of the clock')
        return [(s, None)]


class I(Accel, S):
    pass


class B(S):
    unroll_states = 2000
    force_unroll = 8
    max_unroll = 8

    def sys_may_fail(self, st, name, args):
        return name in ('open',)

    def v_mark(self, s, a, i):
        w = self.text_of(s, a[0])
        s = s.copy()
        if w == 'read':
            s.ghost['opened'] = False
        elif w == 'limit':
            s.ghost['limit'] = s.norm(a[1])
        return [(s, None)]

    def on_sys(self, st, name, args, r, ok, err):
        st = st.copy()
        if name in ('open', 'openat'):
            st.ghost['opened'] = True
        elif name == 'getrlimit' and 'limit' not in st.ghost:
            n = st.norm(args[0])
            if n.is_const() and n.c == 7:
                st.ghost['asked'] = True
                if not ok:
                    return st
                r = self.load(st, self.deref_ptr(st, args[1])[0][1], 8, 'i64')
                st.ghost['rlim'] = r[0][1]
        return st

    def v_cached(self, s, a, i):
        self.oblige()
        k = s.norm(a[0]).c
        self.checks['cached'] = self.checks.get('cached', 0) + 1
        g = s.ghost
        if 'limit' in g:
            need = g['limit'] - k
        elif 'rlim' in g:
            need = g['rlim'] - 5 * k
        else:
            if not g.get('asked'):
                self.report(s, 'budget', 'the descriptor budget does not come from the process limit')
            return [(s, None)]
        for t, r in [(s, need)]:
            if g.get('opened') and t.assume_ge(r) is not None:
                self.report(t.assume_ge(r), 'budget', 'file %d is not kept open although the descriptor budget allows it' % k)
            elif not g.get('opened') and t.assume_ge(-r - 1) is not None:
                self.report(t.assume_ge(-r - 1), 'budget', 'file %d is kept open beyond the descriptor budget' % k)
        return [(s, None)]


clients = [('c32_default', D, {'expect': ['reach:default', 'exit handlers']}), ('c32_now', N, {'expect': ['now']}), ('c32_newid', S, {'expect': ['reach:ids']}), ('c32_later', I, {'expect': ['reach:later ids', 'many']}),
           ('c32_configured', B, {'expect': ['reach:configured', 'cached']}), ('c32_rlimit', B, {'expect': ['reach:rlimit', 'cached']})]
explain = ('Env::Default before and after the exit handlers, with all its stores to shared memory inside a guarded initialisation; NowMicros compared symbolically with the clock reading; identifiers of '
           'any history of NewId calls strictly increase, also after any number of calls (the change one call makes to the memory is measured, applied k times for an unknown k, and confirmed to be the change of the next call); the first three random-access files are kept open exactly when the configured budget, or a fifth of an arbitrary process limit, allows.')
assumptions = ['fewer than 2^62 identifiers are drawn from one cache']
