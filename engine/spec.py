"""Default monitors and the client (witness) interface; every property's rule derives from Spec."""
import re
from lin import *
import lin as LIN
from ai import *
import models
from models import getstr, putstr, mkstr, newdata, c_strlen, bytes_cmp_eq
import sysmodel
import time
from canon import canon_state, exact_state


class Spec(Engine):
    prop = '?'
    check_mem = True           # report out-of-bounds / use-after-free / uninitialised / double free
    assert_is_violation = False
    malloc_fails = False
    guards_fresh = True
    program_start = True
    stdio_fails = False
    write_progress = False
    K = 3                      # delayed widening bound of the confirmation pass
    bounded = False
    max_states = 4000

    def __init__(self, prog):
        super().__init__(prog)
        self.truncated = 0
        self.cur_client = None
        self.checks = {}
        self.free_phis = {}
        self.loops_met = set()

    only_rule = None

    def report(self, st, rule, msg, loc=None):
        if self.only_rule and rule != self.only_rule:
            return
        super().report(st, rule, msg, loc)
        if self.stop_first and not self.viol[-1].imp:
            raise Found()

    stop_first = False

    def nextuid(self):
        self.uid += 1
        return self.uid

    def siteof(self, s):
        return (self.cur[0].name if self.cur else '', self.cur[1].get('id') if self.cur else 0)

    def model(self, fn):
        m = self.modelcache.get(fn.name, 0)
        if m == 0:
            m = models.lookup(fn)
            self.modelcache[fn.name] = m
        return m

    # ------------------------------------------------------------ memory safety monitor
    def mem_rule(self, st, what, msg):
        if self.check_mem:
            self.report(st, what, msg)

    def watch(self, o):
        """objects whose bounds are checked"""
        return o.size is not None

    def on_access(self, st, p, size, kind, val=None):
        o = p.obj
        self.oblige()
        os_ = st.mem.get(o)
        if os_ is not None and not os_.alive and o.kind in ('heap',):
            self.mem_rule(st, 'use-after-free', '%s of released memory %s' % (kind, o.name))
            return None
        if self.check_mem and o.size is not None and self.watch(o):
            sz = C(size) if isinstance(size, int) else size
            if not st.ge(p.off):
                t = st.assume_ge(-p.off - 1)
                if t is not None:
                    self.mem_rule(t, 'out-of-bounds', '%s before the start of %s' % (kind, o.name))
                st = st.assume_ge(p.off)
                if st is None:
                    return None
            over = p.off + sz - o.size
            if not st.ge(-over):
                t = st.assume_ge(over - 1)
                if t is not None:
                    self.mem_rule(t, 'out-of-bounds', '%s past the end of %s (size %r, offset %r, length %r)' % (kind, o.name, t.norm(o.size), t.norm(p.off), t.norm(sz)))
                st = st.assume_ge(-over)
                if st is None:
                    return None
        if kind == 'store' and o.kind == 'global' and o.const:
            self.mem_rule(st, 'write-to-constant', 'store to constant %s' % o.name)
            return None
        return st

    def on_free(self, st, p, how):
        o = p.obj
        self.oblige()
        os_ = st.mem.get(o, EMPTY)
        if o.kind != 'heap':
            if o.kind == 'lazy':
                return st
            self.mem_rule(st, 'bad-free', '%s of memory that was not allocated (%s)' % (how, o.name))
            return None
        if not os_.alive:
            self.mem_rule(st, 'double-free', '%s of memory already released' % how)
            return None
        if not st.eq(p.off):
            self.mem_rule(st, 'bad-free', '%s of a pointer into the middle of a block' % how)
            return None
        al = getattr(o, 'how', None)
        want = {'new': 'delete', 'new[]': 'delete[]', 'malloc': 'free'}.get(al)
        if want and want != how:
            self.mem_rule(st, 'mismatched-free', '%s of memory obtained with %s' % (how, al))
            return None
        return st

    def on_null(self, st):
        self.mem_rule(st, 'null-dereference', 'null pointer dereferenced')

    def on_undef_ptr(self, st):
        self.mem_rule(st, 'uninitialised', 'uninitialised pointer used')

    def on_undef_branch(self, st):
        self.mem_rule(st, 'uninitialised', 'branch depends on an uninitialised value')

    def on_alloc(self, st, o, n, kind):
        return st

    def on_abort(self, st, fn):
        if self.assert_is_violation:
            self.report(st, 'abort', 'reachable call of %s' % (fn.dem if fn else 'std::__throw'))

    def on_assert_fail(self, st, text):
        if self.assert_is_violation:
            self.report(st, 'assertion', 'assertion can fail: %s' % text)

    def on_atexit(self, st, a):
        return st

    def on_bad_iterator(self, st, n):
        self.mem_rule(st, 'bad-iterator', 'invalid container iterator used')

    # ------------------------------------------------------------ text helpers
    def const_bytes(self, st, p, n):
        off = st.norm(p.off)
        if not off.is_const():
            return None
        out = []
        for k in range(n):
            r = self.load(st, Ptr(p.obj, C(off.c + k)), 1, 'i8')
            if len(r) != 1 or not isinstance(r[0][1], Lin):
                return None
            v = st.norm(r[0][1])
            if not v.is_const():
                return None
            out.append(v.c % 256)
        return out

    def text_of(self, st, v):
        v = self.res(st, v)
        if not isinstance(v, Ptr):
            return None
        r = c_strlen(self, st, v)
        n = st.norm(r[0][1])
        if not n.is_const() or n.c > 4096:
            return None
        b = self.const_bytes(st, v, n.c)
        return bytes(b).decode('latin1') if b is not None else None

    def byteval(self, st, v):
        if not isinstance(v, Lin):
            return v
        v = st.norm(v)
        return C(v.c % 256) if v.is_const() else v

    def canon(self, st, ps):
        if ps is None:
            return None
        out = []
        for q in ps:
            a = q[3]
            if isinstance(a, Lin):
                a = st.norm(a)
                if q[2] == 'v' and a.is_const() and st.norm(q[1]) == ONE:
                    a = C(a.c % 256)
            b = q[4]
            if isinstance(b, Lin):
                b = st.norm(b)
            if q[2] == 'c' and a.kind == 'global' and a.const and isinstance(b, Lin) and b.is_const() and st.norm(q[1]).is_const() and st.norm(q[1]).c <= 256:
                by = self.const_bytes(st, Ptr(a, b), st.norm(q[1]).c)
                if by is not None:
                    for k, x in enumerate(by):
                        out.append((st.norm(q[0] + k), ONE, 'v', C(x), None))
                    continue
            if q[2] == 'c' and st.norm(q[1]) == ONE and a.kind not in ('heap', 'alloca'):
                # a single byte: name it by its value
                r = self.init_load(st, a, b, 1, 'i8')
                if len(r) == 1 and isinstance(r[0][1], Lin):
                    out.append((st.norm(q[0]), ONE, 'v', st.norm(r[0][1]), None))
                    continue
            out.append((st.norm(q[0]), st.norm(q[1]), q[2], a, b))
        return tuple(out)

    def region_keys(self, st, o, off, ln):
        """[(state, canonical description of the bytes o[off, off+ln))]"""
        return [(t, self.canon(t, ps)) for t, ps in self.regions(st, o, off, ln)]

    def distinct_regions(self, st, a, b):
        return False

    def copy_small(self, st, d, q, n):
        """copy preserving typed cells"""
        off = st.norm(q.off)
        log = self.os(st, q.obj).log
        cells = []
        typed = True
        for en in log:
            r = self.rel(st, q.off, n, en[1], en[2])
            if r == 'dis':
                continue
            eo = st.norm(en[1] - q.off)
            if en[0] == 'v' and eo.is_const() and st.norm(en[2]).is_const() and eo.c >= 0 and eo.c + st.norm(en[2]).c <= n:
                cells.append((eo.c, st.norm(en[2]).c, en[3]))
            else:
                typed = False
        if not typed:
            return self.copy_all(st, d, q, C(n))
        cells.sort(key=lambda c: c[0])
        src_default = q.obj.kind not in ('alloca', 'heap')
        pos = 0
        out = st
        parts = []
        for o_, l_, v in cells:
            if o_ > pos:
                parts.append((pos, o_ - pos, None))
            parts.append((o_, l_, v))
            pos = o_ + l_
        if pos < n:
            parts.append((pos, n - pos, None))
        for o_, l_, v in parts:
            if v is None:
                out = self.write(out, d.obj, ('c', d.off + o_, C(l_), q.obj, q.off + o_))
            else:
                out = self.write(out, d.obj, ('v', d.off + o_, C(l_), v))
        return [out]

    def on_copied(self, st, d, q, n):
        return st

    def put_text(self, st, p, n, what, full):
        n = st.norm(n)
        if what[0] == 'text' and n.is_const():
            for k, c in enumerate(what[1][:n.c]):
                st = self.write(st, p.obj, ('v', p.off + k, ONE, C(signed(ord(c), 8))))
            return st
        return self.write(st, p.obj, ('u', p.off, n, what))

    def on_formatted(self, st, p, size, n, what):
        return st

    def on_str_index(self, st, v, n):
        self.oblige()
        if not st.ge(v.len - n):
            t = st.assume_ge(n - v.len - 1)
            if t is not None:
                self.mem_rule(t, 'out-of-bounds', 'string index past the end')
            st = st.assume_ge(v.len - n)
        return st

    def on_str_grow(self, st, q, v):
        return st

    def on_str_pushed(self, st, f):
        return st

    def on_memcmp(self, st, p, q, n, r):
        return st

    def on_streq(self, st, p, q, n, r):
        return st

    def on_va(self, st, kind, a, b):
        return st

    def on_vsnprintf(self, st, a, i):
        n = L(fresh(0, (1 << 31) - 1, 'vfmt'))
        return models.store_formatted(self, st, a[0], a[1], n, ('vfmt', self.nextuid()))

    # ------------------------------------------------------------ system calls
    def on_sys(self, st, name, args, r, ok, err):
        return st

    def sys_may_fail(self, st, name, args):
        return True

    def sys_must_fail(self, st, name, args):
        return False

    def on_no_return(self, st, f):
        if 'lsmdb' in f.name:
            self.report(st, 'no value returned', 'control reaches the end of a function that returns a value')

    def more_entries(self, st):
        return True

    def put_read(self, st, p, r, name, args):
        return self.write(st, p.obj, ('u', p.off, r, ('os', self.nextuid())))

    # ------------------------------------------------------------ locks and threads
    def on_lock(self, st, p):
        if p in st.ghost.get('locks', ()):
            self.report(st, 'never returns', 'the mutex is locked while this thread holds it')
            return None
        st = st.copy()
        st.ghost['locks'] = st.ghost.get('locks', ()) + (p,)
        return st

    def on_unlock(self, st, p):
        st = st.copy()
        l = list(st.ghost.get('locks', ()))
        for k in range(len(l) - 1, -1, -1):
            if l[k] == p:
                del l[k]
                break
        st.ghost['locks'] = tuple(l)
        return st

    def on_notify(self, st, p, all_):
        return st

    def on_wait(self, st, cv, m):
        return [st]

    def before_lock(self, st, p):
        return [st]

    def on_thread(self, st, t, state):
        return [st]

    def on_detach(self, st, p, join):
        return st

    def hook_init(self, st, o, off, size, ty):
        """single bytes of client texts that are known (not) to be a certain character"""
        if size == 1 and ty == 'i8' and o.kind == 'lazy':
            v = st.ghost.get(('char', o, off))
            if v is not None:
                return [(st, C(signed(v.c, 8)))]
            no = set(getattr(o, 'nochars', ()))
            for k, n in st.ghost.items():
                if isinstance(k, tuple) and k[0] == 'nochar' and k[1] is o and st.ge(off - k[2]) and st.ge(k[2] + n - off - 1):
                    no.add(k[3])
            if no:
                lo, hi = self.hook_range(o, off, size, 8)
                x = L(ksym(('init', o, off, size), lo, hi, '%s[%r]' % (o.name, off)))
                for c in no:
                    st = st.assume_ne(x - c)
                    if st is None:
                        return []
                return [(st, x)]
        return None

    # ------------------------------------------------------------ client interface
    def on_call(self, s, fn, args, i):
        n = fn.name
        if n.startswith('v_'):
            h = getattr(self, n, None)
            if h is not None:
                return h(s, args, i)
        return self.on_fn(s, fn, args, i)

    def on_fn(self, s, fn, args, i):
        return None

    def v_choice(self, s, a, i):
        n = s.norm(a[0]).c
        return [(s.copy(), C(k)) for k in range(n)]

    def v_u64(self, s, a, i):
        return [(s, L(ksym(('in', self.nextuid()), 0, (1 << 64) - 1, 'in%d' % self.uid)))]

    def v_u32(self, s, a, i):
        return [(s, L(ksym(('in', self.nextuid()), 0, (1 << 32) - 1, 'in%d' % self.uid)))]

    def v_i32(self, s, a, i):
        return [(s, L(ksym(('in', self.nextuid()), -(1 << 31), (1 << 31) - 1, 'in%d' % self.uid)))]

    def v_i64(self, s, a, i):
        return [(s, L(ksym(('in', self.nextuid()), -(1 << 63), (1 << 63) - 1, 'in%d' % self.uid)))]

    def v_u8(self, s, a, i):
        return [(s, L(ksym(('in', self.nextuid()), 0, 255, 'in%d' % self.uid)))]

    def v_size(self, s, a, i):
        """arbitrary size in [lo, hi]"""
        lo, hi = s.norm(a[0]), s.norm(a[1])
        if lo.is_const() and hi.is_const():
            return [(s, L(ksym(('in', self.nextuid()), lo.c % (1 << 64), hi.c % (1 << 64), 'n%d' % self.uid)))]
        v = L(ksym(('in', self.nextuid()), 0, (1 << 64) - 1, 'n%d' % self.uid))
        s = s.assume_ge(v - lo)
        s = s and s.assume_ge(hi - v)
        return [(s, v)] if s is not None else []

    def v_assume(self, s, a, i):
        return [(t, None) for t, c in self.cond(s, a[0]) if c]

    def v_check(self, s, a, i):
        rule = self.text_of(s, a[1])
        self.oblige()
        self.checks[rule] = self.checks.get(rule, 0) + 1
        out = []
        for t, c in self.cond(s, a[0]):
            if c:
                out.append((t, None))
            else:
                self.report(t, 'contract', rule, self.where(t))
        return out

    def v_reach(self, s, a, i):
        rule = self.text_of(s, a[0])
        self.checks['reach:' + rule] = self.checks.get('reach:' + rule, 0) + 1
        return [(s, None)]

    def v_mem(self, s, a, i):
        """read-only memory of exactly n arbitrary bytes"""
        nm = self.text_of(s, a[1]) or 'mem'
        o = Obj('lazy', a[0], nm, key=('clientmem', self.nextuid()), align=1)
        o.clientmem = True
        return [(s, Ptr(o))]

    def v_buf(self, s, a, i):
        """writable memory of exactly n uninitialised bytes"""
        nm = self.text_of(s, a[1]) or 'buf'
        o = Obj('heap', a[0], nm, site=nm, align=1)
        s = s.copy()
        s.mem[o] = EMPTY
        o.clientbuf = True
        return [(s, Ptr(o))]

    def v_forget(self, s, a, i):
        for s1, p in self.deref_ptr(s, a[0]):
            s1 = s1.copy()
            s1.mem[p.obj] = OS(self.os(s1, p.obj).log, False)
            return [(s1, None)]
        return []

    def v_same(self, s, a, i):
        """check: two regions hold the same bytes"""
        rule = self.text_of(s, a[3])
        self.oblige()
        self.checks[rule] = self.checks.get(rule, 0) + 1
        n = s.norm(a[2])
        out = []
        for s0, nz in self.split(s, n - 1, 'ge'):
            if not nz:
                out.append((s0, None))
                continue
            for s1, p in self.deref_ptr(s0, a[0]):
                for s2, q in self.deref_ptr(s1, a[1]):
                    s3 = self.on_access(s2, p, n, 'load')
                    s3 = s3 and self.on_access(s3, q, n, 'load')
                    if s3 is None:
                        continue
                    for s4, x in self.region_keys(s3, p.obj, p.off, n):
                        for s5, y in self.region_keys(s4, q.obj, q.off, n):
                            x2 = self.canon(s5, x)
                            if x is None or y is None:
                                self.report(s5, 'contract', rule, self.where(s5))
                            elif x2 != y and not self.same_bytes(s5, p, q, x2, y):
                                self.report(s5, 'contract', '%s: %s differs from %s' % (rule, show_key(x2), show_key(y)), self.where(s5))
                            out.append((s5, None))
        return out

    def same_bytes(self, st, p, q, x, y):
        """descriptions differ only in how they are cut up, or were found equal by a comparison?"""
        if any(k in st.ghost and st.ghost[k] == v for k, v in ((('memcmp', x, y), 0), (('memcmp', y, x), 0), (('streq',) + tuple(sorted((x, y), key=repr)), True))):
            return True
        if all(t[1].is_const() for t in x + y):
            n = sum(t[1].c for t in x)
            if n > 64:
                return False
            for k in range(n):
                a = self.load(st, Ptr(p.obj, st.norm(p.off + k)), 1, 'i8')
                b = self.load(st, Ptr(q.obj, st.norm(q.off + k)), 1, 'i8')
                if len(a) != 1 or len(b) != 1 or not isinstance(a[0][1], Lin) or not isinstance(b[0][1], Lin):
                    return False
                u, w = self.nu(st, a[0][1], 8), self.nu(st, b[0][1], 8)
                if len(u) != 1 or len(w) != 1 or not st.eq(u[0][1] - w[0][1]):
                    return False
            return True
        return models.first_diff(self, st, x, y) is not None and st.eq(models.first_diff(self, st, x, y) - sum((t[1] for t in x), ZERO))

    def v_string_no(self, s, a, i):
        return self.v_string(s, a, i, (self.byteval(s, a[2]).c,))

    def v_string(self, s, a, i, nochars=()):
        """sret: arbitrary std::string"""
        nm = self.text_of(s, a[1]) or 'str'
        o = Obj('lazy', None, nm, key=('clientstr', self.nextuid()), align=1)
        n = L(ksym(('slen', o), 0, 1 << 31, 'len(%s)' % nm))
        o.size = n + 1
        o.nul = n
        o.clientstr = nm
        o.nochars = nochars
        out = []
        for s1, q in self.deref_ptr(s, a[0]):
            s1, v = mkstr(self, s1, [(o, ZERO, n)])
            out.append((putstr(self, s1, q, v), None))
        return out

    def v_dump(self, s, a, i):
        print('DUMP', [repr(s.norm(x)) if isinstance(x, Lin) else repr(self.res(s, x)) for x in a], [k + ' ' + repr(x) for k, x in s.cons.facts()][:12], s.imp)
        return [(s, None)]

    # ------------------------------------------------------------ loops: bounded confirmation
    def run_loop(self, f, loop, pred, st):
        if not self.bounded:
            return super().run_loop(f, loop, pred, st)
        self.stats['loops'] += 1
        header = loop[0]
        if 'lsmdb' in f.name:
            self.loops_met.add('%s:%s' % (f.dem.replace('(anonymous namespace)::', '').split('(')[0], self.hdrline(f, header)))
        st = self.do_phis(f, header, pred, st)
        outer = set(st.env)
        st = self.hook_loop_head(st, f, header)
        acc = []
        K = self.loop_bound(f, header)
        cur = [(st, 0)]
        it = 0
        self.began = getattr(self, 'began', 0) or time.time()
        own = self.histories and f.name == self.cur_client
        seen = set()
        if own:
            K = 1 << 30
        while cur:
            it += 1
            nxt = []
            last = not own and self.inter_free() and (it > max(60, K) - 2 or any(k >= K - 1 for _, k in cur))
            for s, k in cur:
                backs, exits = [], []
                was, key = self.lassoing, None
                if last:
                    self.lassoing = True
                    s = s.copy()
                    s.env = {q: v for q, v in s.env.items() if q in outer}
                    key = self.round_key(s, f, loop)
                for o in self.run_blocks(f, header, None, s, loop, True):
                    if o[0] == 'back':
                        b = self.do_phis(f, header, o[1], o[2])
                        b = b if b is not o[2] else b.copy()
                        b.env = {q: v for q, v in b.env.items() if q in outer}
                        b = self.hook_loop_head(b, f, header)
                        if b is not None and key is not None:
                            self.loop_rounds += 1
                            if b.ghost.get('$nd') == s.ghost.get('$nd') and all(self.lasting(b, x) for x in b.ghost.get('$pend', ())[len(s.ghost.get('$pend', ())):]) and self.round_key(b, f, loop) == key:
                                self.report(b, 'never returns', 'the loop at line %s of %s goes round without changing anything' % (self.hdrline(f, header), f.dem.replace('(anonymous namespace)::', '').split('(')[0]))
                                continue
                        if b is not None:
                            backs.append(b)
                    else:
                        exits.append(o)
                self.lassoing = was
                if not was:
                    for o in exits:
                        (o[3] if o[0] == 'exit' else o[1]).ghost.pop('$nd', None)
                        (o[3] if o[0] == 'exit' else o[1]).ghost.pop('$pend', None)
                acc += exits
                und = bool(exits) or len(backs) > 1
                for b in backs:
                    k2 = k + 1 if und else k
                    if own:
                        h = canon_state(b)
                        if h in seen:
                            continue
                        seen.add(h)
                    if k2 > K or it > (300 if own else max(60, K)):
                        self.truncated += 1
                        continue
                    nxt.append((b, k2))
            cap = self.cap(f, header)
            if len(nxt) > cap and not own:
                self.truncated += len(nxt) - cap
                step = len(nxt) / float(cap)
                nxt = [nxt[int(j * step)] for j in range(cap)]
            if own and nxt and (self.steps > 0.7 * self.max_steps or time.time() > self.deadline - 0.3 * (self.deadline - self.began)):
                self.truncated += len(nxt)          # leave enough to end the histories found so far
                break
            cur = nxt
        return acc

    # A loop of the project comes back to exactly the state it was in, without anything that could turn out
    # differently next time (system calls, other threads, weak exchanges, choices of a specification): it never ends.
    lassoing = False
    loop_rounds = 0
    DET = re.compile(r'(__errno_location$|pthread_mutex_(un)?lock$|_ZNSt5mutex(4lock|6unlock)Ev$|mem(cpy|move|set|cmp|chr)|str(n?len|n?cmp|chr|rchr)|v_(check|mark|done|reach|end|same|sign|hash|unit|deep|cap|reader|insert|settled|deleted|op)|llvm\.|_Z(nw|na|dl|da)|_ZNK?St(?!.*(mutex|condition|thread|atomic|chrono|lock|future|random)))')

    def round_key(self, st, f, loop):
        """the state at a loop head, without the values that nothing inside the loop depends on (counters read afterwards)"""
        k = (f.name, loop[0])
        drop = self.free_phis.get(k)
        if drop is None:
            ins = {i['id']: i for b in loop[1] for i in f.blocks[b] if i.get('id') is not None}
            need, work = set(), []

            def use(v):
                if isinstance(v, (list, tuple)):
                    if len(v) == 2 and v[0] == 'v':
                        if v[1] in ins and v[1] not in need:
                            need.add(v[1])
                            work.append(ins[v[1]])
                    else:
                        for x in v:
                            use(x)
                elif isinstance(v, dict):
                    for x in v.values():
                        use(x)
            for b in loop[1]:
                for i in f.blocks[b]:
                    if i['op'] in ('br', 'switch', 'call', 'invoke', 'store', 'load', 'ret', 'atomicrmw', 'cmpxchg', 'indirectbr', 'resume'):
                        if i.get('id') is not None:
                            need.add(i['id'])
                        use({k: v for k, v in i.items() if k not in ('op', 'id', 'ty')})
            while work:
                use({k: v for k, v in work.pop().items() if k not in ('op', 'id', 'ty')})
            drop = self.free_phis[k] = frozenset(i['id'] for i in f.blocks[loop[0]] if i['op'] == 'phi' and i['id'] not in need)
        if drop:
            st = st.copy()
            st.env = {q: v for q, v in st.env.items() if q not in drop}
        return exact_state(st)

    def inter_free(self):
        return not getattr(self, 'inter_at', None)

    def open_end(self, r):
        out = []
        for s, v in r:
            if s is not None:
                s = s.copy()
                s.ghost['$nd'] = s.ghost.get('$nd', 0) + 1
            out.append((s, v))
        return out

    def dispatch(self, s, fn, args, i):
        if not self.lassoing:
            return super().dispatch(s, fn, args, i)
        n = self.stats['calls']
        r = super().dispatch(s, fn, args, i)
        if self.DET.match(fn.name) or self.stats['calls'] != n:
            return r
        if fn.name in ('read', 'write', 'pread', 'pwrite') and len(r) == 1 and isinstance(r[0][1], Lin) and r[0][1].is_const():
            return r        # nothing asked for, nothing done
        if self.FILE.match(fn.name):
            return self.lasts(fn.name, r)
        return self.open_end(r)

    # outcomes of these calls that stay the same for ever: errors other than an interruption, the end of a file
    FILE = re.compile(r'(open|openat|creat|read|pread|write|pwrite|lseek|fsync|fdatasync|ftruncate)(64)?$')

    def lasts(self, name, r):
        out = []
        for s, v in r:
            s = s.copy()
            er = [x for _, x in self.load(s, Ptr(sysmodel.errno_obj(self)), 4, 'i32')]
            s.ghost['$pend'] = s.ghost.get('$pend', ()) + ((name.replace('64', ''), v, er[0] if len(er) == 1 else None),)
            out.append((s, v))
        return out

    def lasting(self, st, x):
        name, v, er = x
        v = st.norm(v) if isinstance(v, Lin) else None
        if v is None or not v.is_const():
            return False
        if v.c == 0:
            return name in ('read', 'pread')
        if signed(v.c, 64) != -1 and signed(v.c, 32) != -1 or not isinstance(er, Lin):
            return False
        t = st.assume_ne(er - 4)
        return t is not None and t.assume_ne(er - 11) is not None

    def i_cmpxchg(self, s, f, i):
        r = super().i_cmpxchg(s, f, i)
        return [x[0] for x in self.open_end([(x, None) for x in r])] if self.lassoing else r

    def on_indirect(self, s, v, args, i):
        r = super().on_indirect(s, v, args, i)
        return self.open_end(r) if self.lassoing else r

    histories = False          # bounded pass: the client's loop visits every distinct state once

    def cap(self, f, header):
        return 400

    # ------------------------------------------------------------ unreachable heap objects
    gc_loops = True

    def hook_loop_head(self, st, f, header):
        if self.gc_loops and f.name == self.cur_client:
            return self.gc(st)
        return st

    def gc(self, st):
        """in the client's own frame nothing outside the state refers to objects"""
        heap = {o.id: o for o in st.mem if o.kind == 'heap'}
        if not heap:
            return st
        seen = set()
        work = []
        syms = set()

        def ids(d):
            for x in d:
                if x[0] == 'o':
                    if x[1] in heap and x[1] not in seen:
                        seen.add(x[1])
                        work.append(heap[x[1]])
                elif x[0] == 's':
                    sym(x[1])

        def sym(q):
            if q in syms:
                return
            syms.add(q)
            if q in SYMS:
                ids(SYMS[q].objs)

        def obj(o):
            if o.id in heap and o.id not in seen:
                seen.add(o.id)
                work.append(o)

        def val(v):
            if isinstance(v, Lin):
                for q, _ in v.t:
                    sym(q)
            elif isinstance(v, Ptr):
                obj(v.obj)
                val(v.off)
            elif isinstance(v, Obj):
                obj(v)
            elif isinstance(v, UP):
                ids(v.deps)
            elif isinstance(v, Agg):
                for x in v.v:
                    val(x)
            elif isinstance(v, Str):
                obj(v.data)
                val(v.len)
            elif isinstance(v, Tok):
                for x in v.a:
                    val(x)
            elif isinstance(v, (tuple, list, set, frozenset)):
                for x in v:
                    val(x)
            elif isinstance(v, dict):
                for x, y in v.items():
                    val(x)
                    val(y)
        for v in st.env.values():
            val(v)
        for k, v in st.ghost.items():
            if not (isinstance(k, tuple) and any(isinstance(x, Obj) for x in k)):
                val(k)
                val(v)
        for u, v in st.bind.items():
            ids(u.deps)
            val(v)
        for o, c in st.mem.items():
            if o.kind != 'heap' and c.alive:
                for en in c.log:
                    val(en[1:])
        while work:
            o = work.pop()
            c = st.mem[o]
            if o.size is not None:
                val(o.size)
            if c.alive:
                for en in c.log:
                    val(en[1:])
            else:
                for en in c.log:
                    if en[0] == 'c':
                        val(en[3])
        dead = [o for o in heap.values() if o.id not in seen]
        if not dead:
            return st
        st = st.copy()
        gone = set(dead)
        for o in dead:
            if st.mem[o].alive:
                st = self.on_unreachable(st, o)
                if st is None:
                    return None
            del st.mem[o]
        for k in [k for k in st.ghost if isinstance(k, tuple) and any(isinstance(x, Obj) and x in gone for x in k)]:
            del st.ghost[k]
        return st

    def on_unreachable(self, st, o):
        return st

    def loop_bound(self, f, header):
        return self.K

    # ------------------------------------------------------------ running a client
    def run_client(self, name):
        f = self.p.funcs.get(name)
        if f is None or not f.has_body:
            raise RuntimeError('client %s not found' % name)
        self.cur_client = name
        self.joining = not self.bounded
        st = State()
        self.init_state(st)
        sts = [st]
        if self.program_start:
            for n in sorted(self.p.funcs):
                if n.startswith('_GLOBAL__sub_I') and self.p.funcs[n].has_body:
                    sts = [s for t in sts for s, _ in self.call(t, self.p.funcs[n], [])]
        outs = []
        for st in sts:
            outs += self.call(st, f, [])
        for s, v in outs:
            self.on_end(s, name)
        return outs

    def init_state(self, st):
        pass

    def on_end(self, st, client):
        pass


def show_key(k):
    return '|'.join('%r:%s:%r%s' % (q[1], q[2], q[3], '' if q[4] is None else '@%r' % (q[4],)) for q in k)
