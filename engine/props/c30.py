from posixspec import *

TECH = 'file-content object: reads fill symbolic file bytes, results are compared with the requested range'


class S(PosixSpec):
    """ghosts: pos = file position of the sequential descriptor, got = bytes returned by reads in this operation,
    files = (fd, offset-of-nothing) descriptors opened on the client's file, maps = mappings of it"""
    check_mem = True

    def on_ready(self, s):
        s = s.copy()
        s.ghost.update(pos=ZERO, got=ZERO, files=(), maps=(), want=None, pre=(), other=(), skip0=ZERO)
        return s

    def content(self):
        o = self.gobj.get('$file')
        if o is None:
            o = self.gobj['$file'] = Obj('lazy', None, 'file', key=('clientmem', 'file'), align=1, root=True)
            o.clientmem = True
        return o

    def strange(self):
        o = self.gobj.get('$otherfile')
        if o is None:
            o = self.gobj['$otherfile'] = Obj('lazy', None, 'another file', key=('clientmem', 'otherfile'), align=1, root=True)
        return o

    def on_op(self, s):
        s = s.copy()
        g = s.ghost
        g['got'] = ZERO
        a = g['opargs']
        op = g['op']
        if op.startswith('New'):
            g['want'] = (a[0], a[1])
        g['skip0'] = g['pos']
        g['pre'] = tuple(o for o, v in s.mem.items() if o.kind == 'heap' and v.alive and not getattr(o, 'clientbuf', False)) if op == 'RandomRead' else ()
        return s

    def ours(self, st, path):
        w = st.ghost['want']
        if w is None:
            return False
        d = self.res(st, w[0])
        want = self.region_keys(st, d.obj, d.off, w[1])
        return bool(want) and self.path_key(st, path) == want[0][1]

    def fd_ours(self, st, fd):
        return any(st.eq(fd - d) for d in st.ghost['files'])

    def on_access(self, st, p, size, kind, val=None):
        st = super().on_access(st, p, size, kind, val)
        if st is None:
            return None
        if kind == 'store' and st.ghost.get('op') == 'RandomRead' and (p.obj in st.ghost['pre'] or p.obj.kind == 'global' and not p.obj.const and not getattr(p.obj, 'tls', False) and p.obj is not self.gobj.get('$errno')) \
                and not st.ghost.get('locks') and not self.is_atomic():
            self.report(st, 'not concurrent', 'a random-access read modifies shared state (%s)' % p.obj.name)
        return st

    def is_atomic(self):
        i = self.cur[1] if self.cur else {}
        return bool(i.get('ord'))

    def sys_must_fail(self, st, name, args):
        return False

    def put_read(self, st, p, r, name, args):
        g = st.ghost
        if 'want' not in g:
            return super().put_read(st, p, r, name, args)
        o = self.content() if self.fd_ours(st, args[0]) else self.strange()
        if name == 'pread':
            off = args[3]
            return self.write(st, p.obj, ('c', p.off, r, o, off))
        return self.write(st, p.obj, ('c', p.off, r, o, g['pos']))

    def on_sys(self, st, name, args, r, ok, err):
        g = st.ghost
        if 'want' not in g:
            return st
        if not ok and not g.get('fails'):
            st = st.copy()
            st.ghost['fails'] = (ONE,)
        g = st.ghost
        op = g['op']
        if name in ('read', 'lseek') and op == 'RandomRead':
            self.report(st, 'keeps a position', 'a random-access read uses %s()' % name)
            return None
        if not ok and name != 'close':
            return st
        st = st.copy()
        g = st.ghost
        self.checks[name] = self.checks.get(name, 0) + 1
        if name in ('open', 'openat'):
            if self.ours(st, args[0] if name == 'open' else args[1]):
                g['files'] = g['files'] + (r,)
        elif name == 'close':
            g['files'] = tuple(d for d in g['files'] if not st.eq(d - args[0]))
        elif name == 'pread':
            if not st.ge(args[3]):
                # a negative offset is refused by the system
                st = st.assume_ge(args[3])
                if st is None:
                    return None
                st = st.copy()
                g = st.ghost
            g['got'] = st.norm(g['got'] + r)
        elif name == 'read':
            g['got'] = st.norm(g['got'] + r)
            g['pos'] = st.norm(g['pos'] + r)
        elif name == 'lseek':
            n, wh = self.s64(st, args[1]), st.norm(args[2])
            if n is None or not wh.is_const() or wh.c > 1:
                g['pos'] = L(fresh(0, 1 << 62, 'pos'))
            else:
                if not st.ge(C((1 << 63) - 1) - n):
                    # as off_t this is negative: the position would move back by 2^64 - n
                    t = st.assume_ge(n - (1 << 63))
                    t = t and t.assume_ge(g['pos'] + n - (1 << 64))
                    if t is not None:
                        self.report(t, 'wrong position', 'the position moves backwards when the distance does not fit off_t')
                    st = st.assume_ge(C((1 << 63) - 1) - n)
                    if st is None:
                        return None
                new = n if wh.c == 0 else st.norm(g['pos'] + n)
                st = st.assume_ge(new)
                if st is None:
                    return None
                st = st.copy()
                st.ghost['pos'] = new
        elif name == 'mmap':
            fd, off = args[4], st.norm(args[5])
            g['maps'] = g['maps'] + ((Ptr(r.obj), ONE if self.fd_ours(st, fd) else ZERO, off),)
            self.oblige()
            sz = g.get('st_size')
            if sz is not None and not st.ge(sz - r.obj.size):
                t = st.assume_ge(r.obj.size - sz - 1)
                if t is not None:
                    self.report(t, 'maps too much', 'the mapping is longer than the file')
        return st

    def s64(self, st, x):
        """value of a 64-bit register read as signed"""
        if not isinstance(x, Lin):
            return None
        x = st.norm(x)
        if x.is_const():
            return C(signed(x.c, 64))
        return x

    def on_done(self, s, op, ok, nf, io):
        g = s.ghost
        self.oblige()
        a = g['opargs']
        if op == 'Skip' and ok:
            if not s.eq(g['pos'] - g['skip0'] - a[0]):
                t = s.assume_ne(g['pos'] - g['skip0'] - a[0])
                if t is not None:
                    self.report(t, 'wrong position', 'Skip(n) does not move forward by exactly n')
                    return None
        if op == 'RandomRead' and not ok and not g['fails']:
            off, n = a[0], a[1]
            for p, our, mo in g['maps']:
                t = s.assume_ge(p.obj.size - off - n)
                if t is not None:
                    self.report(t, 'refused', 'a read inside the mapped file fails')
        s = s.copy()
        if ok and op in ('RandomRead', 'SequentialRead'):
            # keep what v_got needs
            s.ghost['last'] = (op, a, g['got'], g['skip0'])
        s.ghost.update(got=ZERO, pre=(), skip0=ZERO)
        return s

    def v_got(self, s, a, i):
        s = s.copy()
        g = s.ghost
        op, args, got, start = g['last']
        n = s.norm(a[1])
        self.checks['got:' + op] = self.checks.get('got:' + op, 0) + 1
        self.oblige(2)
        want = args[0] if op == 'RandomRead' else start
        ask = args[1] if op == 'RandomRead' else args[0]
        if not s.ge(ask - n):
            t = s.assume_ge(n - ask - 1)
            if t is not None:
                self.report(t, 'wrong size', '%s returns more bytes than asked for' % op)
            return []
        out = []
        for s0, some in self.split(s, n - 1, 'ge'):
            if not some:
                if not s0.eq(got):
                    t = s0.assume_ge(got - 1)
                    if t is not None:
                        self.report(t, 'bytes dropped', '%s returns fewer bytes than were read' % op)
                out.append((s0.copy(), None))
                continue
            for s1, p in self.deref_ptr(s0, a[0]):
                m = [q for q in g['maps'] if q[0].obj is p.obj]
                if m:
                    q = m[0]
                    if not s1.eq(q[1] - 1):
                        self.report(s1, 'wrong file', 'the mapping is not of the file asked for')
                    bad = p.off + q[2] - want
                    if not s1.eq(bad):
                        t = s1.assume_ne(bad)
                        if t is not None:
                            self.report(t, 'wrong bytes', 'the slice returned does not start at the requested offset')
                    if not s1.eq(n - ask):
                        t = s1.assume_ne(n - ask)
                        if t is not None:
                            self.report(t, 'wrong size', 'the slice returned is not of the requested length')
                    if not s1.ge(p.off) or not s1.ge(p.obj.size - p.off - n):
                        for bad in (-p.off - 1, p.off + n - p.obj.size - 1):
                            t = s1.assume_ge(bad)
                            if t is not None:
                                self.report(t, 'out-of-bounds', 'the slice returned is not inside the mapped file')
                        s1 = s1.assume_ge(p.off)
                        s1 = s1 and s1.assume_ge(p.obj.size - p.off - n)
                        if s1 is None:
                            continue
                else:
                    if not s1.eq(got - n):
                        t = s1.assume_ne(got - n)
                        if t is not None:
                            self.report(t, 'wrong size', '%s returns a slice whose size is not the number of bytes read' % op)
                            continue
                    for s2, ps in self.region_keys(s1, p.obj, p.off, n):
                        good = ps is not None
                        pos = ZERO
                        for q in ps or ():
                            if q[2] == 'c' and q[3] is self.content() and s2.eq(q[0] - pos) and s2.eq(q[4] - pos - want):
                                pos = s2.norm(pos + q[1])
                            else:
                                good = False
                                break
                        if not good or not s2.eq(pos - n):
                            self.report(s2, 'wrong bytes', '%s does not return the bytes of the requested range' % op)
                out.append((s1, None))
        for t, _ in out:
            t.ghost.pop('last', None)
            t.ghost.update(got=ZERO, pre=(), skip0=ZERO)
        return out


clients = [('p_sequential', S, {'expect': ['got:SequentialRead', 'lseek']}), ('p_random', S, {'expect': ['got:RandomRead', 'pread', 'mmap']})]
explain = ('The file is one symbolic byte object.  read/pread place its bytes at the descriptor\'s position / the given offset (any count up to the request), mmap exposes it.  Every slice '
           'returned must be exactly the requested range and as long as what the system returned; random reads of any 64-bit offset and size use no shared position and modify no shared object.')
