"""Oracle of a file system: names and open handles refer to numbered files, of which only existence and size are tracked."""
from leak import Leaks
from ai import *
from lin import *


class Mem(Leaks):
    assert_is_violation = False
    want = ()                  # rules this property owns
    max_groups = 400
    max_rounds = 4000
    histories = True

    def init_state(self, st):
        super().init_state(st)
        self.put(st.ghost, [None, None, None, None], {})

    def put(self, g, refs, sizes):
        """refs: name 0, name 1, handle 0, handle 1 -> file or None; canonical numbering"""
        num = {}
        for x in refs:
            if x is not None and x not in num:
                num[x] = len(num)
        g['refs'] = tuple(None if x is None else num[x] for x in refs)
        g['sizes'] = tuple(sizes[x] for x in sorted(num, key=num.get))

    def get(self, g):
        return list(g['refs']), dict(enumerate(g['sizes']))

    def bad(self, s, rule, msg):
        self.oblige()
        if rule in self.want:
            self.report(s, rule, msg)

    def flags(self, s, args):
        cur = [(s, [])]
        for a in args:
            cur = [(t, v + [b]) for s1, v in cur for t, b in self.cond(s1, a)]
        return cur

    def v_fs(self, s, a, i):
        op = self.text_of(s, a[0])
        k, j = s.norm(a[1]).c, s.norm(a[2]).c
        out = []
        for t, (ok, nf, made) in self.flags(s, a[3:6]):
            t = t.copy()
            g = t.ghost
            self.checks[op] = self.checks.get(op, 0) + 1
            self.oblige(2)
            refs, sizes = self.get(g)
            f = refs[k]
            new = max(list(sizes) + [-1]) + 1
            if op in ('create', 'append'):
                if not ok or not made:
                    self.bad(t, 'name space', '%s does not give a usable file' % ('NewWritableFile' if op == 'create' else 'NewAppendableFile'))
                    continue
                if f is None:
                    refs[k] = f = new
                    sizes[f] = 0
                elif op == 'create':
                    sizes[f] = 0
                refs[2 + j] = f
            elif op == 'open':
                if ok != (f is not None) or ok != made:
                    self.bad(t, 'name space', 'opening for reading %s although the file %s' % (('succeeds', 'does not exist') if ok else ('fails', 'exists')))
                    continue
                if not ok and not nf:
                    self.bad(t, 'name space', 'opening a missing file for reading is not reported as NotFound')
                    continue
                if ok:
                    refs[2 + j] = f
            elif op == 'remove':
                if ok != (f is not None):
                    self.bad(t, 'name space', 'RemoveFile %s although the file %s' % (('succeeds', 'does not exist') if ok else ('fails', 'exists')))
                    continue
                refs[k] = None
            elif op == 'rename':
                if ok != (f is not None):
                    self.bad(t, 'name space', 'RenameFile %s although the file %s' % (('succeeds', 'does not exist') if ok else ('fails', 'exists')))
                    continue
                if ok and j != k:
                    refs[j], refs[k] = f, None
            self.put(g, refs, sizes)
            out.append((t, None))
        return out

    def v_fsize(self, s, a, i):
        refs, sizes = self.get(s.ghost)
        return [(s, C(sizes[refs[2 + s.norm(a[0]).c]]))]

    def v_fexists(self, s, a, i):
        out = []
        k = s.norm(a[0]).c
        for t, b in self.cond(s, a[1]):
            self.oblige()
            if b != (t.ghost['refs'][k] is not None):
                self.bad(t, 'name space', 'FileExists is %s although the file %s' % ('true' if b else 'false', 'does not exist' if b else 'exists'))
                continue
            out.append((t, None))
        return out

    def v_flength(self, s, a, i):
        out = []
        k = s.norm(a[0]).c
        for t, ok in self.cond(s, a[1]):
            self.oblige()
            refs, sizes = self.get(t.ghost)
            if ok != (refs[k] is not None):
                self.bad(t, 'name space', 'GetFileSize %s although the file %s' % (('succeeds', 'does not exist') if ok else ('fails', 'exists')))
                continue
            if ok:
                for u, n in self.nu(t, a[2], 64):
                    if not u.eq(n - sizes[refs[k]]):
                        self.bad(u, 'name space', 'the size of a file is not that of what was appended since it was created')
                        continue
                    out.append((u, None))
            else:
                out.append((t, None))
        return out

    def v_fgrow(self, s, a, i):
        out = []
        for t, ok in self.cond(s, a[1]):
            t = t.copy()
            if not ok:
                self.bad(t, 'data', 'Append fails')
                continue
            refs, sizes = self.get(t.ghost)
            sizes[refs[2 + s.norm(a[0]).c]] += 1
            self.put(t.ghost, refs, sizes)
            out.append((t, None))
        return out

    def v_fclose(self, s, a, i):
        s = s.copy()
        refs, sizes = self.get(s.ghost)
        refs[2 + s.norm(a[0]).c] = None
        self.put(s.ghost, refs, sizes)
        return [(s, None)]

    def v_fread(self, s, a, i):
        out = []
        for t, ok in self.cond(s, a[1]):
            refs, sizes = self.get(t.ghost)
            want = sizes[refs[2 + s.norm(a[0]).c]]
            self.checks['read'] = self.checks.get('read', 0) + 1
            for u, n in self.nu(t, a[2], 64):
                self.oblige()
                if not ok or not u.eq(n - want):
                    self.bad(u, 'data', 'an open file does not deliver its contents (%d bytes)' % want)
                    continue
                out.append((u, None))
        return out
