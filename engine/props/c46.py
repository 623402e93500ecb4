from posixspec import *

witness = ['w_names.cc']
TECH = 'the names given to system calls, compared with the names given to the operation; contents of results'
O_ACC, O_CREAT, O_TRUNC = 3, 0o100, 0o1000
AT_FDCWD, AT_REMOVEDIR = (1 << 32) - 100, 0x200
CHANGERS = ('unlink', 'unlinkat', 'remove', 'rmdir', 'mkdir', 'rename', 'link', 'symlink', 'chmod', 'truncate')
MUST = {'RemoveFile': ('unlink', 'it removed no file'), 'CreateDir': ('mkdir', 'it created no directory'), 'RemoveDir': ('rmdir', 'it removed no directory'),
        'RenameFile': ('rename', 'it renamed nothing'), 'GetChildren': ('opendir', 'it opened no directory'), 'GetFileSize': ('stat', 'it asked for no size'),
        'GetTestDirectory': ('mkdir', 'it did not try to create the directory')}
OPENERS = ('NewSequentialFile', 'NewRandomAccessFile', 'NewWritableFile', 'NewAppendableFile', 'NewLogger', 'LockFile')


class S(PosixSpec):
    """ghosts: names = names given to the operation, did / tried = calls on them that succeeded / were made, entries = names found by readdir, got = names returned"""
    check_mem = False

    def on_ready(self, s):
        s = s.copy()
        s.ghost.update(names=(), did=(), tried=(), entries=(), results=(), ownfd=(), alive=ONE)
        return s

    def on_op(self, s):
        s = s.copy()
        g = s.ghost
        a = g['opargs']
        names = []
        if g['op'] in OPENERS + tuple(MUST) + ('FileExists',):
            for k in range(0, len(a) - 1, 2):
                d = self.res(s, a[k])
                r = self.region_keys(s, d.obj, d.off, a[k + 1])
                names.append(self.plain(r[0][1]) if r and r[0][1] is not None else ('?',))
        g.update(names=tuple(names), did=(), tried=(), entries=(), results=(), ownfd=())
        return s

    def plain(self, k):
        """names of texts made by the models without the nesting left by copies; literal text at the start of a format is text"""
        if k is None or k == ('?',):
            return k
        out = []
        for x in k:
            what = x[3]
            if x[2] == 'u':
                while isinstance(what, tuple) and len(what) == 2 and isinstance(what[0], tuple) and repr(what[1]) == '0':
                    what = what[0]
                if isinstance(what, tuple) and what[0] == 'fmt':
                    pre = what[1].split('%')[0]
                    out += [(x[0] + n, ONE, 'v', C(ord(c)), None) for n, c in enumerate(pre)]
                    x = (x[0] + len(pre), x[1] - len(pre), 'u', ('fmt', what[1][len(pre):]) + what[2:], None)
                else:
                    x = (x[0], x[1], 'u', what, x[4])
            out.append(x)
        return tuple(out)

    def path_key(self, st, p):
        return self.plain(super().path_key(st, p))

    def which(self, st, p):
        """index of the operation's name this path is, None for another path"""
        k = self.path_key(st, p)
        if k == ('?',) or ('?',) in st.ghost['names']:
            st.imprecise('path not known')
        for n, x in enumerate(st.ghost['names']):
            if x == k:
                return n
        return None

    def other(self, st, op, name):
        self.report(st, 'another name', '%s calls %s() on a name it was not given' % (op, name))

    def did(self, st, what, ok):
        st = st.copy()
        st.ghost['tried'] = st.ghost['tried'] + (what,)
        if ok:
            st.ghost['did'] = st.ghost['did'] + (what,)
        return st

    def flags(self, st, x):
        x = st.norm(x) if isinstance(x, Lin) else None
        return x.c % (1 << 32) if x is not None and x.is_const() else None

    def on_sys(self, st, name, args, r, ok, err):
        g = st.ghost
        if 'alive' not in g:
            return st
        op = g.get('op', '')
        if name in CHANGERS + ('open', 'openat', 'creat', 'fopen', 'opendir', 'access', 'stat', 'lstat'):
            self.oblige()
            self.checks['%s:%s' % (op, name)] = self.checks.get('%s:%s' % (op, name), 0) + 1
        if name in ('open', 'openat', 'creat', 'fopen'):
            w = self.which(st, args[1] if name == 'openat' else args[0])
            if name == 'creat':
                ch = True
            elif name == 'fopen':
                ch = (self.text_of(st, args[1]) or 'w')[:1] != 'r'
            else:
                fl = self.flags(st, args[2 if name == 'openat' else 1])
                if fl is None:
                    st.imprecise('open flags not constant')
                    fl = 0
                ch = bool(fl & (O_ACC | O_CREAT | O_TRUNC))
            if w is None:
                if ch:
                    self.other(st, op, name)
                return st
            st = self.did(st, 'open', ok)
            if ok:
                st.ghost['ownfd'] = st.ghost['ownfd'] + (r,)
            return st
        if name == 'opendir':
            return self.did(st, 'opendir', ok) if self.which(st, args[0]) is not None else st
        if name in ('access', 'stat'):
            if self.which(st, args[0]) is None:
                return st
            if name == 'access' and self.flags(st, args[1]) != 0:
                return st           # asks for permissions, not for existence
            return self.did(st, name, ok)
        if name == 'fstat' and any(st.eq(d - args[0]) for d in g['ownfd'] if isinstance(d, Lin) and isinstance(args[0], Lin)):
            return self.did(st, 'stat', ok)
        if name == 'readdir':
            if ok and err != 'eof':
                o = self.gobj['$dirent']
                p = self.res(st, r)
                k = self.region_keys(st, o, C(19), st.norm(st.ghost[('nul', o)] - 19))
                st = st.copy()
                st.ghost['entries'] = st.ghost['entries'] + ((self.plain(k[0][1]) if k else ('?',)),)
            return st
        if name not in CHANGERS:
            return st
        what = name
        a = args
        if name == 'unlinkat':
            fl = self.flags(st, args[2])
            what = 'rmdir' if fl is not None and fl & AT_REMOVEDIR else 'unlink'
            a = args[1:]
        need = MUST.get(op, ('',))[0]
        if what == 'chmod' and self.which(st, a[0]) is not None:
            return st
        if op == 'GetTestDirectory' and not st.ghost['names']:
            return st           # decided by the client that computes the name
        if what != need:
            if self.which(st, a[0]) is None:
                self.other(st, op, name)
            else:
                self.report(st, 'another operation', '%s calls %s() on the name it was given' % (op, name))
            return st
        if self.which(st, a[0]) != 0:
            self.other(st, op, name)
            return st
        if what == 'rename' and self.which(st, a[1]) != 1:
            # the two names may be the same text
            self.other(st, op, name)
            return st
        return self.did(st, what, ok)

    def on_done(self, s, op, ok, nf, io):
        g = s.ghost
        self.oblige()
        if op in OPENERS and ok and 'open' not in g['did']:
            self.report(s, 'another name', '%s returned OK without opening the file it was given' % op)
        if op in MUST and ok:
            what, msg = MUST[op]
            if not (op == 'GetTestDirectory' and not g['names']) and what not in g['tried' if op == 'GetTestDirectory' else 'did']:
                self.report(s, 'nothing done', '%s returned OK, but on the name given %s' % (op, msg))
        if op == 'FileExists' and not set(g['did' if ok else 'tried']) & {'access', 'stat', 'open'}:
            self.report(s, 'nothing done', 'FileExists answered without asking for the file it was given')
        return s

    def v_is_text(self, s, a, i):
        self.oblige()
        p = self.res(s, a[0])
        self.checks['directory name'] = self.checks.get('directory name', 0) + 1
        out = []
        for t, ps in self.regions(s, p.obj, p.off, a[1]) if isinstance(p, Ptr) else [(s, None)]:
            k = self.plain(self.canon(t, ps))
            want = t.ghost['names'][0]
            if k is None or '?' in want:
                t.imprecise('text not known')
            if k != want:
                self.report(t, 'wrong directory', 'GetTestDirectory returns another name than TEST_TMPDIR or /tmp/lsmdbtest-<euid>')
            out.append((t, None))
        return out


class Dir(S):
    """a directory of up to max_entries entries, visited exactly"""
    histories = True
    max_entries = 3

    def more_entries(self, st):
        return len(st.ghost.get('entries', ())) < self.max_entries

    def v_entry(self, s, a, i):
        p = self.res(s, a[0])
        self.oblige()
        out = []
        for t, ps in self.regions(s, p.obj, p.off, a[1]) if isinstance(p, Ptr) else [(s, None)]:
            k = self.plain(self.canon(t, ps))
            t = t.copy()
            if k is None:
                t.imprecise('name not known')
                k = ('?',)
            t.ghost['results'] = t.ghost['results'] + (k,)
            out.append((t, None))
        return out

    def on_done(self, s, op, ok, nf, io):
        if op == 'GetChildren' and ok:
            self.checks['entries'] = self.checks.get('entries', 0) + 1
            if sorted(map(repr, s.ghost['entries'])) != sorted(map(repr, s.ghost['results'])):
                self.report(s, 'wrong entries', 'GetChildren returns other names than the directory has')
        return super().on_done(s, op, ok, nf, io)


clients = [('p_names', S, {'expect': ['RemoveFile:unlink', 'CreateDir:mkdir', 'RemoveDir:rmdir', 'RenameFile:rename', 'NewLogger:open']}),
           ('p_sequential', S, {'expect': ['NewSequentialFile:open']}), ('p_random', S, {'expect': ['NewRandomAccessFile:open']}), ('p_writable', S, {}),
           ('p_lock', S, {'expect': ['LockFile:open']}), ('n_exists', S, {}), ('n_testdir', S, {'expect': ['directory name', 'GetTestDirectory:mkdir']}), ('n_entries', Dir, {'expect': ['entries']})]
explain = ('Every system call that opens, creates, removes or renames something, with the operation it happens in and the names the operation was given: OK means the call was made on the given name and succeeded; '
           'nothing else is created, removed, renamed or opened for writing. Names returned by GetChildren and GetTestDirectory are compared with the text the system reported.')
