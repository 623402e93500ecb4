"""Operating-system interface: every call may succeed or fail; errno is only meaningful after a failure."""
import re
from lin import *
from ai import *
from models import model, getstr, c_strlen

ENOENT, EINTR = 2, 4


def errno_obj(e):
    o = e.gobj.get('$errno')
    if o is None:
        o = Obj('global', C(4), 'errno', root=True)
        e.gobj['$errno'] = o
    return o


def fail(e, s, name, args, retv=None, path=False, intr=False):
    """failure outcome; list of (state, ret)"""
    t = s.copy()
    n = ksym(('errno', name, e.siteof(s), e.nextuid()), 1, 133, 'errno(%s)' % name)
    t = e.store(t, Ptr(errno_obj(e)), L(n), 4)
    if not path:
        t = t.assume_ne(L(n) - ENOENT)
    if not intr:
        t = t.assume_ne(L(n) - EINTR)
    t.ghost = dict(t.ghost)
    t.note(e.where(t), '%s fails' % name)
    r = C(-1) if retv is None else retv
    t = e.on_sys(t, name, args, r, False, L(n))
    return [(t, r)] if t is not None else []


def okret(e, s, name, args, r):
    s = s.copy()
    s.note(e.where(s), '%s succeeds' % name)
    s = e.on_sys(s, name, args, r, True, None)
    return [(s, r)] if s is not None else []


@model(r'__errno_location$')
def m_errno(e, s, a, i, fn):
    return [(s, Ptr(errno_obj(e)))]


def name_of(fn):
    n = fn.dem.split('(')[0]
    return {'open64': 'open', 'lseek64': 'lseek', 'pread64': 'pread', 'stat64': 'stat', 'fstat64': 'fstat', 'mmap64': 'mmap', 'readdir64': 'readdir'}.get(n, n)


@model(r'(open|openat|creat)(64)?$')
def m_open(e, s, a, i, fn):
    nm = name_of(fn)
    out = []
    if not e.sys_must_fail(s, nm, a):
        fd = L(ksym(('fd', e.nextuid()), 0, (1 << 20), 'fd%d' % e.uid))
        out += okret(e, s, nm, a, fd)
    if e.sys_may_fail(s, nm, a):
        out += fail(e, s, nm, a, path=True)
    return out


@model(r'(close|fdatasync|fsync|access|unlink|mkdir|rmdir|rename|closedir|ftruncate|munmap|fcntl|flock|sync_file_range|chmod|remove|link|unlinkat|fchmod|dup2|symlink|posix_fadvise|madvise|msync)$')
def m_zero(e, s, a, i, fn):
    nm = name_of(fn)
    s0 = s
    if nm == 'munmap':
        s0 = s.copy()
        p = e.res(s, a[0])
        if isinstance(p, Ptr) and getattr(p.obj, 'mapping', False):
            s0.mem[p.obj] = OS((), False)
    out = okret(e, s0, nm, a, ZERO)
    if e.sys_may_fail(s, nm, a):
        out += fail(e, s, nm, a, path=nm in ('access', 'unlink', 'mkdir', 'rmdir', 'rename', 'chmod', 'remove', 'link', 'symlink'))
    return out


@model(r'(read|write|pread|pwrite)(64)?$')
def m_rw(e, s, a, i, fn):
    nm = name_of(fn)
    out = []
    for s1, n in e.nu(s, a[2], 64):
        for s2, some in e.split(s1, n - 1, 'ge'):
            if not some:
                out += okret(e, s2, nm, a, ZERO)
                continue
            for s3, p in e.deref_ptr(s2, a[1]):
                s3 = e.on_access(s3, p, n, 'store' if 'read' in nm else 'load')
                if s3 is None:
                    continue
                r = L(ksym(('ret', nm, e.nextuid()), 0, (1 << 63) - 1, '%s#%d' % (nm, e.uid)))
                s4 = s3.assume_ge(n - r)
                if s4 is None:
                    continue
                if nm == 'write' and e.write_progress:
                    s4 = s4.assume_ge(r - 1)
                if 'read' in nm:
                    s4 = e.put_read(s4, p, r, nm, a)
                out += okret(e, s4, nm, [a[0], p, n] + a[3:], r)
                if e.sys_may_fail(s3, nm, a):
                    out += fail(e, s3, nm, [a[0], p, n] + a[3:], intr=nm in ('read', 'write'))
    return out


@model(r'lseek(64)?$')
def m_lseek(e, s, a, i, fn):
    out = okret(e, s, 'lseek', a, L(ksym(('ret', 'lseek', e.nextuid()), 0, (1 << 62), 'lseek')))
    return out + fail(e, s, 'lseek', a)


@model(r'(f|l)?stat(64)?$', r'__(f|l)?xstat(64)?$')
def m_stat(e, s, a, i, fn):
    nm = name_of(fn)
    out = []
    for s1, p in e.deref_ptr(s, a[1]):
        t = e.havoc(s1, p.obj, p.off, C(144))
        sz = L(ksym(('stsize', e.nextuid()), 0, (1 << 63) - 1, 'st_size'))
        t = e.write(t, p.obj, ('v', p.off + 48, C(8), sz))
        t.ghost['st_size'] = sz
        out += okret(e, t, nm, a, ZERO)
        out += fail(e, s1, nm, a, path=True)
    return out


@model(r'mmap(64)?$')
def m_mmap(e, s, a, i, fn):
    s1 = s.copy()
    o = Obj('heap', a[1], 'mapping', site='mmap', align=4096)
    o.mapping = True
    s1.mem[o] = OS((), True)
    out = okret(e, s1, 'mmap', a, Ptr(o))
    return out + fail(e, s, 'mmap', a, retv=C(-1))


@model(r'opendir$', r'fdopen$', r'fopen$', r'tmpfile$')
def m_opendir(e, s, a, i, fn):
    nm = name_of(fn)
    s1 = s.copy()
    o = Obj('heap', C(256), 'DIR' if nm == 'opendir' else 'FILE', site=nm)
    o.stream = nm
    s1.mem[o] = EMPTY
    out = okret(e, s1, nm, a, Ptr(o))
    return out + fail(e, s, nm, a, retv=ZERO, path=nm != 'fdopen')


@model(r'readdir(64)?$')
def m_readdir(e, s, a, i, fn):
    out = []
    o = e.gobj.get('$dirent')
    if o is None:
        o = e.gobj['$dirent'] = Obj('global', C(280), 'dirent', root=True)
    ln = L(ksym(('dname', e.nextuid()), 1, 255, 'd_name.len'))
    o.dirent = True
    s1 = s.copy() if e.more_entries(s) else None
    if s1 is None:
        t = e.on_sys(s.copy(), 'readdir', a, ZERO, True, 'eof')
        return ([(t, ZERO)] if t is not None else []) + fail(e, s, 'readdir', a, retv=ZERO)
    s1.mem[o] = EMPTY
    src = Obj('lazy', None, 'd_name', key=('dname', e.nextuid()), align=1)
    src.nul, src.size = ln, ln + 1
    s1 = e.write(s1, o, ('c', C(19), ln, src, ZERO))
    s1 = e.write(s1, o, ('v', ln + 19, ONE, ZERO))
    s1.ghost[('nul', o)] = ln + 19
    out += okret(e, s1, 'readdir', a, Ptr(o))
    t = s.copy()
    t.note(e.where(t), 'readdir: end of directory')
    t = e.on_sys(t, 'readdir', a, ZERO, True, 'eof')
    if t is not None:
        out.append((t, ZERO))
    out += fail(e, s, 'readdir', a, retv=ZERO)
    return out


@model(r'fclose$', r'fflush$')
def m_fclose(e, s, a, i, fn):
    nm = name_of(fn)
    out = okret(e, s, nm, a, ZERO) + (fail(e, s, nm, a) if e.stdio_fails else [])
    return [(end_stream(e, t, a[0]), r) for t, r in out] if nm == 'fclose' else out


def end_stream(e, s, p):
    """the stream object no longer exists"""
    p = e.res(s, p)
    if isinstance(p, Ptr) and getattr(p.obj, 'stream', None) and p.obj in s.mem:
        s = s.copy()
        s.mem[p.obj] = OS(s.mem[p.obj].log, False)
    return s


@model(r'(fwrite|fwrite_unlocked)$')
def m_fwrite(e, s, a, i, fn):
    out = []
    for s1, sz in e.nu(s, a[1], 64):
        for s2, n in e.nu(s1, a[2], 64):
            sz, n = s2.norm(sz), s2.norm(n)
            tot = n.scale(sz.c) if sz.is_const() else sz.scale(n.c) if n.is_const() else L(fresh(0, 1 << 62))
            for s3, p in e.deref_ptr(s2, a[0]):
                s3 = e.on_access(s3, p, tot, 'load')
                if s3 is None:
                    continue
                out += okret(e, s3, 'fwrite', [p, tot, a[3]], n)
    return out


@model(r'getrlimit(64)?$')
def m_getrlimit(e, s, a, i, fn):
    out = []
    for s1, p in e.deref_ptr(s, a[1]):
        t = e.store(s1, p, L(ksym(('rlim', e.nextuid()), 0, (1 << 64) - 1, 'rlim_cur')), 8)
        t = e.store(t, Ptr(p.obj, p.off + 8), L(ksym(('rlimm', e.nextuid()), 0, (1 << 64) - 1, 'rlim_max')), 8)
        out += okret(e, t, 'getrlimit', a, ZERO)
        out += fail(e, s1, 'getrlimit', a)
    return out


@model(r'gettimeofday$')
def m_gtod(e, s, a, i, fn):
    out = []
    for s1, p in e.deref_ptr(s, a[0]):
        sec = L(ksym(('tv_sec', e.nextuid()), 0, 1 << 40, 'tv_sec'))
        us = L(ksym(('tv_usec', e.nextuid()), 0, 999999, 'tv_usec'))
        s1 = e.store(s1, p, sec, 8)
        s1 = e.store(s1, Ptr(p.obj, p.off + 8), us, 8)
        out += okret(e, s1, 'gettimeofday', [p, sec, us], ZERO)
    return out


@model(r'clock_gettime$')
def m_cgt(e, s, a, i, fn):
    out = []
    for s1, p in e.deref_ptr(s, a[1]):
        sec = L(ksym(('tv_sec', e.nextuid()), 0, 1 << 40, 'tv_sec'))
        ns = L(ksym(('tv_nsec', e.nextuid()), 0, 999999999, 'tv_nsec'))
        s1 = e.store(s1, p, sec, 8)
        s1 = e.store(s1, Ptr(p.obj, p.off + 8), ns, 8)
        out += okret(e, s1, 'clock_gettime', a, ZERO)
    return out


@model(r'(localtime|gmtime)_r$')
def m_localtime(e, s, a, i, fn):
    out = []
    for s1, p in e.deref_ptr(s, a[1]):
        rng = [('sec', 0, 60), ('min', 0, 59), ('hour', 0, 23), ('mday', 1, 31), ('mon', 0, 11), ('year', -1000, 8099)]
        for k, (n, lo, hi) in enumerate(rng):
            s1 = e.store(s1, Ptr(p.obj, p.off + 4 * k), L(ksym(('tm', n, e.nextuid()), lo, hi, 'tm_' + n)), 4)
        out.append((s1, a[1]))
    return out


@model(r'strerror$')
def m_strerror(e, s, a, i, fn):
    o = Obj('lazy', None, 'strerror', key=('strerror', a[0] if isinstance(a[0], Lin) else ZERO))
    o.nul = L(ksym(('strerrlen', o), 1, 200, 'strerror.len'))
    o.strerror = a[0]
    return [(s, Ptr(o))]


@model(r'getenv$')
def m_getenv(e, s, a, i, fn):
    k = ('env', e.text_of(s, a[0]))
    if k[1] is not None and k in s.ghost:
        return [(s, s.ghost[k])]
    out = []
    vals = [ZERO]
    for empty in (True, False):
        o = Obj('lazy', None, 'envvar', key=('env', k[1] or e.nextuid(), empty), align=1)
        o.nul = ZERO if empty else L(ksym(('getenv', o), 1, 4096, 'getenv.len'))
        o.size = o.nul + 1
        vals.append(Ptr(o))
    for v in vals:
        t = s.copy()
        if k[1] is not None:
            t.ghost[k] = v
        out.append((t, v))
    return out


@model(r'(geteuid|getuid|getpid|gettid|getppid|pthread_self)$')
def m_geteuid(e, s, a, i, fn):
    return [(s, L(ksym((name_of(fn),), 0, (1 << 32) - 1, name_of(fn))))]


@model(r'sysconf$')
def m_sysconf(e, s, a, i, fn):
    return [(s, L(fresh(-1, 1 << 30)))]


def slept(e, s, name, a, total, rem):
    """the thread sleeps `total` nanoseconds, or less when a signal arrives: rem(state, left) stores what is left"""
    out = []
    t = s.copy()
    t.ghost['slept'] = t.ghost.get('slept', ZERO) + total
    out += okret(e, t, name, a, ZERO)
    if s.ghost.get('signals', 0) < getattr(e, 'max_signals', 2):
        t = s.copy()
        t.ghost['signals'] = t.ghost.get('signals', 0) + 1
        sec = L(ksym(('left_sec', e.nextuid()), 0, 1 << 40, 'left_sec'))
        ns = L(ksym(('left_nsec', e.nextuid()), 0, 999999999, 'left_nsec'))
        left = sec.scale(10 ** 9) + ns
        t = t.assume_ge(total - left)
        if t is not None:
            t.ghost['slept'] = t.ghost.get('slept', ZERO) + total - left
            for u in rem(t, sec, ns):
                u = u.copy()
                u = e.store(u, Ptr(errno_obj(e)), C(EINTR), 4)
                u.note(e.where(u), '%s is interrupted' % name)
                u = e.on_sys(u, name, a, C(-1), False, C(EINTR))
                if u is not None:
                    out.append((u, C(-1)))
    return out


def invalid(e, s, name, a):
    t = e.store(s.copy(), Ptr(errno_obj(e)), C(22), 4)
    t.note(e.where(t), '%s rejects its argument' % name)
    t = e.on_sys(t, name, a, C(-1), False, C(22))
    return [(t, C(-1))] if t is not None else []


def m_sleep_ts(e, s, name, a, req, remp):
    out = []
    for s1, p in e.deref_ptr(s, req):
        for s2, sec in e.load(s1, p, 8, 'i64'):
            for s3, ns in e.load(s2, Ptr(p.obj, p.off + 8), 8, 'i64'):
                if not isinstance(sec, Lin) or not isinstance(ns, Lin):
                    s3 = s3.copy()
                    s3.imprecise(name)
                    out.append((s3, C(0)))
                    continue
                for bad in (s3.assume_ge(-sec - 1), s3.assume_ge(-ns - 1), s3.assume_ge(ns - 10 ** 9)):
                    if bad is not None:
                        out += invalid(e, bad, name, a)
                t = s3.assume_ge(sec)
                t = t and t.assume_ge(ns)
                t = t and t.assume_ge(-ns + (10 ** 9 - 1))
                if t is None:
                    continue

                def rem(u, sc, nn):
                    if isinstance(remp, Lin):
                        return [u]
                    r = []
                    for v, q in e.deref_ptr(u, remp):
                        v = e.store(v, q, sc, 8)
                        r.append(e.store(v, Ptr(q.obj, q.off + 8), nn, 8))
                    return r
                out += slept(e, t, name, a, sec.scale(10 ** 9) + ns, rem)
    return out


@model(r'nanosleep$')
def m_nanosleep(e, s, a, i, fn):
    return m_sleep_ts(e, s, 'nanosleep', a, a[0], a[1])


@model(r'clock_nanosleep$')
def m_cnanosleep(e, s, a, i, fn):
    out = []
    for t, r in m_sleep_ts(e, s, 'clock_nanosleep', a, a[2], a[3]):
        if not s.eq(s.norm(a[1])):
            t = t.copy()
            t.imprecise('clock_nanosleep until a point in time')
        if r == C(-1):                      # the error number is the result
            for u, n in e.load(t, Ptr(errno_obj(e)), 4, 'i32'):
                out.append((u, n))
        else:
            out.append((t, r))
    return out


@model(r'usleep$')
def m_usleep(e, s, a, i, fn):
    return slept(e, s, 'usleep', a, s.norm(a[0]).scale(1000), lambda u, sc, nn: [u])
