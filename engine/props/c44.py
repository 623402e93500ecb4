"""Type-level witnesses: programs that must not compile, and type traits that must hold, decided by the compiler's type checker on the current headers."""
import json, os, re, subprocess, sys, tempfile, time, shutil
import frontend

TECH = 'compile-fail witnesses and type traits decided by the type checker on the current headers'
NOTE = 'Each obligation is a one-line program that must be rejected because a special member function is deleted or inaccessible, or a trait that must hold; the type checker decides it for every program that uses the type.'

HEADERS = ['lsmdb/cache.h', 'lsmdb/env.h', 'lsmdb/slice.h', 'lsmdb/status.h', 'db/skiplist.h', 'util/arena.h', 'util/mutexlock.h', 'port/port.h', 'helpers/memenv/memenv.h']
# type -> (where it is declared, deleted through a pointer to it)
TYPES = [('lsmdb::Cache', 'include/lsmdb/cache.h', True), ('lsmdb::Env', 'include/lsmdb/env.h', True), ('lsmdb::EnvWapper', 'include/lsmdb/env.h', True),
         ('lsmdb::SequentialFile', 'include/lsmdb/env.h', True), ('lsmdb::RandomAccessFile', 'include/lsmdb/env.h', True),
         ('lsmdb::WritableFile', 'include/lsmdb/env.h', True), ('lsmdb::Logger', 'include/lsmdb/env.h', True), ('lsmdb::FileLock', 'include/lsmdb/env.h', True),
         ('lsmdb::Arena', 'util/arena.h', False), ('lsmdb::MutexLock', 'util/mutexlock.h', False), ('lsmdb::port::Mutex', 'port/port_stdcxx.h', False),
         ('lsmdb::port::CondVar', 'port/port_stdcxx.h', False), ('lsmdb::SkipList<int, Cmp>', 'db/skiplist.h', False)]
VALUES = [('lsmdb::Status', 'include/lsmdb/status.h'), ('lsmdb::Slice', 'include/lsmdb/slice.h')]
DENIED = re.compile(r'deleted|is a private member|is a protected member|private copy|inaccessible|no viable overloaded')
explain = ('For each class that owns a resource (environment, file, lock, logger, cache, arena, skip list, mutex, condition variable, scoped lock): a program that copies an object into a new one and one that assigns it '
           'must be rejected by the type checker for want of an accessible special member; interfaces whose objects users delete must have virtual destructors; the value types (Status, Slice) must be copyable '
           'and assignable.')


def run(pid, tier):
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='lsmdbt.')
    try:
        units = frontend.compile_db(tmp)
        flags, cwd = next(iter(units.values()))
        flags = list(flags) + ['-I', frontend.REPO, '-I', os.path.join(frontend.REPO, 'include')]
        head = ''.join('#include "%s"\n' % h for h in HEADERS if h != 'port/port.h' or os.path.exists(os.path.join(frontend.REPO, h)))
        head += '#include <type_traits>\n#include <utility>\nstruct Cmp { int operator()(int, int) const; };\n'
        probes = []                     # (type, where, rule, text, must be rejected)
        for k, (t, w, dele) in enumerate(TYPES):
            probes.append((t, w, 'exists', 'static_assert(sizeof(%s) > 0, "");' % t, False))
            probes.append((t, w, 'can be copied', 'struct C%d : %s { C%d(const C%d &o) : %s(o) {} };' % (k, t, k, k, t), True))
            probes.append((t, w, 'can be assigned', 'void a%d(%s &x, const %s &y) { x = y; }' % (k, t, t), True))
            if dele:
                probes.append((t, w, 'has no virtual destructor', 'static_assert(std::has_virtual_destructor<%s>::value, "");' % t, False))
        for t, w in VALUES:
            probes.append((t, w, 'cannot be copied and assigned', 'static_assert(std::is_copy_constructible<%s>::value && std::is_copy_assignable<%s>::value, "");' % (t, t), False))
        src = os.path.join(tmp, 'probe.cc')
        base = head.count('\n')
        open(src, 'w').write(head + ''.join(p[3] + '\n' for p in probes))
        open(os.path.join(tmp, 'head.cc'), 'w').write(head)
        rc, o = frontend.sh(['clang++'] + flags + ['-w', '-fsyntax-only', os.path.join(tmp, 'head.cc')], cwd=cwd)
        if rc:
            print('ERROR: the headers do not compile:\n' + o[-2000:])
            return 2
        rc, o = frontend.sh(['clang++'] + flags + ['-w', '-fsyntax-only', '-ferror-limit=0', '-fno-caret-diagnostics', '-ftemplate-backtrace-limit=0', src], cwd=cwd)
        errs = {}
        for m in re.finditer(r'probe\.cc:(\d+):\d+: error: (.*)', o):
            errs.setdefault(int(m.group(1)) - base - 1, []).append(m.group(2))
        bad, lost, undet = [], [], []
        for k, (t, w, rule, text, reject) in enumerate(probes):
            e = errs.get(k)
            if rule == 'exists':
                if e:
                    lost.append(t)
            elif t in lost:
                continue
            elif not reject:
                if e and any('static assertion failed' in x or 'static_assert' in x for x in e):
                    bad.append((t, w, rule, text, e))
                elif e:
                    undet.append((t, rule, e))
            elif not e:
                bad.append((t, w, rule, text, ['accepted by the compiler']))
            elif any("marked 'final'" in x for x in e):
                undet.append((t, rule, e))
            elif not any(DENIED.search(x) for x in e):
                undet.append((t, rule, e))
        ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
              'coverage': {'explanation': explain, 'types': [t for t, _, _ in TYPES] + [t for t, _ in VALUES], 'obligations': len(probes), 'discharged': len(probes) - len(bad) - len(undet),
                           'rejected_programs': sum(1 for k, p in enumerate(probes) if p[4] and k in errs),
                           'samples': [{'program': p[3], 'rule': p[2], 'diagnostic': errs.get(k, ['accepted'])[0]} for k, p in enumerate(probes)][:12],
                           'undetermined': [str(x) for x in undet]},
              'assumptions': ['clang 18 type checking with the project\'s own flags'], 'violations': len(bad), 'wall_s': round(time.time() - t0, 2)}
        os.makedirs(os.path.join(frontend.VERIF, 'evidence', 'replay'), exist_ok=True)
        json.dump(ev, open(os.path.join(frontend.VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
        print('%s: %d types, %d obligations, %d undetermined, %.1fs' % (pid, len(TYPES) + len(VALUES), len(probes), len(undet), time.time() - t0))
        if bad:
            rp = os.path.join(frontend.VERIF, 'evidence', 'replay', pid + '.txt')
            with open(rp, 'w') as f:
                for t, w, rule, text, e in bad:
                    f.write('%s: %s %s\n  %s\n  %s\n' % (w, t, rule, text, '; '.join(e)))
            for t, w, rule, text, e in bad[:6]:
                print('  %s: %s %s' % (w, t, rule))
            print('VIOLATION property=%s replay=%s' % (pid, rp))
            return 1
        if lost:
            print('ERROR: types vanished: ' + ', '.join(lost))
            return 2
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
