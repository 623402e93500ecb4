"""Compile /repo's current sources (with the project's own flags, taken from a fresh CMake
configuration) plus the analysis clients of /verif/witness to LLVM bitcode, bring them to SSA form and
load the resolved program."""
import json
import os
import shlex
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('LSMDB_REPO', '/repo')


class FrontendError(Exception):
    pass


def sh(cmd, cwd=None, timeout=600):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode('utf8', 'replace')


def compile_db(tmp):
    env = dict(os.environ)
    b = os.path.join(tmp, 'cmake')
    gen = ['-G', 'Ninja'] if shutil.which('ninja') else []
    rc, out = sh(['cmake', '-S', REPO, '-B', b, '-DCMAKE_BUILD_TYPE=Debug', '-DLSMDB_BUILD_TESTS=OFF',
                  '-DCMAKE_C_COMPILER=gcc', '-DCMAKE_CXX_COMPILER=g++', '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON'] + gen)
    p = os.path.join(b, 'compile_commands.json')
    if rc or not os.path.exists(p):
        raise FrontendError('cmake configuration failed:\n' + out[-2000:])
    db = json.load(open(p))
    units = {}
    for e in db:
        f = os.path.realpath(os.path.join(e['directory'], e['file']))
        if not f.startswith(os.path.realpath(REPO) + '/') or not f.endswith(('.cc', '.cpp', '.cxx')):
            continue
        if f in units:
            continue
        a = shlex.split(e['command']) if 'command' in e else e['arguments']
        flags = []
        i = 1
        while i < len(a):
            x = a[i]
            if x in ('-I', '-D', '-isystem', '-U', '-include'):
                flags += [x, a[i + 1]]
                i += 2
                continue
            if x.startswith(('-I', '-D', '-U', '-std', '-isystem')) or x in ('-fno-exceptions', '-fno-rtti', '-pthread'):
                flags.append(x)
            i += 1
        units[f] = (flags, e['directory'])
    if not units:
        raise FrontendError('no translation units in the compilation database')
    return units


def build(witness=(), ndebug=False, keep=None, want=None, extra=(), defs=()):
    """returns the program dict.  witness: file names in /verif/witness"""
    tmp = tempfile.mkdtemp(prefix='lsmdbv.')
    try:
        units = compile_db(tmp)
        base_flags = next(iter(units.values()))[0]
        jobs = []
        for n, (f, (flags, d)) in enumerate(sorted(units.items())):
            rel = os.path.relpath(f, os.path.realpath(REPO))
            if want and rel not in want:
                continue
            jobs.append((f, flags, d, os.path.join(tmp, 'u%d.bc' % n)))
        for w in witness:
            # test-only switches of the project do not apply to clients
            fl = [x for x in base_flags if x != '-DLSMDB_COMPILE_LIBRARY']
            jobs.append((os.path.join(VERIF, 'witness', w), fl + ['-DLSMDB_COMPILE_LIBRARY'] + list(extra), tmp, os.path.join(tmp, w + '.bc')))

        def one(j):
            src, flags, d, out = j
            cmd = ['clang++'] + flags + list(defs) + (['-DNDEBUG'] if ndebug else []) + \
                ['-g', '-fstandalone-debug', '-O1', '-Xclang', '-disable-llvm-passes', '-U__OPTIMIZE__', '-fno-threadsafe-statics' if False else '-w',
                 '-U_FORTIFY_SOURCE', '-emit-llvm', '-c', src, '-o', out]
            rc, o = sh(cmd, cwd=d)
            return src, rc, o, out
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(one, jobs))
        for src, rc, o, out in rs:
            if rc:
                raise FrontendError('%s does not compile:\n%s' % (src, o[-3000:]))
        js = os.path.join(tmp, 'prog.json')
        with open(js, 'w') as fo:
            r = subprocess.run([os.path.join(VERIF, 'build', 'irdump')] + [x[3] for x in rs], stdout=fo, stderr=subprocess.PIPE, timeout=600)
        if r.returncode:
            raise FrontendError('irdump: ' + r.stderr.decode()[-2000:])
        if keep:
            shutil.copy(js, keep)
        d = json.load(open(js))
        d['units'] = sorted(os.path.relpath(j[0], os.path.realpath(REPO)) for j in jobs)
        return d
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    d = build(sys.argv[2:], keep=sys.argv[1])
    print(len(d['functions']), 'functions', d['units'])
