"""Decide one property:  python3 engine/check.py C18

Pass A  abstract interpretation of the property's clients with widening (all inputs, all histories).
        No alarm and nothing given up: the property holds.
Pass B  only when A alarms or exceeds its budget: the same transfer functions without joins or
        widening, loops unrolled a bounded number of times.  An alarm is a VIOLATION only if B finds it
        too, on a path on which nothing was approximated; otherwise it is recorded as undetermined."""
import json
import os
import re
import sys
import time
import pickle
import select
import traceback
import resource

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'props'))
import frontend
import ai
from ai import Program, Budget, Found

KNOWN = os.path.join(VERIF, 'known_findings.txt')


def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            m = re.match(r'finding: property=(\S+) at=(\S+) rule=(.*)$', l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def vkey(v):
    """identity of a violation across the two passes: the rule and the obligation, not the path"""
    return (v.rule, re.sub(r'\(.*|: .*', '', v.msg))


def dedupe(vs):
    seen, out = set(), []
    for v in vs:
        k = (v.rule, v.msg, v.loc)
        if k not in seen:
            seen.add(k)
            out.append(v)
    return out


def run(cls, prog, client, bounded, K, steps, secs, opts):
    e = cls(prog)
    e.prop_client = client
    e.bounded = bounded
    e.stop_first = bounded
    if K:
        e.K = K
    for k, v in opts.items():
        setattr(e, k, v)
    e.max_steps = steps
    e.deadline = time.time() + secs
    t = time.time()
    why = None
    try:
        e.outs = e.run_client(client)
    except Found:
        e.outs = []
    except Budget as x:
        why = 'budget: %s' % x
        e.outs = []
    except RecursionError:
        why = 'budget: recursion'
        e.outs = []
    e.wall = time.time() - t
    e.why = why
    return e


def strviol(client, cname, v):
    return {'client': client, 'config': cname, 'rule': v.rule, 'msg': v.msg, 'loc': v.loc, 'func': v.func, 'imp': [str(x) for x in v.imp],
            'trace': [(str(x[0]), str(x[1])) for x in v.trace], 'facts': [str(x) for x in v.facts]}


def task(prog, entry, cname, nd, tier, deadline):
    """both passes over one client; returns a plain record"""
    client, cls = entry[0], entry[1]
    opts = dict(entry[2]) if len(entry) > 2 else {}
    opts.pop('expect', ())
    deeper = opts.pop('thorough', {})
    if tier == 'thorough':
        opts.update(deeper)
    big = opts.pop('budget', 1)
    K = opts.pop('K', None)
    if nd:
        opts.setdefault('assert_is_violation', False)
    left = lambda: max(5, deadline - time.time())
    out = {'confirmed': [], 'undetermined': []}
    if cls.histories:
        # every distinct state of the client's loop, without abstraction; complete if it comes to an end
        x = run(cls, prog, client, True, K, 1500000 * big, left() * 0.6, opts)
        vx = dedupe(x.viol)
        sure = [v for v in vx if not v.imp]
        if sure or not (vx or x.why or x.truncated):
            rec = {'client': client, 'config': cname, 'exact_pass': {'steps': x.steps, 'exits': len(x.outs), 'alarms': len(vx), 'wall_s': round(x.wall, 2), 'gave_up': x.why}}
            rec['decided'] = 'violated' if sure else 'holds for all histories of the client (every distinct state visited)'
            out['confirmed'] = [strviol(client, cname, v) for v in sure[:20]]
            out['alarmed'] = bool(sure)
            return finish(out, rec, x, x)
    a = run(cls, prog, client, False, None, 400000 * big, min(left() * 0.45, (100 if tier == 'quick' else 300) * big), opts)
    va = dedupe(a.viol)
    rec = {'client': client, 'config': cname, 'pass_A': {'steps': a.steps, 'exits': len(a.outs), 'alarms': len(va), 'wall_s': round(a.wall, 2), 'gave_up': a.why},
           'checks_reached': dict(a.checks)}
    eng = a
    if cls.histories:
        for k, n in x.checks.items():
            a.checks.setdefault(k, n)
        rec['exact_pass'] = {'steps': x.steps, 'wall_s': round(x.wall, 2), 'gave_up': x.why or 'not exact', 'alarms': len(vx)}
    out['alarmed'] = bool(va)
    if va or a.why:
        for v in va:
            v.imp = list(v.imp)
        # iterative deepening: shallow unrollings of everything before deep ones of anything
        b = None
        secs = min(left() * 0.9, 150 if tier == 'quick' else 500)
        tb = time.time()
        deep = max(cls.K + 2, K or 0) if tier == 'thorough' else K or cls.K
        ks = [k for k in range(1, deep) if k <= 24 or k in (48, 96)] + [deep]
        for k in ks:
            rest = secs - (time.time() - tb)
            if b is not None and rest < 5:
                break
            x = run(cls, prog, client, True, k, 1500000 * (4 if tier == 'thorough' else 1), rest * (0.5 if k < deep else 1), opts)
            if b is None or not x.why or x.viol:
                b = x
            vb = [v for v in dedupe(x.viol) if not v.imp]
            if vb or x.why:
                break
        rec['pass_B'] = {'steps': b.steps, 'alarms': len(vb), 'truncated': b.truncated, 'wall_s': round(b.wall, 2), 'gave_up': b.why, 'bound': b.K}
        out['confirmed'] = [strviol(client, cname, v) for v in vb[:20]]
        for v in va:
            if not vb:
                out['undetermined'].append({'client': client, 'rule': v.rule, 'what': v.msg, 'at': v.loc, 'approximations': [str(x) for x in v.imp]})
        if a.why:
            eng = b
            out['undetermined'].append({'client': client, 'rule': 'analysis', 'what': a.why})
        rec['decided'] = 'violated' if vb else 'bounded (no alarm on %d unrollings)' % b.K
        for k, n in b.checks.items():
            a.checks.setdefault(k, n)
    else:
        rec['decided'] = 'holds for all inputs and histories of the client'
    return finish(out, rec, eng, a)


def finish(out, rec, eng, a):
    rec.setdefault('checks_reached', dict(a.checks))
    imprec = [o for o in eng.outs if o[0].imp]
    if imprec:
        rec['approximated_exits'] = len(imprec)
        rec['approximations'] = sorted(set(str(w) for o in imprec for w in o[0].imp))[:8]
    out['rec'] = rec
    out['unmod'] = sorted(map(str, eng.unmodelled))
    out['functions'] = sorted(str(x) for x in eng.stats['functions'])
    out['sites'] = sorted(set(str(x) for x in eng.stats['sites']))
    out['obligations'] = eng.stats['obligations']
    out['steps'] = eng.steps
    out['loops'] = eng.stats['loops']
    out['states'] = eng.stats['states'] + len(eng.outs)
    out['checks'] = dict(a.checks)
    return out


def parallel(jobs, workers):
    """run thunks in forked children; results in order"""
    res = [None] * len(jobs)
    todo = list(range(len(jobs)))
    live = {}
    while todo or live:
        while todo and len(live) < workers:
            k = todo.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    data = pickle.dumps(jobs[k]())
                except BaseException:
                    data = pickle.dumps({'error': traceback.format_exc()})
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
                os._exit(0)
            os.close(w)
            live[r] = (k, pid, [])
        rd, _, _ = select.select(list(live), [], [])
        for fd in rd:
            d = os.read(fd, 1 << 20)
            k, pid, buf = live[fd]
            if d:
                buf.append(d)
                continue
            os.close(fd)
            os.waitpid(pid, 0)
            del live[fd]
            try:
                res[k] = pickle.loads(b''.join(buf))
            except Exception:
                res[k] = {'error': 'worker died'}
    return res


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    deadline = t0 + (520 if tier == 'quick' else 800)
    mod = __import__(pid.lower())
    if hasattr(mod, 'run'):
        return mod.run(pid, tier)
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other'}
    configs = [('as built (assertions on)', False, ())]
    for cname, flags in getattr(mod, 'configurations', ()):
        configs.append((cname, False, tuple(flags)))
    if getattr(mod, 'ndebug', True) and (tier == 'thorough' or getattr(mod, 'ndebug_quick', True)):
        configs.append(('NDEBUG', True, ()))
    confirmed, undetermined, clients, functions, sites = [], [], [], set(), set()
    obligations = steps = loops = states = 0
    labels = {}
    missing = []
    unmod = set()
    jobs, meta = [], []
    names = {}
    for cname, nd, defs in configs:
        prog = Program(frontend.build(mod.witness, ndebug=nd, extra=getattr(mod, 'extra_flags', ()), defs=defs))
        if hasattr(mod, 'prepare'):
            mod.prepare(prog)
        for n, f in prog.funcs.items():
            names[n] = f.dem
        for entry in mod.clients:
            if entry[0] not in prog.funcs:
                print('ERROR: client %s vanished' % entry[0])
                return 2
            jobs.append(lambda prog=prog, entry=entry, cname=cname, nd=nd: task(prog, entry, cname, nd, tier, deadline))
            meta.append((entry, cname, nd))
    for (entry, cname, nd), r in zip(meta, parallel(jobs, min(8, os.cpu_count() or 2))):
        if 'error' in r:
            print(r['error'])
            print('ERROR: analysis of %s failed' % entry[0])
            return 2
        confirmed += r['confirmed']
        undetermined += r['undetermined']
        clients.append(r['rec'])
        unmod |= set(r['unmod'])
        functions |= set(r['functions'])
        sites |= set(r['sites'])
        obligations += r['obligations']
        steps += r['steps']
        loops += r['loops']
        states += r['states']
        for k, n in r['checks'].items():
            labels[k] = labels.get(k, 0) + n
        if not r['alarmed']:
            for x in (entry[2] if len(entry) > 2 else {}).get('expect', ()):
                if not r['checks'].get(x):
                    missing.append('%s: %s' % (entry[0], x))
    repo_fns = sorted(set(names.get(n, n) for n in functions if 'lsmdb' in n or 'lsmdb' in names.get(n, '')))
    known = known_findings(pid)
    bad, listed = [], []
    for v in confirmed:
        for at, rule in known:
            if at == v['func'] and v['msg'].startswith(rule):
                listed.append((at, rule))
                break
        else:
            bad.append(v)
    obs = sorted(labels.items())
    ev['coverage'] = {
        'explanation': mod.explain,
        'clients': clients,
        'functions_of_the_project_interpreted': len(repo_fns),
        'functions': [f[:140] for f in repo_fns][:80],
        'functions_interpreted_in_total': len(functions),
        'obligations': obligations,
        'discharged': obligations - len(set((v['rule'], v['msg'], v['loc']) for v in confirmed)),
        'contract_obligations': dict(obs),
        'instructions_interpreted': steps,
        'loops_solved': loops,
        'exits': states,
        'source_sites': len(sites),
        'undetermined': undetermined[:40],
        'unmodelled_externals': sorted(unmod)[:20],
        'samples': [{'client': c['client'], 'decided': c['decided'], 'checks': c['checks_reached']} for c in clients][:6],
    }
    ev['assumptions'] = list(getattr(mod, 'assumptions', [])) + [
        'clang 18 front end and mem2reg/SROA preserve the meaning of the source',
        'models of libc/libstdc++ externals (engine/models.py, engine/sysmodel.py) match their documentation']
    ev['violations'] = len(bad)
    ev['wall_s'] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for at, rule in sorted(set(listed)):
        print('KNOWN-FINDING: property=%s %s in %s' % (pid, rule, at))
    print('%s: %d clients, %d project functions, %d obligations, %d undetermined, %.1fs' % (pid, len(clients), len(repo_fns), obligations, len(undetermined), time.time() - t0))
    if bad:
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        rp = os.path.join(VERIF, 'evidence', 'replay', pid + '.txt')
        with open(rp, 'w') as f:
            for v in bad:
                f.write('property %s, client %s, %s\n%s: %s: %s\n' % (pid, v['client'], v['config'], v['loc'], v['rule'], v['msg']))
                f.write('  in %s\n  path:\n' % v['func'])
                for x in v['trace']:
                    f.write('    %s: %s\n' % x)
                f.write('  facts on the path: %s\n\n' % '; '.join(v['facts']))
        for v in bad[:5]:
            print('  %s: %s: %s (in %s, client %s)' % (v['loc'], v['rule'], v['msg'], v['func'], v['client']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if missing and not confirmed:
        print('ERROR: nothing to check (vanished): ' + '; '.join(missing))
        return 2
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except frontend.FrontendError as x:
        print('ERROR: %s' % x)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
