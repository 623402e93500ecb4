"""Termination: the clients of the other properties are interpreted with the exact transfer functions and every round of
every loop of the project is compared with the state it started from."""
import os
import time
import json
import check
import frontend
from ai import Program
from spec import Spec
from posixspec import PosixSpec

ndebug_quick = False       # left to the thorough tier
TECH = 'recurrence analysis of loops: exact states at loop heads, modulo values the loop does not depend on, on every path of the clients'
NOTE = 'a loop that goes round without changing anything it depends on, with no system call, other thread or choice in between, never ends; loops whose state keeps changing are covered up to the unrolling bound'
explain = ('Every client below exercises its part of the library with arbitrary arguments and outcomes of system calls. Along each path the state at the head of each loop of the project '
           '(registers the loop depends on, memory, facts) is compared with the state one round later. Rule: no loop comes back to the state it was in unless something that may turn out differently the '
           'next time (a system call, a weak exchange, a choice) lies in between.')
assumptions = ['system calls that were interrupted are eventually not interrupted', 'waiting for another thread or the operating system is not decided here']
MODULES = [('c01', None), ('c07', ('c07_history',)), ('c09', ('c09_many',)), ('c12', ('k_grow', 'k_keys', 'k_copy')), ('c13', None), ('c15', None), ('c16', None), ('c17', None), ('c18', None), ('c19', None), ('c20', None),
           ('c22', None), ('c24', None), ('c25', ('m_names',)), ('c27', None), ('c28', None), ('c10', ('k_life',)), ('c11', ('k_charge', 'k_scale', 'k_edges')), ('c46', ('n_entries',))]


class T(Spec):
    force_unroll = 8
    unroll_states = 4000
    split_div = 4
    check_mem = False


class P(PosixSpec):
    """the default environment, with nothing counted"""
    max_paths = 1 << 20
    check_mem = False
    coarse = True

    def on_sys(self, st, name, args, r, ok, err):
        return st


class Posix:
    __name__ = 'c45'
    witness = ['w_term2.cc']
    clients = [(c, P) for c in ('t_sequential', 't_random', 't_writable', 'p_names', 'p_children', 'p_lock', 'p_sync_manifest')]


class Own:
    __name__ = 'c45'
    witness = ['w_term.cc']
    clients = [('t_file', T, {})]


RULE = 'never returns'
witness = []


def one(prog, entry, secs):
    client, cls = entry[0], entry[1]
    opts = dict(entry[2]) if len(entry) > 2 else {}
    for k in ('expect', 'thorough', 'budget'):
        opts.pop(k, None)
    K = opts.pop('K', None)
    opts.update(only_rule=RULE, stop_first=True)
    t0 = time.time()
    best, viol = None, []
    rounds = steps = 0
    deep = max(K or 0, cls.K, 6)
    ks = [deep] if cls.histories else [k for k in (2, 4, 8) if k < deep] + [deep]
    for k in ks:
        left = secs - (time.time() - t0)
        if best is not None and left < 2:
            break
        e = check.run(cls, prog, client, True, k, 1500000, left, opts)
        rounds += e.loop_rounds
        steps += e.steps
        viol = [v for v in check.dedupe(e.viol) if v.rule == RULE and not v.imp]
        if best is None or not e.why:
            best = e
        if viol or e.why or (not e.truncated):
            break
    return {'client': client, 'bound': best.K, 'paths_ended': len(best.outs), 'rounds_cut_off': best.truncated, 'gave_up': best.why, 'rounds_compared': rounds, 'steps': steps,
            'loops': sorted(best.loops_met), 'functions': sorted(str(x) for x in best.stats['functions']), 'wall_s': round(time.time() - t0, 2),
            'viol': [check.strviol(client, 'as built', v) for v in viol]}


def run(pid, tier):
    t0 = time.time()
    mods = [(__import__(m), w) for m, w in MODULES] + [(Own, None), (Posix, None)]
    kinds = sorted(set(tuple(m.witness) if isinstance(m.witness, (list, tuple)) else (m.witness,) for m, w in mods))
    secs = 30 if tier == 'quick' else 110

    def group(k):
        def go():
            out = []
            prog = None
            for m, want in mods:
                if (tuple(m.witness) if isinstance(m.witness, (list, tuple)) else (m.witness,)) != k:
                    continue
                if prog is None:
                    prog = Program(frontend.build(m.witness))
                    names = {n: f.dem for n, f in prog.funcs.items()}
                if hasattr(m, 'prepare'):
                    m.prepare(prog)
                ents = [e for e in m.clients if want is None or e[0] in want]
                for e in ents:
                    if e[0] not in prog.funcs:
                        raise frontend.FrontendError('client %s vanished' % e[0])
                out += [(m.__name__, r) for r in check.parallel([lambda e=e: one(prog, e, secs) for e in ents], 3)]
            for m, r in out:
                if 'error' not in r:
                    r['functions'] = sorted(n for n in (names.get(x, x) for x in r['functions']) if 'lsmdb' in n)
            return out
        return go
    res, err = [], []
    for r in check.parallel([group(k) for k in kinds], 4):
        if isinstance(r, dict):
            err.append(r['error'])
        else:
            for m, x in r:
                (err.append(x['error']) if 'error' in x else res.append((m, x)))
    if err:
        print(err[0][-1500:])
        print('ERROR: analysis failed')
        return 2
    bad, seen = [], set()
    for m, x in res:
        for v in x['viol']:
            if v['loc'] not in seen:
                seen.add(v['loc'])
                bad.append(v)
    fns = sorted(set(f for m, x in res for f in x['functions']))
    loops = sorted(set(l for m, x in res for l in x['loops']))
    rounds = sum(x['rounds_compared'] for m, x in res)
    cut = [x['client'] for m, x in res if x['rounds_cut_off'] or x['gave_up']]
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': {'explanation': explain, 'obligations': rounds, 'discharged': rounds - len(bad), 'loops_of_the_project': loops, 'functions_of_the_project_interpreted': len(fns), 'functions': [f[:140] for f in fns][:120],
                       'clients': [dict({k: v for k, v in x.items() if k not in ('functions', 'loops', 'viol')}, of=m) for m, x in res],
                       'every_path_ended': sorted(x['client'] for m, x in res if not x['rounds_cut_off'] and not x['gave_up']),
                       'samples': [{'client': x['client'], 'loops': x['loops'], 'rounds_compared': x['rounds_compared']} for m, x in res][:12]},
          'assumptions': assumptions, 'violations': len(bad), 'wall_s': round(time.time() - t0, 2)}
    os.makedirs(os.path.join(frontend.VERIF, 'evidence', 'replay'), exist_ok=True)
    json.dump(ev, open(os.path.join(frontend.VERIF, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    print('%s: %d clients (every path ends in %d), %d project functions, %d loops, %d rounds compared, %.1fs' % (pid, len(res), len(res) - len(cut), len(fns), len(loops), rounds, time.time() - t0))
    if bad:
        rp = os.path.join(frontend.VERIF, 'evidence', 'replay', pid + '.txt')
        with open(rp, 'w') as f:
            for v in bad:
                f.write('property %s, client %s\n%s: %s: %s\n  in %s\n  path:\n' % (pid, v['client'], v['loc'], v['rule'], v['msg'], v['func']))
                for x in v['trace']:
                    f.write('    %s: %s\n' % x)
                f.write('  facts on the path: %s\n\n' % '; '.join(v['facts']))
        for v in bad[:5]:
            print('  %s: %s: %s (client %s)' % (v['loc'], v['rule'], v['msg'], v['client']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if not rounds or not loops:
        print('ERROR: nothing to check (no loop reached)')
        return 2
    return 0
