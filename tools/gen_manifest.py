#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the property modules that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 'C41': 'a statistical statement about access histories and the hash distribution; no static argument bounds the partitioning error',
 'C42': 'distribution quality of hash values and random heights over realistic inputs is an empirical, runtime quantity',
}
TECH = 'abstract interpretation of the clang IR of all sources against a most-general client (affine + symbolic memory domain, widening; %s)'
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    f = os.path.join(V, 'engine/props/%s.py' % i.lower())
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif os.path.exists(f):
        ns = {}
        src = open(f).read()
        tech = note = None
        for line in src.splitlines():
            if line.startswith('TECH = '):
                tech = eval(line[7:])
            if line.startswith('NOTE = '):
                note = eval(line[7:])
        checks.append({'property': i, 'quick_cmd': 'python3 engine/check.py %s' % i, 'thorough_cmd': 'VERIF_TIER=thorough python3 engine/check.py %s --thorough' % i,
            'evidence_file': 'evidence/%s.json' % i, 'technique': tech if (tech or '').startswith('compile-fail') else TECH % (tech or 'contract obligations at the client'), 'level': 'other',
            'level_note': note or 'Sound over-approximation of every path of the client when pass A is quiet (recorded per client in the evidence); an alarm of pass A is reported only after a pass without joins or widening reproduces it on a path on which nothing was approximated. Trusted: clang front end, mem2reg, the models of libc/libstdc++ externals.'})
    else:
        na.append({'property': i, 'reason': 'no check built yet: the static rule is designed in DESIGN.md but its machinery is not finished, so nothing is claimed'})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
