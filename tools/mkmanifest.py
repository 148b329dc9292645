#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per module in /verif/props."""
import json, os, subprocess, importlib, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'props', i + '.py')) and i not in NA:
        m = importlib.import_module('props.' + i)
        checks.append(dict(property=i, quick_cmd='./check.sh %s quick' % i, thorough_cmd='./check.sh %s thorough' % i, evidence_file='evidence/%s.json' % i,
                           technique=getattr(m, 'TECHNIQUE', 'contracts verified deductively on the MIR of the real functions (z3), plus a bounded end-to-end replay on the real binary'),
                           level='proof', level_note=getattr(m, 'LEVEL_NOTE', 'contracts discharged for all inputs; assumed: contracts of std/nix listed in the evidence; the end-to-end part is bounded')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check yet')))
json.dump(dict(version=1, setup_cmd='./setup.sh', hooks=dict(guard='none', enable='no hooks: the verifier reads the MIR of the unmodified crate and the end-to-end suite runs the unmodified binary', source_commits=[]),
               checks=checks, not_applicable=na, notes='See DESIGN.md. Known findings and repairs: known_findings.txt.'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
