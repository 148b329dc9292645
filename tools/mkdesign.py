#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design.tmpl.md, the property modules and the last evidence."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, 'tools'))
from design_props import D


def names(fs):
    # the grammar is compiled three times (three modules include it); its actions are listed once
    acts = sorted({int(f.split('__action')[1]) for f in fs if 'grammar::__action' in f})
    out = ['`%s`' % f.replace('rsh::', '') for f in fs if 'grammar::__action' not in f]
    if acts:
        out.append('the actions %s of the grammar in each of the modules it is compiled into' % ', '.join(map(str, acts)))
    return ', '.join(out)


out = []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    m = importlib.import_module('props.' + p['id'])
    s = ['### %s %s\n' % (p['id'], p['title'])]
    s.append(D[p['id']].strip().replace('\n', ' ') + '\n')
    doc = lambda f: ' '.join((f.__doc__ or '').split())
    s.append('Proof groups: %s.\n' % '; '.join('*%s*%s' % (n, ' (%s)' % doc(f) if doc(f) else '') for n, f in m.PROOFS))
    if getattr(m, 'ASSUMES', None):
        s.append('Assumed: %s.\n' % '; '.join(m.ASSUMES))
    try:
        c = json.load(open(os.path.join(V, 'evidence', p['id'] + '.json')))['coverage']
        s.append('Under contract (last run): %s. Executed inline with them: %s. Obligations: %d, discharged: %d.\n' % (
            names(c['functions_under_contract']) or 'none',
            ', '.join('`%s`' % f.replace('rsh::', '') for f in c['functions_executed_inline'] if f not in c['functions_under_contract'])[:600] or 'none', c['obligations'], c['discharged']))
    except (OSError, KeyError):
        pass
    s.append('Bounded part: ' + getattr(m, 'RULE', '').strip() + '\n')
    out.append('\n'.join(s))
seeds = ['| planted bug | property | what it needs | caught by |', '|---|---|---|---|']
res = {}
try:
    res = json.load(open(os.path.join(V, 'tools', 'seed_results.json')))
except OSError:
    pass
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    seeds.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', 'pipe').replace('\n', ' '), res.get(i, '(not run)').replace('|', '/')))
t = open(os.path.join(V, 'tools', 'design.tmpl.md')).read()
t = t.replace('@@NFIX@@', str(sum(l.startswith('fixed:') for l in open(os.path.join(V, 'known_findings.txt')))))
open(os.path.join(V, 'DESIGN.md'), 'w').write(t.replace('@@PROPS@@', '\n'.join(out)).replace('@@SEEDS@@', '\n'.join(seeds)))
