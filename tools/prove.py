"""prove.py PID [substring]: run the proof groups of a property without the end-to-end part"""
import sys, time, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import importlib
from mirv import check
mod = importlib.import_module('props.' + sys.argv[1])
sub = sys.argv[2] if len(sys.argv) > 2 else ''
mod.PROOFS = [p for p in mod.PROOFS if sub in p[0]]
t = time.time()
gs, err = check.run_proofs(mod, sys.argv[1], 'quick', float(os.environ.get('LIMIT', '200')))
if err:
    print('ERR', err)
for g in gs:
    ob = g['obs']
    print('%-60s %d obs, %d proved, %.1fs (solver %.1fs, %s queries)%s' % (g['group'], len(ob), sum(o['status'] == 'proved' for o in ob), g.get('wall', 0), g.get('solver_s') or 0, g.get('queries'), '  ERR ' + g['error'] if g['error'] else ''))
    for o in ob:
        if o['status'] != 'proved':
            print('   ', o['status'], o['name'], str(o.get('model', ''))[:int(os.environ.get('W', '700'))])
    if os.environ.get('V'):
        for o in ob:
            print('   ', o['status'], o['t'], o['name'])
        for l in g.get('loops', []):
            print('    loop', l)
    print('    contracts', g.get('contracts'), 'inlined', len(g.get('inlined', [])))
print('%.1fs' % (time.time() - t))
