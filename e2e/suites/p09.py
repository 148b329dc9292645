"""end-to-end cases: read-only variables"""
import itertools
from e2e.harness import Case, expect
from e2e import oracle
from e2e.oracle import hx
RULE = 'random programs heavy in readonly, assignment, export and unset (also inside functions, evaluated and sourced text), compared with the reference interpreter; every sequence of up to 3 attacks on a read-only variable, declared in each way, at each depth; a case is distinct when its script differs'
W = dict(assign=6, unset=2, readonly=4, export=2, show=3, args=.5, call=2.5, eval=.6, source=.5, env=1, fail=.1)
W['def'] = 2.5
ATTACKS = ['R=new', 'export R=new', 'unset R', 'readonly R=new', 'readonly R', 'export R', 'O=1 R=new', "eval 'R=new'", 'f', 'readonly -v R=new', 'unset -v R', '. ./src', 'g', 'R=new p st 0 x', "R='q'", 'export O=2 R=new', 'f; f', 'h new']


def cases(tier, rng):
    big = tier != 'quick'
    out = oracle.programs(rng, 900 if not big else 12000, W, 'random programs')
    pre = 'f() { R=inf; unset R; }\ng() { readonly R=ing; export R=ing; f; }\nh() { R=$1; }\n'
    decl = ['readonly R=val', 'R=val; readonly R', 'readonly -v R=val', "readonly R='val'", 'export R=val; readonly R', "eval 'readonly R=val'", 'R=first; R=val; readonly R', 'readonly -v R=val; readonly R']
    for d in decl:
        for n in (1, 2, 3) if big else (1, 2):
            seqs = list(itertools.product(ATTACKS, repeat=n))
            if n > 1:
                seqs = rng.sample(seqs, 40 if not big else 250)
            for seq in seqs:
                s = pre + d + '\n' + ''.join(a + '\np args $R\n' for a in seq)
                out.append(Case(s, expect(out=('1 %s\n' % hx('val')) * len(seq)), 'attacks', files={'src': 'R=insrc\nexport R=insrc\nunset R\n'}))
    # inside a function: for as long as the scope exists
    for a in [x for x in ATTACKS if x not in ('f', 'g', 'f; f', 'h new', '. ./src', "eval 'R=new'", 'R=new p st 0 x') and not x.startswith('export') and not x.endswith("='q'")]:
        s = 'k() { readonly R=val; %s; p args $R; %s; p args $R; }\nk\nk\np args $R\nR=free\np args $R\n' % (a, a)
        out.append(Case(s, expect(out=('1 %s\n' % hx('val')) * 4 + '1 %s\n1 %s\n' % (hx('$R'), hx('free'))), 'in a function'))
    # an empty value is a new value too
    for a in ('export "R="', 'export R=""', 'R=""', 'readonly "R="', 'readonly R=""', 'export "R=" O=2', 'f() { export "R="; }; f'):
        for d in ('readonly R=val', 'R=val; readonly R', 'export R=val; readonly R'):
            out.append(Case('%s\n%s\np args $R\n%s\np args $R\n' % (d, a, a), expect(out='1 %s\n' % hx('val') * 2), 'empty values'))
    # others are not affected
    out.append(Case('readonly R=1\nRR=2\nQ=3\nRR=4\nunset Q\np args $R $RR $Q', expect(out='3 %s %s %s\n' % (hx('1'), hx('4'), hx('$Q'))), 'other names'))
    out.append(Case('A=1; B=2; readonly A; A=3; B=3; C=3; A=4 B=4 C=4; p args $A $B $C', expect(out='3 %s %s %s\n' % (hx('1'), hx('4'), hx('4'))), 'other names'))
    out.append(Case('readonly R=a=b; R=c; p args $R' if False else "readonly R='a=b'; R=c; p args $R", expect(out='1 %s\n' % hx('a=b')), 'values'))
    # what commands see
    out.append(Case('export E=1; readonly E; E=2; unset E; p env t E; p args $E', expect(out='1 %s\n' % hx('1'), log=['t E:1=1']), 'environment'))
    return out
