"""end-to-end cases: variables and scopes"""
import itertools
from e2e.harness import Case, expect
from e2e import oracle
from e2e.oracle import hx
RULE = 'random programs of assignments, lookups, unset, functions (nested up to 6 deep), evaluated and sourced text are run and every value seen by a command is compared with the reference interpreter; every sequence of up to 4 operations on two names at two depths exhaustively; a case is distinct when its script differs'
W = dict(assign=7, unset=2.5, show=4, args=1, call=4, showpos=.3, eval=.6, source=.5, export=.5, readonly=.3, alias=.2, st=.3, fail=.2)
W['def'] = 3.5


def small(rng, big):
    """exhaustive: operations on X and Y at top level and in a function"""
    ops = {'X=1': ('a', 'X', '1'), 'X=2': ('a', 'X', '2'), 'Y=$X': ('c', 'Y', 'X'), 'unset X': ('u', 'X'), 'f': ('call',)}
    body_ops = ['X=3', 'unset X', 'Y=4', 'X=5; Y=$X']
    out = []
    for body in body_ops:
        for n in range(1, 5 if big else 4):
            for seq in itertools.product(ops, repeat=n):
                if 'f' not in seq and body != body_ops[0]:
                    continue
                st = [{}, {}]

                def get(k):
                    for s in reversed(st):
                        if k in s:
                            return s[k]

                def ass(k, v):
                    for s in reversed(st):
                        if k in s:
                            s[k] = v
                            return
                    st[-1][k] = v

                def uns(k):
                    for s in reversed(st):
                        if k in s:
                            del s[k]
                            return

                def ex(o):
                    if o == 'f':
                        st.append({})
                        for b in body.split('; '):
                            ex(b)
                        st.pop()
                    elif o.startswith('unset'):
                        uns(o[6:])
                    else:
                        k, v = o.split('=')
                        if v[0] == '$':
                            v = get(v[1:]) if get(v[1:]) is not None else v
                        ass(k, v)
                lines = ['f() { %s; }' % body]
                want = ''
                for o in seq:
                    ex(o)
                    lines.append(o)
                    lines.append('p args $X $Y')
                    want += '2 %s %s\n' % tuple(hx(get(k) if get(k) is not None else '$' + k) for k in 'XY')
                out.append(Case('\n'.join(lines), expect(out=want), 'exhaustive sequences'))
    return out


def cases(tier, rng):
    big = tier != 'quick'
    out = oracle.programs(rng, 900 if not big else 12000, W, 'random programs')
    out += oracle.programs(rng, 120 if not big else 1500, W, 'long programs', maxlen=40, depth=3)
    sm = small(rng, big)
    out += sm if big else rng.sample(sm, min(len(sm), 350))
    # a name of every scope of a deep stack, seen, assigned and unset from every deeper one
    for d in (8, 14, 40) if not big else (8, 14, 40, 150):
        s = 'G=g\n'
        for i in range(d):
            s += 'f%d() { L%d=a%d; %s; p args $L%d; }\n' % (i, i, i, 'f%d' % (i + 1) if i + 1 < d else 'p args ' + ' '.join('$L%d' % k for k in range(d)) + ' $G; ' + '; '.join('L%d=b%d' % (k, k) for k in range(d)) + '; G=h; p args ' + ' '.join('$L%d' % k for k in range(d)), i)
        s += 'f0\np args $G $L0\n'
        want = '%d %s\n' % (d + 1, ' '.join(hx('a%d' % k) for k in range(d)) + ' ' + hx('g')) + '%d %s\n' % (d, ' '.join(hx('b%d' % k) for k in range(d)))
        want += ''.join('1 %s\n' % hx('b%d' % i) for i in reversed(range(d))) + '2 %s %s\n' % (hx('h'), hx('$L0'))
        out.append(Case(s, expect(out=want), 'deep', timeout=20))
        s = 'G=g\n'
        for i in range(d):
            s += 'f%d() { L%d=a%d; %s; p args $L%d; }\n' % (i, i, i, 'f%d' % (i + 1) if i + 1 < d else '; '.join('unset L%d' % k for k in range(0, d, 2)) + '; unset G; p args $G ' + ' '.join('$L%d' % k for k in range(d)), i)
        s += 'f0\np args $G\n'
        v = lambda k: '$L%d' % k if k % 2 == 0 else 'a%d' % k
        want = '%d %s %s\n' % (d + 1, hx('$G'), ' '.join(hx(v(k)) for k in range(d))) + ''.join('1 %s\n' % hx(v(i)) for i in reversed(range(d))) + '1 %s\n' % hx('$G')
        out.append(Case(s, expect(out=want), 'deep', timeout=20))
    # depth
    for d in range(1, 7):
        s, want = '', ''
        for i in range(d, 0, -1):
            s += 'f%d() { V%d=in%d; S=s%d; %s; p args $V%d $S $G; }\n' % (i, i, i, i, 'f%d' % (i + 1) if i < d else 'G=g', i)
        s += 'G=0\nf1\np args $S $V1 $G\n'
        # S is created by the outermost function; every inner assignment updates it there
        lines = []
        for i in range(d, 0, -1):
            lines.append('3 %s %s %s\n' % (hx('in%d' % i), hx('s%d' % d), hx('g')))
        want = ''.join(lines) + '3 %s %s %s\n' % (hx('$S'), hx('$V1'), hx('g'))
        out.append(Case(s, expect(out=want), 'depth'))
    # values: everything after the first =
    for v in ('a', 'a=b', '=', '==', 'a==b=', "'a b'", '"a b"', "''", '""', "'='", "'x=y z=w'", '0', '007', '12345678901234567890123', '-1', 'a-b', '-p', 'é=ü', "'it is \"q\"'", '"it\'s"', 'x/y:z', "'a  b'"):
        raw = v[1:-1] if v[0] in '\'"' else v
        if '=' in v and v[0] not in '\'"':
            continue
        out.append(Case('X=%s\nY=$X\np args $X $Y\n' % v, expect(out='2 %s %s\n' % (hx(raw), hx(raw))) if raw and ' ' not in raw and raw[0] not in '"\'' else expect(out=None), 'values'))
        out.append(Case('X=%s\np args $X\n' % v, expect(out='1 %s\n' % hx(raw)), 'values'))
    # many names
    n = 60 if not big else 400
    s = ''.join('N%d=v%d\n' % (i, i) for i in range(n)) + ''.join('unset N%d\n' % i for i in range(0, n, 3)) + ''.join('p args $N%d\n' % i for i in range(0, n, 7))
    want = ''.join('1 %s\n' % hx('$N%d' % i if i % 3 == 0 else 'v%d' % i) for i in range(0, n, 7))
    out.append(Case(s, expect(out=want), 'many names', timeout=20))
    # names that are parts of each other
    out.append(Case('A=1; AB=2; ABC=3; p args $A $AB $ABC; unset AB; p args $A $AB $ABC', expect(out='3 %s %s %s\n3 %s %s %s\n' % (hx('1'), hx('2'), hx('3'), hx('1'), hx('$AB'), hx('3'))), 'names'))
    return out
