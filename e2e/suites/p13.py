"""end-to-end cases: the environment of commands"""
from e2e.harness import Case, expect
from e2e import oracle
from e2e.oracle import hx
RULE = 'random programs heavy in export, prefix assignments, plain assignments and commands that log the variables they were given, compared with the reference interpreter; every value form by every way of giving it; the complete environment of commands before and after; a case is distinct when its script or environment differs'
W = dict(assign=4, unset=.6, export=5, env=6, readonly=.5, call=1.5, show=.6, eval=.5, source=.4, alias=.2, args=.3)
W['def'] = 1.5
VALS = [('a', 'a'), ("'a b'", 'a b'), ('"a b"', 'a b'), ("'k=v'", 'k=v'), ('"a=b=c"', 'a=b=c'), ("'='", '='), ("''", ''), ('""', ''), ("'x='", 'x='), ('"=="', '=='), ('long-value/with:things', 'long-value/with:things'), ("' lead'", ' lead'), ("'tail '", 'tail '), ('é', 'é'),
        ('007', '007'), ('99999999999999999999', '99999999999999999999'), ("'a\"b'", 'a"b'), ('"it\'s"', "it's"), ("'a  b'", 'a  b'), ('"-p"', '-p'), ("'%s'" % ('v' * 3000), 'v' * 3000), ('-p', '-p'), ('a-p', 'a-p'), ('-', '-')]


def base(r):
    """environment lines of `p envall`"""
    d = {}
    for l in r.log:
        k, *rest = l.split('\x1f')
        d[k] = dict(x.split('=', 1) for x in rest)
    return d


def cases(tier, rng):
    big = tier != 'quick'
    out = oracle.programs(rng, 900 if not big else 12000, W, 'random programs')
    out += oracle.programs(rng, 150 if not big else 2000, W, 'random programs with an environment', env={'X': 'fromenv', 'ZZ': 'a=b', 'LONG_name': 'with blank', '_u': ''})
    for v, raw in VALS:
        for m in ('c', 'stdin'):
            out.append(Case('export N=%s\np env a N\np st 0 x | p env b N\n' % v, lambda r, raw=raw: None if sorted(r.log) == sorted(['a N:1=' + raw, 'x', 'b N:1=' + raw]) else 'environment %r' % (r.log,), 'exported values', mode=m))
            out.append(Case('p env z N\nN=%s p env a N\np env b N\n' % v, expect(log=['z N:0=<unset>', 'a N:1=' + raw, 'b N:0=<unset>']), 'assignments in front', mode=m))
            out.append(Case('M=m N=%s O=o p env a M N O\np env b M N O\n' % v, expect(log=['a M:1=m N:1=%s O:1=o' % raw, 'b M:0=<unset> N:0=<unset> O:0=<unset>']), 'assignments in front', mode=m))
            out.append(Case('export N=old\nN=%s p env a N\np env b N\n' % v, expect(log=['a N:1=' + raw, 'b N:1=old']), 'assignments in front', mode=m))
            out.append(Case('N=%s\np env a N\nexport N\np env b N\nN=later\np env c N\n' % v, expect(log=['a N:0=<unset>', 'b N:1=' + raw, 'c N:1=' + raw]) if v not in ('""', "''") or True else None, 'never exported', mode=m))
            out.append(Case('export N=first\nexport N=%s\nf() { p env a N; N=%s p env b N; p env c N; }\nf\n' % (v, v), expect(log=['a N:1=' + raw, 'b N:1=' + raw, 'c N:1=' + raw]), 'in a function', mode=m))
    # an assignment in front is neither a shell variable nor seen by the others
    for pre in ('N=1 ', 'N=1 M=2 ', 'M=2 N=1 '):
        out.append(Case(pre + 'p env a N\np args $N $M\n', expect(out='2 %s %s\n' % (hx('$N'), hx('$M'))), 'not a shell variable'))
        def chk(r):
            l = dict(x.split(' ', 1) for x in r.log)
            if l.get('a') != 'N:1=1' or l.get('b') != 'N:0=<unset>' or l.get('c') != 'N:0=<unset>':
                return 'environments %r' % l
        out.append(Case(pre + 'p env a N | p env b N; p env c N\n', chk, 'in a pipeline'))
        out.append(Case('p env b N | ' + pre + 'p env a N; p env c N\n', chk, 'in a pipeline'))
        out.append(Case('N=shell\n' + pre + 'p env a N\np args $N\n', expect(out='1 %s\n' % hx('shell'), log=['a N:1=1']), 'a shell variable of the same name'))
        out.append(Case(pre + 'nosuchcommand\np env c N\n' , expect(log=['c N:0=<unset>'], no_panic=False), 'a command that fails'))
        out.append(Case(pre + 'p env a N > f\np env c N\n', expect(log=['a N:1=1', 'c N:0=<unset>']), 'with a redirection'))
        out.append(Case('> f ' + pre + 'p env a N\np env c N\n', expect(log=['a N:1=1', 'c N:0=<unset>']), 'with a redirection'))
    # an empty value replaces the one before
    for w in ('export "N="', 'export N=""', "export N=''"):
        out.append(Case('export N=old\n%s\np env a N\nM=1 p env b N\n' % w, expect(log=['a N:1=', 'b N:1=']), 'empty values'))
        out.append(Case('%s\np env a N\n' % w, expect(log=['a N:1=']), 'empty values', env={'N': 'from outside'}))
        out.append(Case('f() { %s; }\nexport N=old\nf\np env a N\n' % w, expect(log=['a N:1=']), 'empty values'))
    # the complete environment
    def same(keys):
        def chk(r):
            if r.timeout or 'panicked at' in r.err:
                return 'crash or no end ' + r.err[:200]
            d = base(r)
            if set(d) != set(keys):
                return 'commands %r' % sorted(d)
            ref = d['ref']
            for k, ch in keys.items():
                want = dict(ref)
                want.update({n: v for n, v in ch.items() if v is not None})
                for n, v in ch.items():
                    if v is None:
                        want.pop(n, None)
                if d[k] != want:
                    diff = {n: (d[k].get(n), want.get(n)) for n in set(want) | set(d[k]) if d[k].get(n) != want.get(n)}
                    return 'environment of %s differs: %r (found, expected)' % (k, diff)
        return chk
    for m in ('c', 'stdin'):
        out.append(Case('p envall ref\nX=1\np envall a\nY=2 p envall b\nexport Z=3\np envall c\nreadonly R=4\nalias l=ls\nf() { L=5; p envall d; }\nf\nunset X\np envall e\n',
                        same({'ref': {}, 'a': {}, 'b': {'Y': '2'}, 'c': {'Z': '3'}, 'd': {'Z': '3'}, 'e': {'Z': '3'}}), 'complete', mode=m, env={'A_1': 'x=y', 'B': ''}))
        out.append(Case('p envall ref\nf() { p envall a; }\nf 1 2 3\n. ./s p q\np envall b\neval \'X=1; p envall c\'\np out "$(p envall d)" > /dev/null\n', same({'ref': {}, 'a': {}, 'b': {}, 's': {}, 'c': {}, 'd': {}}), 'complete', mode=m, files={'s': 'p envall s\n'}))
    n = 40 if not big else 300
    out.append(Case('\n'.join('export V%d=value%d' % (i, i) for i in range(n)) + '\np env t ' + ' '.join('V%d' % i for i in range(n)) + '\n', expect(log=['t ' + ' '.join('V%d:1=value%d' % (i, i) for i in range(n))]), 'many', timeout=20))
    out.append(Case('export A=1 B=2 C=3\np env t A B C\n', expect(log=['t A:1=1 B:1=2 C:1=3']), 'several at once'))
    return out
