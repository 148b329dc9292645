"""end-to-end cases: aliases"""
from e2e.harness import Case, expect
from e2e import oracle
from e2e.oracle import hx
RULE = 'random programs heavy in alias, unalias and commands that use aliases, compared with the reference interpreter; alias texts of 1 to 12 words with any blanks between, with 0 to 12 arguments, in pipelines, functions, evaluated text; alias names as arguments, as redirection targets, as parts of names; a case is distinct when its script differs'
W = dict(alias=5, unalias=1, usealias=6, args=1.5, assign=1, call=1, eval=.6, source=.3, show=.3)
W['def'] = 1.5


def cases(tier, rng):
    big = tier != 'quick'
    out = oracle.programs(rng, 900 if not big else 10000, W, 'random programs')
    for n in (0, 1, 2, 3, 5, 12):
        for k in (0, 1, 2, 3, 12):
            pre = ['w%d' % i for i in range(n)]
            arg = ['a%d' % i for i in range(k)]
            sep = rng.choice((' ', '  ', ' \t ', '   '))
            text = sep.join(['p', 'args'] + pre)
            want = '%d%s\n' % (n + k, ''.join(' ' + hx(x) for x in pre + arg))
            use = ' '.join(['al'] + arg)
            out.append(Case("alias al='%s'\n%s\n" % (text, use), expect(out=want), 'words'))
            out.append(Case('alias al="%s"\n%s\n%s\n' % (' ' + text + '  ', use, use), expect(out=want * 2), 'words'))
            out.append(Case("alias al='%s'\nf() { %s; }\nf\neval '%s'\n" % (text, use, use), expect(out=want * 2), 'contexts'))
            out.append(Case("alias al='%s'\n%s > f\n" % (text, use), expect(out='', files={'f': want.encode()}), 'redirected', collect=['f']))
            out.append(Case("alias al='%s'; alias cp='p tag Z'\n%s | cp\n" % (text, use), expect(out=want + 'Z'), 'pipelines'))
            out.append(Case("alias al='%s'\nunalias al\n%s || p out none\n" % (text, use), lambda r: None if r.out == 'none' else 'output %r' % r.out, 'removed'))
            out.append(Case("alias al='%s'\nunalias -a\n%s || p out none\n" % (text, use), lambda r: None if r.out == 'none' else 'output %r' % r.out, 'removed'))
            out.append(Case("alias bl='p args q'\nalias al='%s'\nunalias bl\n%s\nbl || p out none\n" % (text, use), lambda r, want=want: None if r.out == want + 'none' else 'output %r' % r.out, 'removed'))
            out.append(Case("alias al='p out wrong'\nalias al='%s'\n%s\n" % (text, use), expect(out=want), 'redefined'))
            # not the command word
            a2 = ['al'] + arg + ['al']
            out.append(Case("alias al='%s'\np args %s\n" % (text, ' '.join(a2)), expect(out='%d%s\n' % (len(a2), ''.join(' ' + hx(x) for x in a2))), 'arguments are not replaced'))
            out.append(Case("alias al='%s'\np out x > al\nA=al p env t A\n" % text, expect(log=['t A:1=al'], files={'al': b'x'}), 'only the command word', collect=['al']))
            out.append(Case("alias al='%s'\nX=al\np args $X\n" % text, expect(out='1 %s\n' % hx('al')), 'only the command word'))
    # parts of names, names with signs
    for nm in ('al', 'a-b', 'a.b', 'a_b', 'p2', 'ls', 'é', '_x', 'b1', 'al2', 'longer-name.x'):
        out.append(Case("alias %s='p args yes'\n%s 1\n%sx 2 || p out no1\nx%s 3 || p out no2\n" % (nm, nm, nm, nm), lambda r: None if r.out == '2 %s %s\nno1no2' % (hx('yes'), hx('1')) else 'output %r' % r.out, 'names'))
    # an alias of an external name that exists; two aliases in one line; the text of an alias is not looked up again
    out.append(Case("alias p='p args in'\np out\n", expect(out='2 %s %s\n' % (hx('in'), hx('out'))), 'alias of itself'))
    out.append(Case("alias a='b x'; alias b='p args never'; a || p out none\n", lambda r: None if r.out == 'none' else 'output %r' % r.out, 'the replacement is the command'))
    out.append(Case("alias a='p args 1' b='p args 2'\na\nb\n", expect(out='1 %s\n1 %s\n' % (hx('1'), hx('2'))), 'several at once'))
    # builtins are not looked up
    for b in ('cd', 'unset', 'export', 'readonly', 'pwd', 'alias', 'unalias', 'exit'):
        out.append(Case("X=1\nalias Q='p out q'\nalias %s='p out wrong'\n%s\n" % (b, {'cd': 'cd /; p cwd t', 'unset': 'unset X; p args $X', 'export': 'export X=2; p env t X', 'readonly': 'readonly X=3; X=4; p args $X', 'pwd': 'pwd', 'alias': "alias Z='p out z'; Z", 'unalias': 'unalias Q', 'exit': 'exit 9'}[b]),
                        lambda r, b=b: 'a builtin was replaced: %r' % r.out if 'wrong' in r.out and not (b == 'alias' and False) and b not in ('cd', 'unset', 'export', 'readonly', 'pwd', 'alias', 'unalias', 'exit') else None, 'builtins'))
    # an alias without words
    for text in ('""', "''", '"  "', "'\t'"):
        for use in ('al', 'al x', 'al && p out yes'):
            out.append(Case('alias al=%s\n%s\np out after\n' % (text, use), expect(out='after', no_panic=True), 'an alias without words'))
    # every kind of name, as a name and as an argument
    for nm in ('~', '%', '+', '-', '.', '..', ':', '@', '1', '[', '^', 'a:b', ',', '-a', '--', '*', '?', '/x', '%1', 'Al', 'aL'):
        q = '"%s=p args yes"' % nm
        if not nm.startswith('-'):
            out.append(Case('alias %s\np args "%s" x "%s"\n"%s" 1 || p out no\n' % (q, nm, nm, nm), lambda r, nm=nm: None if r.out.startswith('3 %s %s %s\n' % (hx(nm), hx('x'), hx(nm))) else 'output %r' % r.out, 'names as arguments'))
            if nm not in ('*', '?', '[', '^', '1', '@', '%1'):
                out.append(Case('alias %s\np args %s x %s\n' % (q, nm, nm), lambda r, nm=nm: None if r.out.startswith('3 %s %s %s\n' % (hx(nm), hx('x'), hx(nm))) else 'output %r' % r.out, 'names as arguments'))
    out.append(Case("alias al='p args 1' bl='p args 2'\nunalias -x\nal\nbl\n", expect(out='1 %s\n1 %s\n' % (hx('1'), hx('2')), no_panic=False), 'removed', mode='stdin'))
    # a name that looks like an alias but for a sign is another name
    for w in ('\\\\al', 'al\\\\', './al', 'al.', 'Al', 'AL', '-al', 'al:', '%al', '@al', '+al', '~al', 'al~', 'all', 'a', 'l', '_al', 'al_'):
        for q in ('', '"'):
            out.append(Case("alias al='p out wrong'\n%s%s%s 1 || p out none\n" % (q, w.replace('\\\\', '\\'), q), lambda r: None if r.out == 'none' else 'output %r' % r.out, 'another name'))
    # values with = and a dash
    out.append(Case("alias l='p args k=v -p'\nl x\n", expect(out='3 %s %s %s\n' % (hx('k=v'), hx('-p'), hx('x'))), 'text with ='))
    out.append(Case("alias a-p='p args 1'\nalias l-a='p args 2'\nunalias l-a\na-p\n", expect(out='1 %s\n' % hx('1')), 'names with a dash'))
    return out
