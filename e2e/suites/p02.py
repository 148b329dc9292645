"""end-to-end cases: lists of commands"""
from e2e.harness import Case, expect
from e2e import oracle
RULE = 'lists of 1 to 60 (thorough: 400) commands with every mix of separators at top level, in function bodies, in evaluated and in sourced text, with commands that fail, that are builtins and-or chains or pipelines, and the commands that ran, their order and the final status are compared with one left-to-right pass; random programs are compared with the reference interpreter; a case is distinct when its script differs'
W = dict(st=6, args=1, assign=1, call=2, eval=2, source=1, fail=.6, show=.5, exit=.1)
W['def'] = 2


def item(rng, i):
    """-> (text, [log lines], status)"""
    k = rng.random()
    c = rng.choice((0, 0, 0, 1, 2, 9, 200))
    t = 't%d' % i
    if k < .6:
        return 'p st %d %s' % (c, t), [t], c
    if k < .68:
        return 'p st %d %s %d' % (c, t, rng.choice((5, 20))), [t], c
    if k < .76:
        d = rng.choice((0, 1))
        op = rng.choice(('&&', '||'))
        runs = (d == 0) == (op == '&&')
        return 'p st %d %s %s p st %d u%d' % (d, t, op, c, i), [t] + (['u%d' % i] if runs else []), c if runs else d
    if k < .84:
        return '! p st %d %s' % (c, t), [t], 0 if c else 1
    if k < .92:
        return 'p out x | p tagx y %d %d %s' % (c, rng.choice((0, 10)), t), [t], c
    return 'p st %d %s > f%d' % (c, t, i), [t], c


def lists(rng, n):
    return [item(rng, i) for i in range(n)]


SEPS = ['; ', ';', '\n', ' ;  ', '\n\n', '\n\n\n', ' \n']


def join(rng, parts, seps=SEPS):
    s = parts[0]
    for p in parts[1:]:
        s += rng.choice(seps) + p
    return s


def cases(tier, rng):
    out = []
    big = tier != 'quick'
    for n in list(range(1, 13)) + [25, 60, 140, 300] + ([1000] if big else []):
        for rep in range(6 if n < 30 else 2):
            its = lists(rng, n)
            log, st = [x for _, l, _ in its for x in l], its[-1][2]
            parts = [t for t, _, _ in its]
            last = rng.choice(('; exit', '\nexit', '\nexit\n', ' ; exit;'))
            out.append(Case(join(rng, parts) + last, expect(log=log, rc=st), 'top level list', timeout=20))
            one = join(rng, parts, ['; ', ' ; ', ';'])
            out.append(Case(one + '\nexit\n', expect(log=log, rc=st), 'line of standard input', mode='stdin', timeout=20))
            out.append(Case(join(rng, parts, ['\n', '; ']) + '\nexit\n', expect(log=log, rc=st), 'lines of standard input', mode='stdin', timeout=20))
            for end in ('\nexit\n', '\nexit', '', '\n', '\n\n\n'):
                out.append(Case(join(rng, parts, ['\n', '; ', '\n\n']) + end, expect(log=log, rc=st if 'exit' in end else 0, out=None, no_panic=True), 'file of commands', mode='file', timeout=20))
            out.append(Case('f() { %s; }; p st 0 before; f; p st 0 after' % one, expect(log=['before'] + log + ['after'], rc=0), 'function body', timeout=20))
            out.append(Case('f() {\n%s\n}\np st 0 before\nf\np st 0 after' % join(rng, parts, ['\n', '; ']), expect(log=['before'] + log + ['after'], rc=0), 'function body', timeout=20))
            out.append(Case("p st 0 before; eval '%s'; p st 0 after" % one, expect(log=['before'] + log + ['after'], rc=0), 'evaluated text', timeout=20))
            body = join(rng, parts, ['\n', '; ', '\n\n']) + rng.choice(('', '\n', '\n\n'))
            out.append(Case('p st 0 before; %s ./s; p st 0 after' % rng.choice(('.', 'source')), expect(log=['before'] + log + ['after'], rc=0), 'sourced text', files={'s': body}, timeout=20))
    # an evaluation error ends the list it is in, at its position
    for n in (1, 2, 3, 5, 8):
        for pos in range(n):
            for bad in ('cd /nonexistent', 'exec', 'unalias', 'fg'):
                parts = ['p st %d t%d' % (rng.choice((0, 1)), i) for i in range(n)]
                parts[pos] = bad
                log = ['t%d' % i for i in range(pos)]
                one = '; '.join(parts)
                out.append(Case(one, expect(log=log), 'error'))
                if bad == 'cd /nonexistent':
                    out.append(Case(join(rng, parts), expect(log=log), 'error'))
                    out.append(Case(one + '\np st 0 next\n', expect(log=log + ['next'], out=None), 'error in a line', mode='stdin'))
                    out.append(Case('f() { %s; }; f; p st 0 after' % one, expect(log=log + ['after']), 'error in a function'))
                    out.append(Case("eval '%s'; p st 0 after" % one, expect(log=log), 'error in evaluated text'))
                    out.append(Case('. ./s; p st 0 after', expect(log=log), 'error in sourced text', files={'s': '\n'.join(parts) + '\n'}))
    # no builtin ends the shell when it is used the wrong way: the lines after it run
    for bad in ('fg', 'fg abc', 'fg "%"', 'fg "%x"', 'fg ""', 'fg 99999999999999999999', 'fg -1', 'fg 2', 'bg abc', 'bg "%9"', 'source /', '. /', 'source', 'source /nonexistent/x', 'export "=x"', 'export "="', 'export ""', 'export context',
                'return zz', 'return ""', 'readonly', 'readonly ""', 'unset', 'unset ""', 'eval', 'eval "x y ="', 'unalias', 'unalias ""', 'alias ""', 'alias "="', 'exec', 'exec -a', 'exec -a x', 'cd ""', 'cd /nonexistent', 'unset HOME; cd', 'env -u HOME; cd x y z',
                'jobs x', 'pwd x', 'export context x', 'export context "="'):
        out.append(Case('p st 0 a; %s\np st 0 b\n' % bad, expect(log=['a', 'b'], out=None, no_panic=True), 'wrong use of a builtin', mode='stdin'))
        out.append(Case('f() { p st 0 b; %s; }; p st 0 a; f; p st 0 c' % bad, expect(log=['a', 'b', 'c'], out=None, no_panic=True), 'wrong use of a builtin in a function'))
    for end in ('\n', ''):
        out.append(Case('p st 0 a\nunset PS1\np st 0 b\nunset PS1 HOME IFS\np st 0 c' + end, expect(log=['a', 'b', 'c'], out=None, no_panic=True), 'without a prompt', mode='stdin'))
    for end in ('\n', ''):
        out.append(Case('p st 0 a\n: \n\n\np st 0 b' + end, expect(log=['a', 'b'], out=None, no_panic=True), 'file of commands', mode='file'))
    out.append(Case('', expect(log=[], out=None, no_panic=True), 'file of commands', mode='file'))
    out.append(Case('p st 0 a\ncd\np st 0 b\n', expect(log=['a', 'b'], out=None, no_panic=True), 'wrong use of a builtin', mode='stdin', env={'HOME': None}))
    # commands in the background are items too
    for n in (2, 3, 5):
        for k in range(n):
            parts = ['p st 0 t%d' % i for i in range(n)]
            s = ''
            for i, p in enumerate(parts):
                s += p + (rng.choice((' &; ', ' &\n', '& ; ')) if i == k else '; ')
            def chk(r, n=n):
                if r.timeout:
                    return 'the script did not end'
                got = sorted(r.log)
                want = sorted(['t%d' % i for i in range(n)] + ['end'])
                if got != want:
                    return 'commands run %r, expected each of %r once' % (r.log, want)
            out.append(Case(s + 'p hang 60 end', chk, 'background item'))
    # and-or lists with a last command in the background are items too
    for first, log in (('p st 0 a && p st 0 b &', ['a', 'b']), ('p st 1 a || p st 0 b &', ['a', 'b']), ('p st 1 a && p st 0 b &', ['a']), ('p st 0 a || p st 0 b &', ['a']), ('p st 0 a && p st 1 b || p st 0 c &', ['a', 'b', 'c'])):
        for sep in ('; ', '\n'):
            for twice in (1, 2):
                def chk(r, want=sorted(log * twice + ['z', 'end'])):
                    if r.timeout or 'panicked at' in r.err:
                        return 'crash or no end ' + r.err[:200]
                    return None if sorted(r.log) == want else 'commands run %r, expected each of %r once' % (r.log, want)
                out.append(Case((first + sep) * twice + 'p st 0 z' + sep + 'p hang 60 end', chk, 'background item'))
    for n in (63, 64, 65, 66, 100, 127, 128, 129, 200, 255, 256, 257):
        out.append(Case('; '.join('p st 0 t%d' % i for i in range(n)), expect(log=['t%d' % i for i in range(n)]), 'many commands', timeout=20))
    out += oracle.programs(rng, 500 if not big else 6000, W, 'random programs')
    return out
