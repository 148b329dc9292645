"""end-to-end cases: command substitution"""
import resource
from e2e.harness import Case, expect
from e2e.oracle import hx
RULE = 'substitutions whose output has 0 bytes to 1 MB (thorough: 8 MB), with random words and blanks, inside arguments, assignments, functions, nested lists, with commands that fail, pipelines and several substitutions on a line; the arguments received and, before and after, variables, aliases, functions, directory and descriptors are compared; a case is distinct when its script differs'


def words(rng):
    k = rng.randint(0, 6)
    ws = [rng.choice(('a', 'bb', 'c-c', 'd=e', '0', '12', 'é', 'x.y', '/z', 'w' * 40)) for _ in range(k)]
    s = rng.choice(('', ' ', '   ', '\n', '\t', ' \n '))
    for i, w in enumerate(ws):
        s += (rng.choice((' ', '  ', '   ', ' ', '\n', '\t', '\r', '\r\n', '\n\n', ' \t', '\x0b', '\x0c')) if i else '') + w
    return ws, s + rng.choice(('', ' ', '\n', '\n\n', '  \n', '\t'))


def cases(tier, rng):
    out = []
    big = tier != 'quick'
    for _ in range(250 if not big else 2500):
        ws, text = words(rng)
        pre = ['l%d' % i for i in range(rng.randint(0, 2))]
        post = ['r%d' % i for i in range(rng.randint(0, 2))]
        if not ws:
            continue
        exp = pre + ws + post
        want = '%d %s\n' % (len(exp), ' '.join(hx(x) for x in exp))
        how = rng.choice(('cat', 'cat', 'pipe', 'list', 'func'))
        inner = {'cat': 'p cat < data', 'pipe': 'p cat < data | p cat', 'list': 'p cat < data; p st 0 x', 'func': 'p cat < data'}[how]
        inner = inner.replace('p cat', "p tag ''")
        s = 'p args ' + ' '.join(pre + ['"$(%s)"' % inner] + post) + '\n'
        if how == 'func':
            s = 'f() { %s; }\nf\n' % s.strip()
        out.append(Case(s, expect(out=want), 'words', files={'data': text}, mode='c'))
        if rng.random() < .3:
            out.append(Case(s + s, expect(out=want * 2), 'twice', files={'data': text}))
    # the same words again
    for a in ('a', 'ab', 'x y', 'aa'):
        for s, w in (('"$(p out %s)$(p out %s)"' % (a, a), a + a), ('"%s$(p out %s)"' % (a, a), a + a), ('"$(p out %s)%s$(p out %s)`p out %s`"' % (a, a, a, a), a * 4), ('"$(p out %s)" "$(p out %s)"' % (a, a), a + ' ' + a)):
            if ' ' in a:
                s, w = s.replace('p out x y', "p out 'x y'"), w
            exp = w.split()
            out.append(Case('p args %s\n' % s, expect(out='%d %s\n' % (len(exp), ' '.join(hx(x) for x in exp))), 'again'))
    for n in (1 << 16, 1 << 20, 3 << 20):
        for m in ('c', 'stdin'):
            out.append(Case('p args l "$(p tag \'\' < data)" r\n', expect(out='4 %s %s %s %s\n' % (hx('l'), hx('first'), hx('last'), hx('r'))), 'amounts', files={'data': b'first' + b' ' * n + b'last\n'}, mode=m, timeout=15))
    # whatever the bytes are
    for b in (b'\xff', b'a\xc3', b'\xffa b\xfe', b'\xed\xa0\x80 x', b'ok\x80\n', b'\xf5\xf6 z', b'a\x00b', b'sh\x00-c\x00x y\x00', b'\x00', b'a \x00 b'):
        exp = b.decode('utf-8', 'replace').replace('\0', '').split() or ['']
        for k in (1, 2):
            out.append(Case("p args l \"$(p tag '' < data)\" r\n" * k, expect(out='%d %s\n' % (len(exp) + 2, ' '.join(hx(x) for x in ['l'] + exp + ['r'])) * k), 'bytes', files={'data': b}))
    # commands that are no commands
    for inner in ('a &&', '| a', ';', 'p out x |', '&& p out y', 'if'):
        for m in ('c', 'stdin'):
            out.append(Case('p out 1; p args l "$(%s)" r; p out 2\n' % inner, expect(out='13 %s %s %s\n2' % (hx('l'), hx(''), hx('r'))), 'no commands', mode=m))
    # amounts
    for n in (0, 1, 100, 4096, 65535, 65536, 65537, 70000, 100000, 131000) :
        exp = ('abcdefghijklmnopqrstuvwxyz0123456789' * (n // 36 + 1))[:n]
        for m in ('c', 'stdin'):
            if n:
                out.append(Case('p args "$(p gen %d)"\n' % n, lambda r, exp=exp: None if [l for l in r.out.split('\n') if l[:2] == '1 '] == ['1 ' + hx(exp)] else 'output differs: %d bytes, timeout %s, %s' % (len(r.out), r.timeout, r.err[:100]), 'amounts', mode=m, timeout=15))
    for k, n in ((2, 60000), (3, 60000), (10, 30000), (40, 20000)):
        inner = '; '.join(['p gen %d' % n, "p out ' '"] * k)
        def chk(r, k=k, n=n):
            want = '%d%s\n' % (k, (' ' + hx(('abcdefghijklmnopqrstuvwxyz0123456789' * (n // 36 + 1))[:n])) * k)
            return None if r.out == want else 'output differs: %d bytes, expected %d, timeout %s, %s' % (len(r.out), len(want), r.timeout, r.err[:100])
        out.append(Case('p args "$(%s)"\n' % inner.replace("p out ' '", 'p blank') if False else 'p args "$(p gen %d | p words %d)"\n' % (n, k), chk, 'amounts', timeout=15))
    # no other effect
    st = 'p args $X $Y; al 1; p cwd d; p shfds f\n'
    for inner in ('p out v', 'X=inn; Y=inn; p out v', "alias al='p args wrong'; p out v", 'cd /; p out v', 'unset X; p out v', 'export X=inn; p out v', 'p out v; exit 3', 'cd /nonexistent; p out w', 'p out v | p tag ""', 'readonly Y; p out v', 'unalias -a; p out v', 'p out v > /dev/null', 'nosuchcommand; p out v', 'p out v; nosuchcommand > /dev/null', 'f; p out v', 'p st 3 q; p out v', 'p hang 5; p out v', '. ./src; p out v'):
        inner = inner.replace('p out', 'p out')
        for k in (1, 3):
            s = "X=1\nY=2\nalias al='p args al'\nf() { p st 0 inf; }\n" + st + ('p args "$(%s)" > /dev/null\n' % inner) * k + 'f\n' + st
            def chk(r, k=k):
                if r.timeout:
                    return 'the script did not end'
                want = ('2 %s %s\n2 %s %s\n' % (hx('1'), hx('2'), hx('al'), hx('1'))) * 2
                if r.out != want:
                    return 'variables or aliases changed: %r, expected %r' % (r.out, want)
                d = [l for l in r.log if l.startswith('d ')]
                f = [l for l in r.log if l.startswith('f ')]
                if len(d) != 2 or d[0] != d[1]:
                    return 'directory changed: %r' % d
                if len(f) != 2 or f[0] != f[1]:
                    return 'descriptors changed: %r' % f
            out.append(Case(s, chk, 'no other effect', files={'src': 'X=src\nY=src\n'}))
    # the commands inside run exactly once, in order
    for inner, log in (('p st 0 a; p st 0 b; p out v', ['a', 'b']), ('p st 1 a && p st 0 b; p out v', ['a']), ('p st 1 a || p st 0 b; p out v', ['a', 'b']), ('p st 0 a 20; p st 0 b; p out v', ['a', 'b']), ('p st 0 a | p st 0 a; p out v', ['a', 'a']), ('eval "p st 0 a"; p out v', None)):
        if log is None:
            continue
        for m in ('c', 'stdin'):
            out.append(Case('p args "$(%s)"\np st 0 z\n' % inner, lambda r, log=log: None if r.log == log + ['z'] and [l for l in r.out.split('\n') if l[:2] == '1 '] == ['1 ' + hx('v')] else 'commands %r output %r' % (r.log, r.out), 'commands inside', mode=m))
    # (assignments are not substituted: not part of the property)
    # variables, functions and aliases are visible inside
    out.append(Case("X=v; p args \"$(p out $X)\"", expect(out='1 %s\n' % hx('v')), 'visible inside'))
    out.append(Case("f() { p out fv; }; p args \"$(f)\"", expect(out='1 %s\n' % hx('fv')), 'visible inside'))
    out.append(Case("alias a='p out av'; p args \"$(a)\"", expect(out='1 %s\n' % hx('av')), 'visible inside'))
    # several on a line
    for k in (2, 3, 8):
        out.append(Case('p args ' + ' '.join('"$(p out w%d)" m%d' % (i, i) for i in range(k)), expect(out='%d %s\n' % (2 * k, ' '.join(hx('w%d' % i) + ' ' + hx('m%d' % i) for i in range(k)))), 'several'))
        out.append(Case('p args ' + ' '.join('"$(p out w%d)"' % i for i in range(k)) + ' | p tag e', expect(out='%d %s\ne' % (k, ' '.join(hx('w%d' % i) for i in range(k)))), 'several'))
    out.append(Case('\n'.join(['p args "$(p out a b)"' if False else 'p args "$(p out a)"'] * 60), expect(out=('1 %s\n' % hx('a')) * 60), 'many', timeout=20))
    # no process or no pipe can be made: the substitution is empty, the shell goes on
    def nofork():
        resource.setrlimit(resource.RLIMIT_NPROC, (0, 0))
    def nopipe():
        resource.setrlimit(resource.RLIMIT_NOFILE, (4, 4))
    for m, sig in (('stdin', nofork), ('file', nofork), ('stdin', nopipe)):
        for w in ('unalias', 'unset', 'pwd', 'alias', 'p st 0'):
            out.append(Case('alias q=b\n%s "$(p print x)"\npwd\nexit 4\n' % w, expect(rc=4, no_panic=sig is nofork), 'no process or pipe can be made', mode=m, sigprep=sig))
    return out
