"""end-to-end cases: where the commands come from"""
from e2e.harness import Case, expect
from e2e.oracle import hx
RULE = 'scripts of 0 to 60 (thorough: 400) lines in a file, with 0 to 30 random words as parameters (blanks, quotes, dollar and equal signs, dashes, nothing at all), with and without an end of the last line, empty lines and comments; commands given behind -c in one or several words; commands on standard input; options in front of them; the commands that ran, the parameters they saw and the exit status are compared'
PIECES = ('a', 'b', 'xyz', ' ', '  ', '=', '$', '$1', '$HOME', "'", '"', '-', '-c', '--', '*', '/', '.', 'é', '漢', '#', ';', '|', '>', '(', ')', '\\', '0', '12', '!', '~', '%', '\t')


def word(rng):
    k = rng.random()
    if k < .08:
        return ''
    if k < .3:
        return rng.choice(("'a'", '"a"', "''", '""', '"', "'", "'a", 'a"', '"$(p out no)"', '`p out no`', '-c', '-', '--', '-l', 'A=1', '=', '$1', '$0', 'a b', ' a', 'a ', "it's", '"a" "b"', '/etc', 'a\tb', '!', '#x'))
    return ''.join(rng.choice(PIECES) for _ in range(rng.randint(1, 5)))


def cases(tier, rng):
    out = []
    big = tier != 'quick'
    # parameters of a script
    for _ in range(250 if not big else 2500):
        n = rng.choice((0, 1, 1, 2, 3, 5, 9, 10, 11, 12, 30))
        ws = [word(rng) for _ in range(n)]
        ask = sorted(rng.sample(range(1, n + 1), min(n, rng.randint(1, 6)))) if n else []
        s, exp = '', b''
        for i in ask:
            s += 'p args $%d >> o\n' % i
            exp += b'1 %s\n' % hx(ws[i - 1]).encode()
        if ask:
            s += 'p args l %s r >> o\n' % ' '.join('$%d' % i for i in ask)
            exp += b'%d %s\n' % (len(ask) + 2, ' '.join(hx(x) for x in ['l'] + [ws[i - 1] for i in ask] + ['r']).encode())
        s += 'p args $0 >> o'
        exp += b'1 %s\n' % hx('.script').encode()
        opts = rng.choice(((), (), (), (), ('-x',), ('-', '--'), ('-e', '-x')))
        out.append(Case(s, expect(files={'o': exp}, rc=0, no_panic=True), 'parameters', mode='file', args=ws, opts=opts, collect=['o']))
    # where a parameter is used
    for w in ("'a'", 'a b', '', '-c', '"q"', 'x=y', "'", '$1', '$(p out no)', 'é'):
        h = hx(w).encode()
        for s, exp in (('f() { p args $1 >> o; }\nf $1\nf other\np args $1 >> o', b'1 ' + h + b'\n1 ' + hx('other').encode() + b'\n1 ' + h + b'\n'),
                       ('X=$1\np args $X $1 >> o', b'2 ' + h + b' ' + h + b'\n'), ('A=$1 p env A >> o', None), ('1=new\np args $1 >> o', b'1 ' + hx('new').encode() + b'\n'),
                       ("eval 'p args $1 >> o'", b'1 ' + h + b'\n'), ('. ./src', b'1 ' + h + b'\n'), ('! p args $1 >> o; p args $2 >> o', b'1 ' + h + b'\n1 ' + hx('two').encode() + b'\n')):
            if exp is not None:
                out.append(Case(s, expect(files={'o': exp}, rc=0), 'uses', mode='file', args=[w, 'two'], collect=['o'], files={'src': 'p args $1 >> o\n'}))
    # the lines of a script, each once, in order; it ends at its end
    for n in list(range(0, 8)) + [20, 60] + ([400] if big else []):
        for rep in range(4):
            s, log, last = '', [], 0
            for i in range(n):
                k = rng.random()
                c = rng.choice((0, 0, 1, 7))
                if k < .6:
                    s += 'p st %d t%d' % (c, i)
                    log.append('t%d' % i)
                elif k < .7:
                    s += '# nothing'
                    c = None
                elif k < .75:
                    c = None
                elif k < .8:
                    s += rng.choice(('cd /nowhere/at/all', 'fg 99', '. ./nothing', 'cd a b c')) + '; p st 0 no'
                    c = None
                elif k < .9:
                    s += 'p st %d t%d; p st 0 u%d' % (c, i, i)
                    log += ['t%d' % i, 'u%d' % i]
                    c = 0
                else:
                    s += 'p st 1 t%d && p st 0 no || p st %d u%d' % (i, c, i)
                    log += ['t%d' % i, 'u%d' % i]
                s += '\n'
            for end in ('', 'x', 'exit 5', 'exit 5\np st 0 late\n'):
                text = s[:-1] if end == 'x' else s + end
                rc = 5 if 'exit' in end else 0
                out.append(Case(text, expect(log=log, rc=rc, no_panic=True), 'lines', mode='file', timeout=20))
                out.append(Case(text, expect(log=log, rc=rc, no_panic=True), 'lines', mode='stdin', timeout=20))
    # lines that begin with blanks, comments in between
    for pre in (' ', '\t', '    ', ' \t', '  \u00a0'):
        for m in ('file', 'stdin'):
            out.append(Case('%sp st 0 a\np st 0 b\n%sp st 0 c\n # x\n#y\n%s%sp st 0 d\n' % ((pre,) * 4), expect(log=['a', 'b', 'c', 'd'], rc=0, no_panic=True), 'lines that begin with blanks', mode=m))
    # the text behind -c is taken as it is
    for w in ('a\tb', 'a  b', ' a', 'a ', 'a\nb', '\t', 'a\rb', '%s', 'a\\b', 'é\u00a0x', 'a\x0cb', '--', '-c', "$x"):
        out.append(Case("p args '%s'" % w, expect(out='1 %s\n' % hx(w), rc=0, no_panic=True), 'behind -c'))
        out.append(Case("p args '%s' x" % w, expect(out='2 %s %s\n' % (hx(w), hx('x')), rc=0, no_panic=True), 'behind -c', opts=('-x',)))
    # the input of the commands of a script is that of the shell
    out.append(Case('p tag 1 > o\np st 0 a\n', expect(log=['a'], files={'o': b'p st 0 no\n1'}, rc=0), 'input', mode='file', stdin=b'p st 0 no\n', collect=['o']))
    # a script that is not there, and one that cannot be read, run nothing
    out.append(Case('p st 0 a\n', lambda r: 'the script did not end' if r.timeout else None if r.log == [] and r.rc != 0 else 'commands run: %r, status %r' % (r.log, r.rc), 'no script', mode='file', opts=('nothere',)))
    # behind -c
    for ws, log in ((['p st 0 a'], ['a']), (['p', 'st', '0', 'a'], ['a']), (['p st', '0 a;', 'p st 0 b'], ['a', 'b']), (['p st 0 a; p st 0 b', 'c'], ['a', 'b']), (['p st 0 -c'], ['-c']), (['p st 0', '-c'], ['-c']),
                    (['p st 0 a\np st 0 b'], ['a', 'b']), (["p st 0 'a", "b'"], ['a b'])):
        for opts in ((), ('-x',), ('-', '-e')):
            out.append(Case(ws[0], expect(log=log, rc=0, no_panic=True), 'behind -c', args=ws[1:], opts=opts))
            out.append(Case(ws[0], expect(log=log, rc=0, no_panic=True), 'behind -c', args=ws[1:], opts=opts, stdin=b'p st 0 no\n'))
    # -c behind the script is a word like any other
    out.append(Case('p args $1 $2 > o\np st 0 a\n', expect(log=['a'], files={'o': b'2 %s %s\n' % (hx('-c').encode(), hx('p st 0 no').encode())}, rc=0), 'behind the script', mode='file', args=['-c', 'p st 0 no'], collect=['o']))
    # nothing asked for: standard input
    for opts in ((), ):
        out.append(Case('p st 0 a\np st 3 b\n\np st 0 c', expect(log=['a', 'b', 'c'], rc=0, no_panic=True), 'standard input', mode='stdin', opts=opts))
    # startup files that fail: the commands are evaluated all the same
    for f in ('~/.rshrc', '~/.profile'):
        for t in ('cd /nowhere\n', '( (\n', 'fg 99\n', '', 'X=1\n'):
            for m in ('c', 'stdin', 'file'):
                out.append(Case('p st 0 a\np st 0 b\n', expect(log=['a', 'b'], rc=0, no_panic=True), 'startup files', mode=m, files={f: t}))
    return out
