"""end-to-end cases: descriptors"""
import os
import resource
from e2e.harness import Case, expect
from .p03 import parse
RULE = 'the descriptors of the shell are listed (by a command it starts) before and after sequences of pipelines, substitutions, redirections, functions, failures and background jobs, and the descriptors of every command of pipelines of 1 to 12 (thorough: 30) commands are listed; compared with: unchanged, and no pipe beyond standard input and output; a case is distinct when its script differs'

ACTS = ['p st 0 x', 'p st 1 x', 'p out a | p sum s', 'p out a | p tag b | p sum s', 'p gen 100000 | p st 0 x', 'nosuchcommand', 'nosuchcommand | p sum s', 'p st 0 x | nosuchcommand', 'p out x > f', 'p sum s < f0', 'p sum s < missing',
        'p out a >> f | p sum s', 'p sum s < missing | p sum s', 'p st 0 x &', 'p out a | p sum s &', 'nosuchcommand &', 'f', 'f x y', 'f &', 'p st 0 "$(p out a)"', 'p st 0 "$(p out a | p tag b)"', 'p st 0 x "$(nosuchcommand)"',
        'p args "$(p gen 70000)" > /dev/null', 'p st 0 "$(p st 3 x)"', 'A=b', 'export E=1', 'cd .', 'unset A', 'alias q=w', 'g() { p st 0 y; }', 'eval \'p out a | p sum s\'', '. ./src', '! p st 0 x', 'p st 0 x && p st 1 y', 'p st 1 x || p out a | p sum s',
        'A=1 p st 0 x', 'p sg 9 x', 'p sg 15 x | p sum s', 'p out a | p sg 9 x', 'p st 0 "$(p print $X)"', 'p st 0 "$(f)"', 'p st 0 "$(p print a > f)"', 'p st 0 "$(cd /)"', 'p st 0 "$(A=b)"', '/nonexistent/x', './f0', 'p st 0 x < f0 > f >> f']
FILES = {'f0': 'data', 'src': 'p out a | p sum s\np st 0 "$(p out q)"\n'}
DEF = "f() { p out a | p sum s; p st 0 y; }\n"


def same(r):
    if r.timeout:
        return 'the script did not end'
    sh = [parse(l) for l in r.log if l.startswith('SH')]
    if len(sh) < 2:
        return 'the script did not get to its end: %r %s' % (r.log, r.err[:200])
    for k, d in sh[1:]:
        if d != sh[0][1]:
            a, b = sh[0][1], d
            return 'descriptors of the shell before %s; after: %s' % ({x: a[x] for x in a if b.get(x) != a[x]}, {x: b[x] for x in b if b[x] != a.get(x)})
    return None


def clean(n):
    def chk(r):
        if r.timeout:
            return 'the script did not end'
        seen = 0
        for l in r.log:
            if l.startswith('t'):
                k, d = parse(l)
                seen += 1
                ref = parse(r.log[0])[1] if r.log[0].startswith('ref') else {}
                for fd, what in d.items():
                    if int(fd) > 2 and ref.get(fd) != what and what.startswith('pipe:'):
                        return 'command %s holds descriptor %s=%s' % (k, fd, what)
                if d.get('2') != ref.get('2'):
                    return 'standard error of %s is %s, not that of the shell' % (k, d.get('2'))
        if seen != n:
            return '%d of %d commands ran' % (seen, n)
    return chk


def few(n):
    def prep():
        resource.setrlimit(resource.RLIMIT_NOFILE, (n, n))
    return prep


def cases(tier, rng):
    out = []
    big = tier != 'quick'
    for a in ACTS:
        end = '\np hang 40\n' if '&' in a else '\n'
        for k in (1, 3):
            out.append(Case(DEF + 'p shfds SH0\n' + (a + '\n') * k + end.lstrip('\n') + 'p shfds SH1\n', same, 'shell descriptors', files=FILES, mode='stdin'))
        if '(f)' in a or '()' in a:
            continue
        sep = '\n'
        out.append(Case(DEF + 'p shfds SH0; p st 0 q' + sep + a + sep + (end.strip() + '\n' if end.strip() else '') + 'p shfds SH1', same, 'shell descriptors, -c', files=FILES))
    for _ in range(120 if not big else 1500):
        acts = [rng.choice(ACTS) for _ in range(rng.randint(2, 14))]
        s = DEF + 'p shfds SH0\n' + '\n'.join(acts) + '\np hang 50\ncd .\np shfds SH1\n'
        out.append(Case(s, same, 'random sequences', files=FILES, mode='stdin', timeout=15))
    out.append(Case('p shfds SH0\n' + 'p out a | p sum s | p st 0 x\n' * 200 + 'p st 0 "$(p out a)"\n' * 100 + 'p out a > f\n' * 30 + 'p shfds SH1\n', same, 'long history', mode='stdin', timeout=20))
    for n in range(1, 13 if not big else 31):
        w = ' | '.join('p fdlog t%d copy' % i for i in range(n))
        out.append(Case('p fdlog ref; ' + w, clean(n), 'command descriptors'))
        out.append(Case('p fdlog ref; p out a | p sum s; p st 0 "$(p out a)"; ' + w, clean(n), 'command descriptors, later'))
        out.append(Case('p fdlog ref; f() { ' + w + '; }; f', clean(n), 'command descriptors in a function'))
        out.append(Case('p fdlog ref; ' + w + ' &\np hang 80', clean(n), 'command descriptors in the background'))
        out.append(Case('p fdlog ref; ' + w + '; ' + w.replace(' t', ' s'), clean(n), 'command descriptors, twice'))
        if n > 1:
            w2 = ' | '.join('p fdlog t%d copy%s' % (i, rng.choice(('', ' < f0', ' > f', ' >> f'))) for i in range(n))
            out.append(Case('p fdlog ref; ' + w2, clean(n), 'command descriptors with redirections', files=FILES))
    # pipes that cannot be made
    for lim in (4, 5):
        for n in range(2, 7):
            w = ' | '.join(['p out a'] + ['p tag b'] * (n - 1))
            for k in (1, 3):
                out.append(Case('p shfds SH0\n' + (w + '\n') * k + 'p shfds SH1\n', same, 'a pipe that cannot be made', mode='stdin', sigprep=few(lim)))
                out.append(Case('p shfds SH0\n' + (w + ' &\n') * k + 'p hang 60\ncd .\np shfds SH1\n', same, 'a pipe that cannot be made, in the background', mode='stdin', sigprep=few(lim)))
    # inside a substitution
    def sub(r):
        if r.timeout:
            return 'the script did not end'
        ref = parse(r.log[0])[1]
        for l in [x for x in r.log[1:] if x]:
            k, d = parse(l)
            for fd, what in d.items():
                if int(fd) > 2 and what.startswith('pipe:') and ref.get(fd) != what:
                    return 'command %s of a substitution holds descriptor %s=%s' % (k, fd, what)
        if len([x for x in r.log if x]) != 3:
            return 'commands %r' % (r.log,)
    out.append(Case('p fdlog ref; p st 0 "$(p fdlog ta; p fdlog tb)"; p st 0', sub, 'command descriptors in a substitution'))
    out.append(Case('p fdlog ref; p st 0 "$(p fdlog ta copy | p fdlog tb copy)"', sub, 'command descriptors in a substitution', stdin=b''))
    return out
