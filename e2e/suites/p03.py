"""end-to-end cases: pipelines"""
import os
from e2e.harness import Case, expect
RULE = 'pipelines of 1 to 14 (thorough: 40) external commands, each of which copies its input, adds its own mark and is delayed at random, with the input of the shell, in different contexts (lists, functions, evaluated text, background, aliases, redirections, closed standard descriptors); output, marks and the identity of the pipes on both sides are compared; a case is distinct when its script or setting differs'


def pat(n):
    s = 'abcdefghijklmnopqrstuvwxyz0123456789'
    return (s * (n // 36 + 1))[:n]


def csum(b):
    h = 5381
    for c in b:
        h = (h * 33 + c) & 0xffffffff
    return h


def parse(line):
    w = line.split(' ')
    return w[0], dict(x.split('=', 1) for x in w[1:])


def wired(n, stdin_kind, last='pipe:'):
    """descriptors logged by `p fdlog t<i> copy`"""
    def chk(r):
        if r.timeout:
            return 'the script did not end'
        if 'panicked at' in r.err:
            return 'crash: ' + r.err[:200]
        d = {}
        for l in r.log:
            if l.startswith('t'):
                k, v = parse(l)
                if k in d:
                    return 'command %s started twice' % k
                d[k] = v
        if len(d) != n:
            return '%d of %d commands ran' % (len(d), n)
        seen = set()
        for i in range(n - 1):
            a, b = d['t%d' % i].get('1'), d['t%d' % (i + 1)].get('0')
            if a != b or not str(a).startswith('pipe:'):
                return 'standard output of command %d is %s, standard input of command %d is %s' % (i, a, i + 1, b)
            if a in seen:
                return 'pipe %s used twice' % a
            seen.add(a)
        ends = {d['t0'].get('0'), d['t%d' % (n - 1)].get('1')}
        if ends & seen:
            return 'an end of the pipeline is one of its own pipes'
        if 'ref' in r.log[0][:4]:
            k, ref = parse(r.log[0])
            if d['t0'].get('0') != ref.get('0') or d['t%d' % (n - 1)].get('1') != ref.get('1'):
                return 'the ends of the pipeline are %s and %s, the shell has %s and %s' % (d['t0'].get('0'), d['t%d' % (n - 1)].get('1'), ref.get('0'), ref.get('1'))
        return None
    return chk


def close_fds(*fds):
    def f():
        for x in fds:
            try:
                os.close(x)
            except OSError:
                pass
    return f


def cases(tier, rng):
    out = []
    big = tier != 'quick'
    top = 14 if not big else 40
    letters = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'
    for n in range(1, top + 1):
        for rep in range(6 if n < 8 else 2):
            cmds, logs = [], []
            for i in range(n):
                d = rng.choice((0, 0, 0, 5, 20))
                cmds.append('p tagx %s %d %d L%d' % (letters[i], rng.choice((0, 1)), d, i))
            want = letters[:n]
            def chk(r, n=n, want='IN' + want):
                if r.timeout:
                    return 'the script did not end'
                if r.out != want:
                    return 'standard output %r, expected %r' % (r.out[:200], want)
                if sorted(r.log) != sorted('L%d' % i for i in range(n)):
                    return 'commands %r' % (r.log,)
            s = rng.choice((' | ', '|', ' |  ', '| ')).join(cmds)
            out.append(Case(s, chk, 'marks', stdin=b'IN'))
            if rep < 3:
                pre, post = rng.choice((('f() { ', '; }; f'), ("eval '", "'"), ('p st 0 x > /dev/null && ', ''), ('! ', ''), ('cd .; ', ''), ('A=b; ', ''), ('p out q | p sum s > /dev/null; ', '')))
                def chk2(r, n=n, want='IN' + want):
                    if r.timeout:
                        return 'the script did not end'
                    if r.out != want:
                        return 'standard output %r, expected %r' % (r.out[:200], want)
                    if sorted(x for x in r.log if x[0] == 'L') != sorted('L%d' % i for i in range(n)):
                        return 'commands %r' % (r.log,)
                out.append(Case(pre + s + post, chk2, 'marks in context', stdin=b'IN'))
            # arguments of every command
            w = ['p fdlog t%d copy' % i for i in range(n)]
            out.append(Case('p fdlog ref; ' + ' | '.join(w), wired(n, None), 'wiring'))
    for n in range(2, 7):
        for k in range(2, 7):
            # several pipelines in one shell
            s, want = [], ''
            for j in range(k):
                s.append(' | '.join('p tag %s' % letters[(i + j) % 52] for i in range(n)))
                want += ''.join(letters[(i + j) % 52] for i in range(n))
            out.append(Case('; '.join(s), expect(out=want), 'sequence of pipelines'))
            s2 = '; '.join('p fdlog t%d copy' % i if False else x for i, x in enumerate(s))
            out.append(Case(s2.replace('; ', ' && '), expect(out=want), 'sequence of pipelines'))
    out.append(Case('; '.join(['p out a | p tag b'] * 150), expect(out='ab' * 150), 'many pipelines', timeout=20))
    # volumes
    for size in (0, 1, 4095, 4096, 4097, 65535, 65536, 65537, 200000, 1000003) + ((8000000,) if big else ()):
        data = pat(size).encode()
        exp = 'S %d %d' % (size, csum(data))
        for n in (0, 1, 2, 5):
            mid = ''.join(' | p tag ""' for _ in range(n))
            mid = ''.join(' | p fdlog m%d copy' % i for i in range(n))
            def chk(r, exp=exp):
                if r.timeout:
                    return 'the script did not end'
                got = [x for x in r.log if x.startswith('S ')]
                return None if got == [exp] else 'the last command read %r, expected %r' % (got, exp)
            out.append(Case('p gen %d%s | p sum S' % (size, mid), chk, 'volume', timeout=15))
    # a reader that does not read, a writer that does not write, unequal lifetimes
    for s, log in (('p gen 1000000 | p st 0 a; p st 0 b', ['a', 'b']), ('p hang 60 h | p sum S; p st 0 b', ['h', 'S 0 5381', 'b']), ('p out x | p hang 30 h | p sum S; p st 0 b', ['S 0 5381', 'h', 'b']),
                   ('p gen 500000 | p hang 30 h | p gen 100 | p sum S; p st 0 b', None), ('p st 1 a | p st 0 b | p st 1 c; p st 0 d', None)):
        def chk(r, log=log):
            if r.timeout:
                return 'the script did not end'
            if log is not None and sorted(r.log) != sorted(log):
                return 'commands %r, expected %r' % (r.log, log)
        out.append(Case(s, chk, 'lifetimes'))
    # argument lists stay with their command
    for n in (2, 3, 5):
        w = ' | '.join('p tagx %d%s 0 0 n%d' % (i, 'k' * i, i) for i in range(n))
        out.append(Case(w, expect(out=''.join('%d%s' % (i, 'k' * i) for i in range(n))), 'arguments'))
        out.append(Case("alias m='p tag'; " + ' | '.join('m %d' % i for i in range(n)), expect(out=''.join(str(i) for i in range(n))), 'aliases'))
        out.append(Case('X=v; ' + ' | '.join('p tag $X%s' % '' for i in range(n)), expect(out='v' * n), 'variables'))
    # standard descriptors of the shell that are closed
    for cl in ((0,), (0, 1), (1,), (0, 2)):
        for n in (2, 3, 4):
            s = ' | '.join(['p out a'] + ['p tag b'] * (n - 2) + ['p sum S'])
            data = b'a' + b'b' * (n - 2)
            def chk(r, data=data):
                if r.timeout:
                    return 'the script did not end'
                want = ['S %d %d' % (len(data), csum(data))]
                return None if r.log == want else 'commands %r, expected %r; %s' % (r.log, want, r.err[:200])
            out.append(Case(s, chk, 'closed descriptors %r' % (cl,), sigprep=close_fds(*cl)))
    # many descriptors that were open before the shell started
    for k in (1, 7, 30, 70, 126, 254, 300):
        for n in (2, 3, 6):
            s = ' | '.join(['p out a'] + ['p tag b'] * (n - 2) + ['p sum S'])
            data = b'a' + b'b' * (n - 2)
            out.append(Case(s, expect(log=['S %d %d' % (len(data), csum(data))], out=''), 'descriptors the shell was given', fds=k))
    # background pipelines
    for n in (1, 2, 3, 6):
        s = ' | '.join(['p out a'] + ['p tagx b 0 10'] * (n - 1) + ['p sum S']) + ' &\np hang 120 end'
        data = b'a' + b'b' * (n - 1)
        def chk(r, data=data):
            want = sorted(['S %d %d' % (len(data), csum(data)), 'end'])
            return None if sorted(r.log) == want else 'commands %r, expected %r' % (r.log, want)
        out.append(Case(s, chk, 'background'))
    return out
