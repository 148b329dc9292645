"""end-to-end cases: redirections"""
import itertools
import os
from e2e.harness import Case, expect
RULE = 'every sequence of up to 3 redirections over two files with known contents, and random scripts of commands and pipelines with up to 5 redirections each (thorough: many more), are run and the final content of every file, the standard output of the shell and the commands that ran are compared with a left-to-right model; failures to open at every position; a case is distinct when its script differs'
NAMES = ['a', 'b', 'c', 'd']


class Model:
    def __init__(self, files):
        self.f = dict(files)

    def cmd(self, redirs, inp, fn):
        """-> (ran, output not redirected or None). fn(input bytes) -> output"""
        src, dst, mode = None, None, None
        order = []
        for op, n in redirs:
            if op == '<':
                if n not in self.f:
                    return False, b''
                src = n
            else:
                if n.startswith('missing'):
                    return False, b''
                if op == '>':
                    self.f[n] = b''
                elif n not in self.f:
                    self.f[n] = b''
                dst, mode = n, op
        data = inp if src is None else self.f[src]
        out = fn(data)
        if dst is None:
            return True, out
        if mode == '>>':
            self.f[dst] = self.f[dst] + out
        else:
            old = self.f[dst]
            self.f[dst] = out + old[len(out):]
        return True, b''


def rtext(rng, words, redirs):
    """redirections before, between and after the words"""
    parts = list(words)
    pos = sorted(rng.randint(0, len(parts)) for _ in redirs)
    if rng.random() < .6:
        pos = [len(parts)] * len(redirs)
    out, k = [], 0
    for i in range(len(parts) + 1):
        while k < len(redirs) and pos[k] == i:
            out.append(redirs[k][0] + rng.choice(('', ' ')) + redirs[k][1])
            k += 1
        if i < len(parts):
            out.append(parts[i])
    return ' '.join(out)


def order_ok(pos_redirs):
    return True


def cases(tier, rng):
    out = []
    big = tier != 'quick'
    files = {'a': b'AAAAAAAAAA', 'b': b'bb'}
    ops = [(o, n) for o in ('<', '>', '>>') for n in ('a', 'b', 'c')]
    # exhaustive: the command copies its input and appends X
    for n in range(0, 4):
        for seq in itertools.product(ops, repeat=n):
            if n == 3 and not big and rng.random() < .55:
                continue
            if any(o == '<' for o, _ in seq):
                # reading and writing the same file at once: the copy must end; skip what never ends
                src = [x for o, x in seq if o == '<'][-1]
                dst = [x for o, x in seq if o != '<'][-1:]
                if dst == [src] and dict(seq) and [o for o, x in seq if o != '<'][-1] == '>>':
                    continue
                if dst == [src]:
                    continue
            m = Model(files)
            ran, o = m.cmd(seq, b'IN', lambda d: d + b'X')
            s = 'p tag X' + ''.join(' %s %s' % x for x in seq) + '\np out end'
            out.append(Case(s, mk(m.f, (o if ran else b'') + b'end', ran), 'sequences', files=files, stdin=b'IN', collect=NAMES))
    # random scripts
    for _ in range(400 if not big else 4000):
        m = Model(files)
        lines, want, logs = [], b'', []
        for i in range(rng.randint(1, 5)):
            k = rng.choice((1, 1, 1, 2, 3))
            texts, data, ok = [], b'', True
            stages = []
            for j in range(k):
                rs = [(rng.choice(('<', '>', '>>', '>', '>>')), rng.choice(NAMES[:3] + (['missing/x'] if rng.random() < .15 else []))) for _ in range(rng.choice((0, 0, 1, 1, 2, 3, 5)))]
                if k > 1:
                    # several processes at once: no file is shared between them
                    rs = [(o, n if n.startswith('missing') else 'q%d%d' % (i, j) + n) for o, n in rs]
                # reading what is written at the same time may never end
                rs = [(o, x) for o, x in rs if not (o == '<' and any(q != '<' and y == x for q, y in rs))]
                stages.append(rs)
            inp = b'' if i or True else b''
            res = b''
            for j in range(k):
                mark = 'm%d%d' % (i, j)
                if j == 0:
                    words, fn = ['p', 'out', mark], lambda d, mark=mark: mark.encode()
                else:
                    words, fn = ['p', 'tag', mark], lambda d, mark=mark: d + mark.encode()
                rs = stages[j]
                if j > 0:
                    pass
                elif any(o == '<' for o, _ in rs):
                    words, fn = ['p', 'tag', mark], lambda d, mark=mark: d + mark.encode()
                ran, res = m.cmd(rs, inp if j == 0 else res, fn)
                texts.append(rtext(rng, words, rs))
                if not ran:
                    res = b''
            want += res
            lines.append(' | '.join(texts))
        s = rng.choice(('\n', '; ')).join(lines)
        out.append(Case(s, mk(m.f, want, None), 'random scripts', files=files, collect=sorted(set(NAMES) | set(m.f)), stdin=b''))
    # the command does not run, and its status is not 0, when a file cannot be opened
    for bad in ('< missing', '> nodir/x', '>> nodir/x', '< nodir/x', '> .', '>> .', '> ro', '>> ro', '< wo'):
        for pre in ('', '> c ', '>> a ', '< a '):
            for post in ('', ' > d', ' < b', ' >> b'):
                m = Model(files)
                if pre == '> c ':
                    m.f['c'] = b''
                s = 'p st 0 ran %s%s%s && p st 0 no\np st 0 %s ran %s || p st 0 yes\n%sp st 0 after' % (pre, bad, post, bad, post, '')
                def chk(r, m=m):
                    if r.timeout:
                        return 'the script did not end'
                    if r.log != ['yes', 'after']:
                        return 'commands %r, expected only what follows the failed command' % (r.log,)
                    for f in NAMES:
                        if r.files[f] != m.f.get(f):
                            return 'file %s holds %r, expected %r' % (f, r.files[f], m.f.get(f))
                out.append(Case(s, chk, 'failures', files=files, collect=NAMES, setup=perms))
    # isolation
    for s, want, fl in (('p out x > c; p out y', b'y', {'c': b'x'}), ('p tag 1 < a; p tag 2', b'AAAAAAAAAA1IN2', {}), ('p out x > c | p tag y; p out z', b'yz', {'c': b'x'}), ('p out x | p tag y > c; p out z', b'z', {'c': b'xy'}),
                        ('p out x > c || p out q; p out z >> c; p out w', b'w', {'c': b'xz'}), ('p out x | p tag y < b | p tag z', b'bbyz', {}), ('p out q | p tag x < a > c | p tag y', b'y', {'c': b'AAAAAAAAAAx'}),
                        ('p out longtext > a; p out s > a', b'', {'a': b's'}), ('p out 1 >> c; p out 2 >> c; p out 3 >> c', b'', {'c': b'123'}), ('p out x > c > d; p out y >> d', b'', {'c': b'', 'd': b'xy'}),
                        ('f() { p out x > c; p out y; }; f; p out z', b'yz', {'c': b'x'}), ("eval 'p out x > c'; p out z", b'z', {'c': b'x'}), ('! p out x > c; p out z', b'z', {'c': b'x'}), ('A=1 p out x > c; p out z', b'z', {'c': b'x'}),
                        ('A=1 > c p out x; p out z', b'z', {'c': b'x'}), ('> c A=1 p out x; p out z', b'z', {'c': b'x'}), ('p out x > c &\np hang 50; p out z', None, {'c': b'x'}), ("p out x > 'c'", b'', {'c': b'x'}), ('p out x > ./c', b'', {'c': b'x'})):
        def chk(r, want=want, fl=fl):
            if r.timeout:
                return 'the script did not end'
            if want is not None and r.out.encode() != want:
                return 'standard output %r, expected %r' % (r.out, want)
            for k, v in fl.items():
                if r.files.get(k) != v:
                    return 'file %s holds %r, expected %r' % (k, r.files.get(k), v)
        out.append(Case(s, chk, 'isolation', files=files, stdin=b'IN', collect=NAMES))
    # reading needs no permission to write, writing none to read
    for s, want in (('p tag x < ro', b'keepx'), ('p out n >> wo; p out y', b'y'), ('p tag a < ro | p tag b', b'keepab'), ('p out q > wo; p tag x < ro', b'keepx')):
        out.append(Case(s, lambda r, want=want: None if r.out.encode() == want and not r.timeout else 'standard output %r, expected %r; %s' % (r.out, want, r.err[:200]), 'permissions', setup=perms))
    # names of files with quotes of the other kind, and what looks like quotes
    for w, n in (('"it\'s"', "it's"), ("'a\"b'", 'a"b'), ('"\'q\'"', "'q'"), ("'\"q\"'", '"q"'), ('"x\'"', "x'"), ("'\"x'", '"x')):
        out.append(Case('p out 1 > %s; p out 2 >> %s; p tag z < %s' % (w, w, w), expect(out='12z', files={n: b'12'}), 'quoted names', collect=[n]))
    # big appends keep every byte
    for n in (1, 4096, 70000):
        out.append(Case('p gen %d > c; p out END >> c; p gen 3 >> c' % n, lambda r, n=n: None if r.files['c'] == pat(n) + b'ENDabc' else 'appending lost data: %d bytes' % len(r.files['c'] or b''), 'append', collect=['c']))
    # an input is only read: its file may be one that cannot be written
    def ro(*names):
        def f(d):
            for x in names:
                os.chmod(os.path.join(d, x), 0o444)
        return f
    for s, want in (('p tag z < a > o', b'AAz'), ('p tag z < b < a > o', b'AAz'), ('p tag z < a < b > o', b'bz'), ('p tag z > o < a < b < a', b'AAz'), ('p out q > c; p tag z < c < b < a > o', b'AAz'), ('p tag x < a | p tag z < a > o', b'AAz'), ('p tag z < a < b < a >> o', b'AAz'), ('< a p tag z > o', b'AAz')):
        out.append(Case(s, expect(files={'a': b'AA', 'b': b'b', 'o': want}, no_panic=True), 'read-only inputs', files={'a': 'AA', 'b': 'b'}, setup=ro('a', 'b'), collect=['a', 'b', 'o']))
    # names of every kind
    for nm in ('x.log', 'X', '.hidden', 'a-b', 'a.b.c', 'x~', '1', '12', 'é', 'x.txt', 'null', 'out', 'n' * 200):
        out.append(Case('p out 1 > %s; p out 2 >> %s; p out 3 >> %s; p tag z < %s' % ((nm,) * 4), expect(out='123z', files={nm: b'123'}, no_panic=True), 'names of every kind', collect=[nm]))
    return out


def pat(n):
    s = b'abcdefghijklmnopqrstuvwxyz0123456789'
    return (s * (n // 36 + 1))[:n]


def perms(d):
    import os
    for n, mode in (('ro', 0o444), ('wo', 0o222)):
        p = os.path.join(d, n)
        with open(p, 'w') as f:
            f.write('keep')
        os.chmod(p, mode)


def mk(files, want, ran):
    def chk(r):
        if r.timeout:
            return 'the script did not end'
        if r.out.encode() != want:
            return 'standard output %r, expected %r' % (r.out[:200], want[:200])
        for k, v in r.files.items():
            if v != files.get(k):
                return 'file %s holds %r, expected %r' % (k, v, files.get(k))
    return chk
