"""end-to-end cases: quoting"""
import os
from e2e.harness import Case, expect
from e2e.oracle import hx
RULE = 'random commands of 1 to 8 words, each plain, single-quoted or double-quoted over an alphabet of every special character of the grammar, blanks and letters beyond ASCII, in every place a command can stand (alone, in lists, pipelines, functions, evaluated and sourced text, behind assignments and redirections): the arguments the command reports, byte by byte, are exactly the words; every one- and two-character quoted word over the special characters; a case is distinct when its script differs'
PLAIN = 'abcXYZ019_-+.,:/@%^~?[]\\é日#'
SPECIAL = ' \t\n;&|(){}<>!$`*=#~?[]\\/@%^+-.,:0aZé日\u00a0'
KEYWORDS = {'for', 'in', 'while', 'if', 'then', 'else', 'elif', 'fi', 'do', 'done', 'case', 'esac', 'until'}


def rw(rng, alpha, n):
    return ''.join(rng.choice(alpha) for _ in range(n))


def word(rng):
    """(text in the script, intended argument)"""
    k = rng.random()
    n = rng.choice((0, 1, 1, 2, 2, 3, 4, 6, 12))
    if k < .33:
        w = rw(rng, PLAIN, max(n, 1))
        if w[0] in '#~' or w in KEYWORDS:
            w = 'k' + w
        return w, w
    if k < .67:
        w = rw(rng, SPECIAL + '"', n)
        return "'" + w + "'", w
    w = rw(rng, SPECIAL.replace('$', '').replace('`', '') + "'", n)
    return '"' + w + '"', w


def cases(tier, rng):
    big = tier != 'quick'
    out = []
    for i in range(700 if not big else 12000):
        ws = [word(rng) for _ in range(rng.choice((1, 1, 2, 3, 4, 8)))]
        sep = rng.choice((' ', '  ', '\t', ' \t '))
        cmd = 'p args ' + sep.join(w for w, _ in ws)
        want = '%d%s\n' % (len(ws), ''.join(' ' + hx(a) for _, a in ws))
        k = i % 8
        if k == 0:
            s = cmd
        elif k == 1:
            s = cmd + ' | p tag ""'
        elif k == 2:
            s = 'f() { %s; }; f' % cmd
        elif k == 3:
            s = '. ./src'
        elif k == 4:
            s = 'A=1 %s' % cmd
        elif k == 5:
            s = '%s && p st 0 x' % cmd
        elif k == 6:
            s = 'p st 0 y; %s; p st 0 x' % cmd
        else:
            s = '%s > out; p io < out' % cmd
        if k == 7:
            out.append(Case('%s > out' % cmd, expect(out='', files={'out': want.encode()}), 'redirected', collect=['out']))
            continue
        out.append(Case(s, expect(out=want), ('alone', 'pipeline', 'function', 'sourced', 'assignment in front', 'list', 'list', '')[k], files={'src': cmd + '\n'} if k == 3 else None))
    for a in SPECIAL + '"':
        for b in [''] + list(SPECIAL + '"'):
            if b and not big and rng.random() > .25:
                continue
            out.append(Case("p args '%s'" % (a + b), expect(out='1 %s\n' % hx(a + b)), 'single quotes'))
            if (a + b).strip('\n') == a + b and set(a + b) & set('(){}[]'):
                out.append(Case("p args '%s'\np args b\n" % (a + b), expect(out='1 %s\n1 %s\n' % (hx(a + b), hx('b'))), 'brackets in single quotes, line of standard input', mode='stdin'))
    dq = SPECIAL.replace('$', '').replace('`', '') + "'"
    for a in dq:
        for b in [''] + list(dq):
            if b and not big and rng.random() > .25:
                continue
            out.append(Case('p args "%s" z' % (a + b), expect(out='2 %s %s\n' % (hx(a + b), hx('z'))), 'double quotes'))
            if set(a + b) & set('(){}[]') and '\n' not in a + b:
                out.append(Case('p args "%s"\np args b\n' % (a + b), expect(out='1 %s\n1 %s\n' % (hx(a + b), hx('b'))), 'brackets in double quotes, line of standard input', mode='stdin'))
    # the value of a variable is one argument, and nothing in it is taken for a quote or run
    vals = ["'a'", '"a"', "'", '"', "''", '""', "'q", 'q"', 'a b', ' a ', '', '"$(p st 0 no)"', '`p st 0 no`', '$(p st 0 no)', '"`p st 0 no`"', "'$(p st 0 no)'", '$HOME', '$V0', "it's", 'a=b', '&', '|', ';', '>', '#', '-n', '*', '\t', 'a\nb', 'é', '\\', '()']
    for _ in range(120 if not big else 1500):
        vs = [rng.choice(vals) if rng.random() < .6 else word(rng)[1] if isinstance(word(rng), tuple) else ''.join(rng.choice('ab \'"$`') for _ in range(rng.randint(0, 6))) for _ in range(rng.choice((1, 1, 2, 3)))]
        env = {'V%d' % i: v for i, v in enumerate(vs)}
        names = ['$V%d' % i for i in range(len(vs))]
        row = lambda ws: '%d %s\n' % (len(ws), ' '.join(hx(x) for x in ws))
        cmd = 'p args l %s r' % ' '.join(names)
        want = row(['l'] + vs + ['r'])
        k = rng.randint(0, 5)
        if k == 0:
            out.append(Case(cmd + '\n', expect(out=want, log=[]), 'values', env=env, mode=rng.choice(('c', 'stdin'))))
        elif k == 1:
            out.append(Case('f() { p args l %s r; }\nf %s\n' % (' '.join('$%d' % (i + 1) for i in range(len(vs))), ' '.join(names)), expect(out=want, log=[]), 'values as arguments of a function', env=env))
        elif k == 2:
            out.append(Case('\n'.join('W%d=$V%d' % (i, i) for i in range(len(vs))) + '\np args l %s r\n' % ' '.join('$W%d' % i for i in range(len(vs))), expect(out=want, log=[]), 'values given to variables', env=env))
        elif k == 3:
            out.append(Case('A=$V0 p envval A\n' if False else 'export A=1\nA=$V0 p env t A\n', lambda r, v=vs[0]: None if not r.timeout and any(hx(v) in l or repr(v) in l or v in l for l in r.log) else 'logged %r' % r.log, 'values in the environment', env=env) if '\n' not in vs[0] and vs[0] else Case(cmd, expect(out=want, log=[]), 'values', env=env))
        elif k == 4:
            out.append(Case('p st 0 a; %s | p tag ""; p st 0 b' % cmd, expect(out=want, log=['a', 'b']), 'values in a pipeline', env=env))
        else:
            out.append(Case("alias al='p args l'\nal %s r\n" % ' '.join(names), expect(out=want, log=[]), 'values behind an alias', env=env))
    # the name of the command is a word like any other
    def named(n):
        def f(d):
            p = os.path.join(d, n)
            with open(p, 'w') as h:
                h.write('#!/bin/sh\nexec p args "$@"\n')
            os.chmod(p, 0o755)
        return f
    for i in range(120 if not big else 1200):
        q = rng.choice(("'", '"', ''))
        n = rw(rng, (SPECIAL + '"' if q == "'" else SPECIAL.replace('$', '').replace('`', '') + "'" if q == '"' else PLAIN).replace('/', ''), rng.choice((1, 2, 3, 3, 6)))
        if rng.random() < .2 and q == "'":
            n = rng.choice(('"$(p st 0 no)"', '"a b"', '`p st 0 no`', '"', '""', ' a', 'a  b', 'a\tb', '$HOME', '"a', 'a "b c" d'))
        n = 'k' + n if q == '' or n in ('.', '..') else n
        ws = [word(rng) for _ in range(rng.choice((0, 1, 1, 3)))]
        cmd = '%s./%s%s%s' % (q, n, q, ''.join(' ' + w for w, _ in ws))
        if rng.random() < .5:
            cmd = 'f() { %s; }; f; p st 0 x' % cmd
        out.append(Case(cmd, expect(out='%d%s\n' % (len(ws), ''.join(' ' + hx(a) for _, a in ws)), log=['x'] if cmd.startswith('f()') else []), 'the name of the command', setup=named(n)))
    return out
