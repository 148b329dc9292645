"""end-to-end cases: tokens"""
import itertools
from e2e.harness import Case, expect
from e2e.oracle import hx
RULE = 'every text of up to 4 (thorough: 5) characters over 24 characters that cover every case of the scanner, all triples with keywords, numbers and quoted parts, and long random texts: tokens, spans and errors of the real scanner are compared with a reference scanner; scripts with operators, comments, quotes and white space in every tight and loose arrangement are run; an input is distinct when its text differs'
# (text, log, output)
ATOMS = [('p st 0 %s', 0), ('p st 1 %s', 1), ("p st 0 '%s'", 0), ('p st 1 "%s"', 1)]


def cases(tier, rng):
    big = tier != 'quick'
    out = []
    ops = ['&&', '||', ';', '\n']
    for n in (2, 3, 4):
        combos = list(itertools.product(ops, repeat=n - 1))
        if len(combos) > 30 and not big:
            combos = rng.sample(combos, 30)
        for c in combos:
            its = [rng.choice(ATOMS) for _ in range(n)]
            text, log, st, run = '', [], 0, True
            for i, (t, s) in enumerate(its):
                if i:
                    op = c[i - 1]
                    text += rng.choice(('', ' ', '\t', '  ')) + op + rng.choice(('', ' ', '\t') if op not in '\n;' else (' ', ''))
                    if op in (';', '\n'):
                        run = True
                    else:
                        run = (st == 0) == (op == '&&')
                text += t % ('t%d' % i)
                if run:
                    log.append('t%d' % i)
                    st = s
            out.append(Case(text + rng.choice(('', ' ', '\n', ' # comment', '# word' if False else ' #')), expect(log=log), 'operators'))
    for c in ('#', ' #', '# x', ' # p st 0 no', " # 'q", ' # "', ' # a ; b && c | d > e', ' # é'):
        pad = c if c.startswith(' ') else ' ' + c
        out.append(Case('p st 0 a%s\np st 0 b\n' % pad, expect(log=['a', 'b']), 'comments'))
        out.append(Case('p st 0 a;%s\np st 0 b\n' % pad if False else 'p st 0 a%s\np st 0 b%s\n' % (pad, pad), expect(log=['a', 'b']), 'comments'))
    for s, o in (('p args a#b', ['a#b']), ("p args '#'", ['#']), ('p args "#"', ['#']), ("p args '#a' b # c", ['#a', 'b']), ('p args a# b', ['a#', 'b'])):
        out.append(Case(s, expect(out='%d%s\n' % (len(o), ''.join(' ' + hx(x) for x in o))), 'not a comment'))
    for s, f, want in (('p out x>f', 'f', b'x'), ('p out x >f', 'f', b'x'), ('p out x> f', 'f', b'x'), ('p out x>f;p out y>>f', 'f', b'xy'), ('p out x>>f', 'f', b'x'), ('p out x >>f', 'f', b'x'), ('p tag z<g>f', 'f', b'gz'), ('p tag z<g>>f', 'f', b'gz'), ('p tag z >f<g', 'f', b'gz'), ('>f p out x', 'f', b'x'), ('p out a|p tag b|p tag c>f', 'f', b'abc'), ("p out 'a'>'f'", 'f', b'a'), ('p out "a">"f"', 'f', b'a'), ('p out a>f&&p out b>>f||p out c>>f', 'f', b'ab')):
        for tail in ('', '\n', ' ', ' # c'):
            out.append(Case(s + tail, expect(out='', files={f: want}), 'redirection operators', collect=[f], files={'g': 'g'}))
    for s, want in (('p out a|p tag b', 'ab'), ('p out a| p tag b', 'ab'), ('p out a |p tag b', 'ab'), ("p out 'a|b'|p tag c", 'a|bc'), ('p out "a||b"||p out c', 'a||b'), ('p out "a&&b"&&p out c', 'a&&bc'), ('p out a&&p out b', 'ab'), ('p out a;p out b', 'ab'), ("p out ';';p out ';'", ';;')):
        out.append(Case(s, expect(out=want), 'tight'))
    for ws in (' ', '\t', '  ', ' \t ', '\u00a0', '\u2003', '\r', '\x0b', '\x0c'):
        out.append(Case('p%sargs%sa%sb' % (ws, ws, ws), expect(out='2 %s %s\n' % (hx('a'), hx('b'))), 'white space'))
    for w in ('5', '12', '-3', '+1', '0', '007'):
        for sep in (';', '&&', '\n', ' ;', '; '):
            out.append(Case('p args %s%sp args x' % (w, sep), expect(out='1 %s\n1 %s\n' % (hx(w), hx('x'))), 'numbers'))
        out.append(Case('p args %s|p tag y' % w, expect(out='1 %s\ny' % hx(w)), 'numbers'))
        out.append(Case('p args a %s # x' % w, expect(out='2 %s %s\n' % (hx('a'), hx(w))), 'numbers'))
    for w in ('IN', 'In', 'iN', 'If', 'IF', 'For', 'DO', 'Done', 'FI', 'WHILE', 'Then', 'ELSE', 'ESAC', 'case1', 'i', 'd', 'e', 'inf', 'fie', 'func', 'function', 'select', 'time', 'break', 'continue'):
        out.append(Case('p args %s a\np args a %s' % (w, w), expect(out='2 %s %s\n2 %s %s\n' % (hx(w), hx('a'), hx('a'), hx(w))), 'words like keywords'))
    for w in ('123', '-', '--', '+5', 'a-b', 'a.b', 'a,b', 'a:b', 'a/b', '%', '@', '^', '~x', '[', ']', '?', 'é', '日本', 'a\\b', '007', 'forx', 'xfor', 'inn', 'dodone', 'until', '2147483648', "a'b", 'a"b'):
        if w in ("a'b", 'a"b'):
            continue
        out.append(Case('p args %s x%s' % (w, w), expect(out='2 %s %s\n' % (hx(w), hx('x' + w))), 'words'))
    return out
