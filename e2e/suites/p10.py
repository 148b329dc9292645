"""end-to-end cases: function calls"""
from e2e.harness import Case, expect
from e2e import oracle
from e2e.oracle import hx
RULE = 'random programs of nested function definitions and calls (up to 6 deep, with failing commands, evaluated and sourced text, redefinition and recursion through other functions), compared with the reference interpreter; argument lists of 0 to 30 words; calls in every context; a case is distinct when its script differs'
W = dict(call=7, showpos=5, args=1, show=1, assign=2, unset=.4, eval=.6, source=.3, fail=1.2, st=1, unsetf=.5, readonly=.2)
W['def'] = 6


def cases(tier, rng):
    big = tier != 'quick'
    out = oracle.programs(rng, 900 if not big else 12000, W, 'random programs', depth=3)
    out += oracle.programs(rng, 100 if not big else 1500, W, 'long programs', maxlen=35, depth=3)
    for n in list(range(0, 13)) + [20, 30]:
        args = ['a%d' % i if i % 4 else "'b %d'" % i for i in range(n)]
        plain = [a.strip("'") for a in args]
        m = max(n, 3)
        ref = ' '.join('$%d' % (i + 1) for i in range(m) if i < 9 or True)
        want = '%d %s\n' % (m, ' '.join(hx(plain[i]) if i < n else hx('$%d' % (i + 1)) for i in range(m)))
        out.append(Case('f() { p args %s; }\nf %s\n' % (ref, ' '.join(args)), expect(out=want), 'argument lists'))
        out.append(Case('f() { p args $1 $2; }\ng() { f x y; p args %s; f z; p args %s; }\ng %s\np args $1\n' % (ref, ref, ' '.join(args)),
                        expect(out='2 %s %s\n' % (hx('x'), hx('y')) + want + '2 %s %s\n' % (hx('z'), hx('$2') if n < 2 else hx(plain[1])) + want + '1 %s\n' % hx('$1')), 'the caller keeps its own'))
    for where in range(4):
        for e in ('""', "''"):
            args = ['a', 'b', 'c', 'd']
            args[where] = e
            got = [hx(a.strip('"\'')) for a in args]
            out.append(Case('f() { p args $1 $2 $3 $4 $5; }\nf %s\n' % ' '.join(args),
                            expect(out="5 %s\n" % " ".join(got + [hx("$5")])), "empty arguments"))
            out.append(Case('f() { p args $1 $2 $3 $4 $5; }\ng() { f $1 $2 $3 $4; }\ng %s\n' % ' '.join(args),
                            expect(out="5 %s\n" % " ".join(got + [hx("$5")])), "empty arguments passed on"))
    for n in (99, 100, 101, 130, 300):
        ks = sorted({1, 2, 9, 10, 11, 99, 100, 101, n, n + 1, n - 99, n - 100} - {0})
        ks = [k for k in ks if k > 0]
        want = '%d %s\n' % (len(ks), ' '.join(hx('a%d' % k) if k <= n else hx('$%d' % k) for k in ks))
        out.append(Case('f() { p args %s; }\nf %s\n' % (' '.join('$%d' % k for k in ks), ' '.join('a%d' % (k + 1) for k in range(n))), expect(out=want), 'long argument lists'))
    # nested calls
    for d in (5, 15, 30, 60, 120):
        s = ''.join('f%d() { p args $1; V%d=x; f%d b%d; p args $1 $V%d; }\n' % (k, k, k + 1, k, k + 1) for k in range(d))
        s += 'f%d() { p args $1; V%d=y; }\nf0 top\np args $1 $V0\n' % (d, d)
        par = lambda k: hx('top' if k == 0 else 'b%d' % (k - 1))
        want = ''.join('1 %s\n' % par(k) for k in range(d + 1)) + ''.join('2 %s %s\n' % (par(k), hx('$V%d' % (k + 1))) for k in range(d - 1, -1, -1)) + '2 %s %s\n' % (hx('$1'), hx('$V0'))
        out.append(Case(s, expect(out=want), 'nested calls', timeout=20))
    # the name of the function
    for a in ('', ' x', ' x y'):
        out.append(Case('g() { p args $0; }\nf() { p args $0; g; g z; p args $0; }\nf%s\n' % a, expect(out=''.join('1 %s\n' % hx(c) for c in 'fggf')), 'the name'))
    # arguments that begin like an operator
    for w in ("'&'", '"&"', "'&x'", '"&"x' if False else '"&&"', "'|'", "';'", '"&1"'):
        out.append(Case('f() { p args $1 $2 $3; }\nf a %s b\n' % w, expect(out='3 %s %s %s\n' % (hx('a'), hx(w[1:-1]), hx('b'))), 'operators as arguments'))
    # a script sourced with arguments inside a function
    for n in range(4):
        for a in range(4):
            args, pars = ['s%d' % i for i in range(a)], ['c%d' % i for i in range(n)]
            pos = lambda got: '3 %s\n' % ' '.join(hx(got[i]) if i < len(got) else hx('$%d' % (i + 1)) for i in range(3))
            show = 'p args $1 $2 $3'
            seen = args + pars[a:]
            outer = ['o0', 'o1']
            mix = [seen[i] if i < len(seen) else outer[i] for i in range(max(len(seen), 2))]
            out.append(Case('f() { . ./src %s; %s; }\ng() { f %s; %s; }\ng o0 o1\n%s\n' % (' '.join(args), show, ' '.join(pars), show, show),
                            expect(out=pos(mix) + pos(mix) + pos(outer) + pos([])), 'sourced with arguments', mode='stdin', files={'src': show}))
    # export context evaluates a file in a scope of its own, also when its commands fail
    for i, (text, fails) in enumerate((('V=1\n', 0), ('cd /nonexistent\n', 1), ('V=1; cd /nonexistent\n', 1), ('V=1; p st 1 q\n', 0), ('f() { p st 0 q; }; f z; unalias\n', 1))):
        for d in (1, 3):
            s = ''.join('f%d() { f%d i%d; p args $1; }\n' % (k, k + 1, k) for k in range(1, d))
            s += 'h() { export context "ns=./ctx"; L=yes; }\nf%d() { h x y; p args $1 $L; L=inn; }\nL=0; f1 top; p args $1 $L; f1 again; p args $1 $L\n' % d
            one = lambda top, l: ('2 %s %s\n' % (hx(top if d == 1 else 'i%d' % (d - 1)), hx(l))) + ''.join('1 %s\n' % hx(top if k == 1 else 'i%d' % (k - 1)) for k in range(d - 1, 0, -1)) + '2 %s %s\n' % (hx('$1'), hx('inn'))
            out.append(Case(s, expect(out=one('top', '0' if fails else 'yes') + one('again', 'inn' if fails else 'yes')), 'export context', mode='stdin', files={'ctx': text}))
    # failing body
    for fail in ('cd /nonexistent', 'exec', 'unalias', 'unset'):
        for d in (1, 2, 4):
            s = ''
            for i in range(d, 0, -1):
                inner = fail if i == d else 'f%d i%d' % (i + 1, i)
                s += 'f%d() { p args $1; %s; p args after$1; L=%d; }\n' % (i, inner, i)
            s = s.replace('after$1', '$1')
            s += 'L=0; f1 top; p args $1 $L; f1 again; p args $1 $L\n'
            seq = []
            for a in ('top', 'again'):
                for i in range(1, d + 1):
                    seq.append(hx(a if i == 1 else 'i%d' % (i - 1)))
                # the innermost body stops at the failing command; the callers go on
                for i in range(d - 1, 0, -1):
                    seq.append(hx(a if i == 1 else 'i%d' % (i - 1)))
                seq.append(None)
            want = ''
            L = '0'
            for x in seq:
                if x is None:
                    L = '1' if d > 1 else '0'
                    want += '2 %s %s\n' % (hx('$1'), hx(L))
                else:
                    want += '1 %s\n' % x
            for m in ('c', 'stdin'):
                def chk(r, want=want):
                    if r.timeout or 'panicked at' in r.err:
                        return 'crash or no end ' + r.err[:200]
                    got = ''.join(l + '\n' for l in r.out.split('\n') if l[:2] in ('1 ', '2 '))
                    return None if got == want else 'arguments %r, expected %r' % (got, want)
                out.append(Case(s, chk, 'a command of the body fails', mode=m))
    # contexts
    body = 'f() { p args $1 $2; p st 0 inn; p args $1 $2; }\n'
    w = '2 %s %s\n' % (hx('x'), hx('y')) * 2
    for pre, post, times in (('', '', 1), ('true && ', '', 1), ('p st 1 q || ', '', 1), ('', ' && f x y', 2), ("eval '", "'", 1), ('! ', '', 1), ('cd . ; ', '; cd .', 1)):
        if pre.startswith('true'):
            pre = 'p st 0 q && '
        out.append(Case(body + pre + 'f x y' + post + '\np args $1\n', expect(out=w * times + '1 %s\n' % hx('$1')), 'contexts'))
    # positional parameters of the shell itself
    out.append(Case('f() { p args $1 $2 $3; }\n. ./s a b\n', expect(out='3 %s %s %s\n3 %s %s %s\n' % tuple(hx(x) for x in ('q', 'b', '$3', 'a', 'b', '$3'))), 'sourced', files={'s': 'f q\np args $1 $2 $3\n'}))
    # a function that defines and calls others, redefinition while running
    out.append(Case('f() { f() { p args new $1; }; p args old $1; f inn; p args old $1; }\nf out\nf second\n', expect(out=''.join('2 %s %s\n' % (hx(a), hx(b)) for a, b in (('old', 'out'), ('new', 'inn'), ('old', 'out'), ('new', 'second')))), 'redefinition'))
    # background
    out.append(Case('f() { p args $1; p args $1; }\nf x &\np hang 80\np args $1\n', lambda r: None if sorted(l for l in r.out.split('\n') if l[:2] == '1 ') == sorted(['1 ' + hx('x')] * 2 + ['1 ' + hx('$1')]) else 'output %r' % r.out, 'background'))
    return out
