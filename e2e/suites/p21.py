"""end-to-end cases: exit"""
from e2e.harness import Case, expect
from e2e import oracle
RULE = 'exit with every number from -300 to 600 and numbers at the ends of the machine ranges, without a number after pipelines of every status (also killed by a signal), with arguments that are not numbers, at every place of a script (alone, in lists, in functions, in evaluated and sourced text, behind && and ||, from the standard input), with commands after it that must not run and commands before it that must; random programs with exit are compared with the reference interpreter; a case is distinct when its script differs'
W = dict(assign=1, st=5, exit=3, call=2.5, eval=2, source=2, args=.5, fail=.5, export=.3)
W['def'] = 2


def cases(tier, rng):
    big = tier != 'quick'
    out = oracle.programs(rng, 600 if not big else 9000, W, 'random programs')
    nums = list(range(-300, 601)) if big else list(range(-20, 40)) + [63, 64, 100, 126, 127, 128, 129, 130, 137, 200, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513, 600, -100, -128, -129, -255, -256, -257]
    nums += [1000, 65535, 65536, 65537, 2147483647, 2147483646, -2147483648, -2147483647]
    for n in nums:
        if n < 0:
            txt = '%d' % n
        else:
            txt = '%d' % n
        for i, (s, log) in enumerate((('p st 3 a\nexit %s\np st 0 no\n' % txt, ['a']), ('exit %s; p st 0 no' % txt, []), ('f() { exit %s; p st 0 no; }; f; p st 0 no' % txt, []))):
            if i and not big and n % 3:
                continue
            out.append(Case(s, expect(log=log, rc=n % 256), 'numbers', mode='c' if i != 0 or n % 2 else 'stdin'))
    # without a number: the status of the last foreground pipeline
    for c in (0, 1, 2, 3, 77, 126, 127, 128, 254, 255):
        for s, w in (('p st %d a\nexit\np st 0 no\n', c), ('p st %d a; exit; p st 0 no\n', c), ('p st 9 b | p st %d a\nexit\n', c), ('p st 1 b; p st %d a\nX=1\nexit\n', c), ('f() { p st %d a; }; f; exit', 0), ('f() { p st %d a; exit; p st 0 no; }; f; p st 0 no', c), ("p st %d a; eval 'exit'; p st 0 no", c), ('p st %d a\n. ./src\np st 0 no\n', c), ('p st 0 z && p st %d a\nexit\n', c), ('p st 1 z || p st %d a\nexit\n', c), ('p st %d a\ncd .\nexport X=1\nexit\n', c), ('p st %d a\nexit ; exit 9\n', c)):
            s = s % c
            for m in ('c', 'stdin'):
                if m == 'stdin' and not s.endswith('\n'):
                    s += '\n'
                out.append(Case(s, lambda r, c=w: 'exit status %r, expected %d' % (r.rc, c) if r.rc != c else 'ran on: %r' % r.log if 'no' in r.log or 'a' not in r.log else None, 'status of the last pipeline', mode=m, files={'src': 'exit\np st 0 no\n'}))
    for sig in (1, 2, 3, 9, 10, 15):
        for m in ('c', 'stdin'):
            out.append(Case('p sg %d a\nexit\np st 0 no\n' % sig, lambda r: 'exit status %r' % r.rc if r.rc in (0, None) else 'ran on: %r' % r.log if r.log != ['a'] else None, 'killed by a signal', mode=m))
    # not a number: no crash, and the shell goes on or ends without running anything twice
    for a in ('abc', '1a', 'a1', "''", '""', '1.5', '-', '--', '+', '-x', '0x10', "' 1'", "'1 2'", '99999999999999999999', '-99999999999999999999', '2147483648', '4294967296', 'é', '$NOSUCH', '/', "'exit'", '1-1', '--1'):
        for s in ('p st 0 a\nexit %s\n', 'p st 0 a; exit %s', "p st 0 a; eval 'exit %s'" if "'" not in a else 'p st 0 a; exit %s', 'f() { exit %s; }; p st 0 a; f', 'p st 0 a && exit %s', 'p st 0 a; exit %s more', 'p st 0 a; return %s', 'f() { return %s; }; p st 0 a; f'):
            for m in ('c', 'stdin'):
                t = s % a
                if m == 'stdin':
                    t = t.rstrip('\n') + '\nexit 5\n'
                out.append(Case(t, lambda r: 'crash: ' + r.err[:200] if 'panicked' in r.err or r.rc in (101, 134) or r.rc is not None and r.rc < 0 else 'the shell did not end' if r.timeout else 'commands %r' % r.log if r.log != ['a'] else None, 'not a number', mode=m))
    # at every place of a script
    for n in (1, 2, 5, 9):
        for k in range(n):
            for how, st in (('exit 7', 7), ("eval 'exit 7'", 7), ('. ./src', 7), ('f', 7), ('p st 0 z && exit 7', 7), ('p st 1 z || exit 7', 7), ('X=7; exit $X', 7), ('g', 7), ("exit '7'", 7), ('exit "7"', 7), ("alias e='x'; exit 7", 7), ('h', 7), ('exit 007', 7), ('exit +7', 7)):
                for sep in ('\n', '; '):
                    ls = ['p st %d t%d' % (i % 2, i) for i in range(n)]
                    log = ['t%d' % i for i in range(k)] + (['z'] if ' z ' in how else [])
                    ls[k:k] = [how]
                    s = 'f() { exit 7; }\ng() { f; p st 0 no; }\nh() { p st 0 no2 > /dev/null; exit 7; }\n' + sep.join(ls) + '\nexit 99\n'
                    if how == 'h':
                        log = log + ['no2']
                    out.append(Case(s, expect(log=log, rc=st), 'places', mode=rng.choice(('c', 'stdin')), files={'src': 'exit 7\np st 0 no\n'}))
    return out
