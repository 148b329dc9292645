"""end-to-end cases: and-or chains"""
import itertools
from e2e.harness import Case, expect
RULE = 'every chain of up to 4 (thorough: 6) pipelines over both operators and the statuses 0 and 1 is run and the commands that ran, and the final status, are compared with the left-associative short-circuit rule; random longer chains with !, pipes, other statuses, signals, newlines, redirections and builtins; a case is distinct when its script differs'


def chain(items, ops, neg=()):
    """items: statuses -> (log, status)"""
    log, st = [], None
    for i, s in enumerate(items):
        if i:
            if ops[i - 1] == '&&' and st != 0:
                continue
            if ops[i - 1] == '||' and st == 0:
                continue
        log.append('c%d' % i)
        st = s
        if i in neg:
            st = 0 if s != 0 else 1
    return log, st


def cases(tier, rng):
    out = []
    top = 4 if tier == 'quick' else 6
    for n in range(1, top + 1):
        for ops in itertools.product(('&&', '||'), repeat=n - 1):
            for sts in itertools.product((0, 1), repeat=n):
                log, st = chain(sts, ops)
                s = ' '.join((ops[i - 1] + ' ' if i else '') + 'p st %d c%d' % (c, i) for i, c in enumerate(sts))
                out.append(Case(s + '; exit', expect(log=log, rc=st), 'all chains'))
    # every status decides
    for base in range(0, 256, 32):
        sts = list(range(base, base + 32))
        s = '; '.join('p st %d a%d && p st 0 y%d; p st %d b%d || p st 0 n%d; ! p st %d c%d && p st 0 m%d' % (c, c, c, c, c, c, c, c, c) for c in sts)
        log = [x for c in sts for x in ['a%d' % c] + ['y%d' % c] * (c == 0) + ['b%d' % c] + ['n%d' % c] * (c != 0) + ['c%d' % c] + ['m%d' % c] * (c != 0)]
        out.append(Case(s, expect(log=log), 'every status', timeout=20))
    for _ in range(250 if tier == 'quick' else 1500):
        n = rng.randint(2, 9)
        ops = [rng.choice(('&&', '||')) for _ in range(n - 1)]
        sts, parts, neg, logs = [], [], set(), {}
        for i in range(n):
            k = rng.random()
            c = rng.choice((0, 0, 0, 1, 1, 2, 3, 126, 255))
            if k < .6:
                w = 'p st %d c%d' % (c, i)
            elif k < .7:
                w, c = 'p sg %d c%d' % (9, i), 137
            elif k < .8:
                w = 'p st %d x%d | p st %d c%d' % (rng.choice((0, 1)), i, c, i)
                logs[i] = 2
            elif k < .9:
                w = 'p st %d c%d > f%d' % (c, i, i)
            elif k < .94:
                w = 'A=b p st %d c%d' % (c, i)
            else:
                # succeeds without starting a process
                w, c = rng.choice(('cd .', 'alias q=w', 'Z=1', 'export E=1', 'readonly K', 'unset Z', 'g() { p st 0 no; }')), 0
                logs[i] = 0
            if rng.random() < .25:
                neg.add(i)
                w = '! ' + w
            parts.append(w)
            sts.append(c)
        log, st = chain(sts, ops, neg)
        s = parts[0]
        for i in range(1, n):
            s += ' ' + ops[i - 1] + rng.choice((' ', '  ', ' ', '\n')) + parts[i]
        log = [x for x in log if logs.get(int(x[1:])) != 0]
        if 0 in logs.values():
            # the status that counts is the one the next pipeline sees
            s = 'p st %d q\n' % rng.choice((0, 1, 5)) + s + ' && p st 0 c%d || p st 1 c%d' % (n, n + 1)
            log.append('c%d' % (n if st == 0 else n + 1))
            parts.extend(['', ''])
            want_q = True
            st = 0 if st == 0 else 1
        tail = rng.choice(('; exit', '\nexit', '; exit'))
        created = ['f%d' % i for i in range(n)]
        want = set(log)

        def chk(r, log=log, st=st, parts=parts, want=want, created=created):
            if r.timeout:
                return 'the script did not end'
            if 'panicked' in r.err:
                return 'crash: ' + r.err[:200]
            got = [x for x in r.log if x.startswith('c')]
            if got != log:
                return 'commands run %r, expected %r' % (got, log)
            for x in r.log:
                if x.startswith('x') and 'c' + x[1:] not in want:
                    return 'a skipped pipeline ran: %r' % (r.log,)
            if r.rc != st:
                return 'final status %r, expected %r' % (r.rc, st)
            for i, f in enumerate(created):
                has = r.files.get(f) is not None
                if has != ('> ' + f in parts[i] and 'c%d' % i in want):
                    return 'file %s of pipeline %d: exists=%r' % (f, i, has)
        out.append(Case(s + tail, chk, 'random chains', collect=created))
    # pipelines that do not start a process
    quiet = [('alias q=w', 0), ('Z=1', 0), ('cd /', 0), ('export E=1', 0)]
    for (w, _), op, c in itertools.product(quiet, ('&&', '||'), (0, 1)):
        out.append(Case('p st %d c0; %s %s p st 0 c1' % (c, w, op), expect(log=['c0'] + (['c1'] if op == '&&' else [])), 'builtins'))
        log = ['c0'] + (['c1'] if (op == '&&') == (c == 0) else [])
        out.append(Case('p st %d c0 %s cd / && p st 0 c1' % (c, op), expect(log=['c0', 'c1'] if True and (op == '&&') == (c == 0) or (op == '||' and c == 0) else ['c0']), 'builtins'))
    # skipped pipelines have no effect
    for w, probe_, shows in (('V=new', 'p args $V', '1 x6f6c64\n'), ('alias p=none', 'p args ok', '1 x6f6b\n'), ('export V=new', 'p args $V', '1 x6f6c64\n'), ('unset V', 'p args $V', '1 x6f6c64\n'),
                             ('exit 7', 'p args ok', '1 x6f6b\n'), ('cd /', 'p cwd', None), ('p st 0 t &', 'p args ok', '1 x6f6b\n'), ('p out x > g', 'p args ok', '1 x6f6b\n')):
        for a, op in (('p st 1', '&&'), ('p st 0', '||'), ('! p st 0', '&&'), ('! p st 1', '||')):
            sc = 'V=old\n%s %s %s\n%s' % (a, op, w, probe_)
            if shows is None:
                out.append(Case(sc, lambda r: None if '@D@' in (r.out + ''.join(r.log)) else 'a skipped cd changed the directory: %r' % r.out, 'skipped'))
            else:
                out.append(Case(sc, expect(out=shows, log=[], files={'g': None}), 'skipped', collect=['g']))
    return out
