"""end-to-end cases: waiting for foreground pipelines and their status"""
from e2e.harness import Case, expect
RULE = 'scripts of foreground pipelines of 1 to 6 commands that end after random delays, in random order, with random statuses or by signals, with background jobs ending in between, from -c and from standard input; each command logs its end, so the log shows what the shell waited for, and && || ! and exit show the status; a case is distinct when its script or mode differs'
SIGS = (1, 2, 3, 4, 6, 8, 9, 10, 11, 12, 13, 14, 15, 24, 25, 31)


class S:
    """a script under construction and the log it must leave"""
    def __init__(self, rng):
        self.r, self.n = rng, 0
        self.groups = []      # list of sets of tags, in order
        self.bg = set()

    def tag(self):
        self.n += 1
        return 't%d' % self.n

    def pipeline(self, delays, signals=True):
        """-> (text, status or None when only 'not zero' is fixed, tags)"""
        r = self.r
        k = r.choice((1, 1, 2, 2, 3, 4, 6))
        cmds, tags, st = [], set(), 0
        for i in range(k):
            t = self.tag()
            tags.add(t)
            last = i == k - 1
            if signals and r.random() < (.25 if last else .12):
                s = r.choice(SIGS)
                cmds.append('p sg %d %s' % (s, t))
                st = None
            else:
                st = r.choice((0, 0, 1, 2, 126, 127, 128, 255, 42))
                cmds.append('p st %d %s %d' % (st, t, r.choice(delays)))
        return ' | '.join(cmds), st, tags


def check(groups, bg, rc):
    def chk(r):
        if r.timeout:
            return 'the script did not end'
        if 'panicked at' in r.err:
            return 'crash: ' + r.err[:200]
        log = [x for x in r.log if x not in bg]
        i = 0
        for g in groups:
            part = log[i:i + len(g)]
            if sorted(part) != sorted(g):
                return 'commands in the order %r: expected the group %r next, found %r' % (log, sorted(g), part)
            i += len(g)
        if log[i:]:
            return 'more commands than expected ran: %r' % (log[i:],)
        if rc is not None and r.rc != rc:
            return 'exit status %r, expected %r' % (r.rc, rc)
        if rc is None and r.rc == 0:
            return 'a last command killed by a signal counts as success'
    return chk


def cases(tier, rng):
    out = []
    big = tier != 'quick'
    # every status alone and last
    for c in range(0, 256, 1 if big else 5):
        out.append(Case('p st %d a; exit' % c, expect(log=['a'], rc=c), 'status'))
    for c in (0, 1, 7, 255):
        for d in (0, 1, 7, 255):
            out.append(Case('p st %d a 20 | p st %d b; exit' % (c, d), check([{'a', 'b'}], (), d), 'status of a pipeline'))
            out.append(Case('p st %d a | p st %d b 20; exit' % (c, d), check([{'a', 'b'}], (), d), 'status of a pipeline'))
            out.append(Case('p st %d a | p st 3 c 30 | p st %d b 10; exit\n' % (c, d), check([{'a', 'b', 'c'}], (), d), 'status of a pipeline', mode='stdin'))
    for s in SIGS:
        for m in ('c', 'stdin'):
            out.append(Case('p sg %d a && p st 0 b\np sg %d c || p st 5 d; exit\n' % (s, s), check([{'a'}, {'c'}, {'d'}], (), 5), 'killed by a signal', mode=m))
            out.append(Case('p st 0 z; p sg %d a; exit\n' % s, check([{'z'}, {'a'}], (), None), 'killed by a signal', mode=m))
            out.append(Case('p st 0 z 10 | p sg %d a; exit\n' % s, check([{'z', 'a'}], (), None), 'killed by a signal', mode=m))
            out.append(Case('p sg %d a | p st 0 b 10; exit\n' % s, check([{'a', 'b'}], (), 0), 'killed by a signal', mode=m))
            out.append(Case('p sg %d a | p st 4 b; exit\n' % s, check([{'a', 'b'}], (), 4), 'killed by a signal', mode=m))
    # random scripts
    for _ in range(260 if not big else 2500):
        m = rng.choice(('c', 'stdin'))
        s = S(rng)
        text, groups, st, bg = '', [], 0, set()
        items = rng.randint(1, 7)
        first = True
        i = 0
        lines = []
        while i < items:
            i += 1
            if rng.random() < .3:
                t = s.tag()
                bg.add(t)
                u = s.tag()
                bg.add(u)
                lines.append('p hang %d %s | p hang %d %s &' % (rng.choice((0, 5, 15, 40)), t, rng.choice((0, 5, 15, 40)), u) if rng.random() < .4 else 'p hang %d %s &' % (rng.choice((0, 5, 15, 40)), t))
                if u not in lines[-1].split():
                    bg.discard(u)
                continue
            chain, cur = '', None
            for j in range(rng.choice((1, 1, 2, 3))):
                neg = rng.random() < .15
                # the delay of a first process that ends last is the interesting case
                tx, stt, tags = s.pipeline(rng.choice(((0,), (0, 8, 20), (20, 0, 40))))
                op = None if cur is None else rng.choice(('&&', '||'))
                runs = op is None or (op == '&&') == (cur == 'ok')
                chain += ('' if op is None else ' %s ' % op) + ('! ' if neg else '') + tx
                if runs:
                    groups.append(tags)
                    ok = stt == 0
                    if neg:
                        ok, stt = not ok, 0 if not ok else 1
                    cur = 'ok' if ok else 'bad'
                    st = stt
            lines.append(chain)
        lines.append('exit')
        groups2 = groups
        t = '\n'.join(lines) + '\n'
        rc = st
        out.append(Case(t, check(groups2, bg, rc) if groups else check([], bg, 0), 'random scripts', mode=m, timeout=12))
    # a foreground pipeline with a process that stops: the shell goes on once the others have ended or stopped
    for m in ('c', 'stdin'):
        for t, g in (('p stopfor 250 a; p st 0 b', [{'a'}, {'b'}]), ('p stopfor 250 a | p st 0 c 40; p st 0 b', [{'a', 'c'}, {'b'}]), ('p st 1 c 40 | p stopfor 250 a; p st 0 b', [{'a', 'c'}, {'b'}]),
                     ('p stopfor 250 a | p stopfor 250 c | p st 0 d 30; p st 0 b', [{'a', 'c', 'd'}, {'b'}])):
            out.append(Case(t + '\n', check(g, (), 0), 'a process that stops', mode=m))
    # jobs brought to the foreground: the shell goes on once every process of it has ended, also those that had been stopped before
    for m in ('c', 'stdin'):
        for t, g in (('p stophang 5 a\nfg %1\np st 0 b', [{'a'}, {'b'}]), ('p stophang 5 a | p stophang 220 c\nfg %1\np st 0 b', [{'a', 'c'}, {'b'}]), ('p stophang 180 a | p stophang 5 c\nfg %1\np st 0 b', [{'a', 'c'}, {'b'}]),
                     ('p stophang 5 a | p stophang 100 c | p stophang 200 d\nfg %1\np st 0 b', [{'a', 'c', 'd'}, {'b'}]),
                     ('p stophang 5 a | p stophang 150 c\nbg %1\nfg %1\np st 0 b', [{'a', 'c'}, {'b'}]),
                     ('p hang 5 a | p hang 260 c &\np hang 90\nfg %1\np st 0 b', [{'a', 'c'}, {'b'}])):
            out.append(Case(t + '\n', check(g, (), 0), 'brought to the foreground', mode=m))
    # a pipeline in the background is not waited for, negated or not
    for m in ('c', 'stdin'):
        for t in ('! p hang 300 x &\np st 0 y\np hang 420 z', 'p hang 300 x &\np st 0 y\np hang 420 z', '! p st 0 w | p hang 300 x &\np st 0 y\np hang 420 z'):
            out.append(Case(t + '\n', lambda r: None if [l for l in r.log if l in ('x', 'y', 'z')] == ['y', 'x', 'z'] else 'commands %r' % r.log, 'in the background', mode=m))
    # many short pipelines while background jobs end
    for m in ('c', 'stdin'):
        n = 25 if not big else 120
        lines, groups = [], []
        for i in range(n):
            lines.append('p hang %d x &' % (i % 7))
            lines.append('p st %d f%d %d' % (i % 3, i, i % 5))
            lines.append('p st 0 g%d %d | p st %d h%d' % (i, i % 4, i % 2, i))
            groups += [{'f%d' % i}, {'g%d' % i, 'h%d' % i}]
        out.append(Case('\n'.join(lines) + '\nexit\n', check(groups, ('x',), (n - 1) % 2), 'many pipelines', mode=m, timeout=25))
    return out
