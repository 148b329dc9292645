"""end-to-end cases: the job table"""
import re
import resource
from e2e.harness import Case
RULE = 'histories of background jobs (1 to 3 processes, random lifetimes), stopped jobs, foreground pipelines and listings of the jobs; each start line and each listing is compared with the set of jobs that are alive by construction: distinct identifiers, every live job listed once under its identifier with its state, identifiers unchanged; a case is distinct when its script or mode differs'
START = re.compile(r'^\[(\d+)\] \((-?\d+)\) (.*)$')
LIST = re.compile(r'^\[(\d+)\] \+ (Running|Stopped|Done|Waiting) (.*)$')


def check(events):
    """events in order: ('start', name, live names before), ('list', {name: state} required, names that may be there as well)"""
    def chk(r):
        if r.timeout:
            return 'the script did not end'
        if 'panicked at' in r.err:
            return 'crash: ' + r.err[:200]
        lines = [l for l in r.out.split('\n') if l.startswith('[') or l.startswith('---')]
        ids = {}
        pos = 0
        cur = None
        for ev in events:
            if ev[0] == 'start':
                while pos < len(lines) and not START.match(lines[pos]):
                    pos += 1
                if pos == len(lines):
                    return 'no line announces the job %s: %r' % (ev[1], lines)
                m = START.match(lines[pos])
                pos += 1
                i = int(m.group(1))
                for n in ev[2]:
                    if ids.get(n) == i:
                        return 'job %s got identifier %d of the live job %s' % (ev[1], i, n)
                if int(m.group(2)) <= 1:
                    return 'job %s announced with process id %s' % (ev[1], m.group(2))
                ids[ev[1]] = i
            elif ev[0] == 'list':
                while pos < len(lines) and lines[pos] != '---' + ev[3]:
                    pos += 1
                pos += 1
                got = {}
                while pos < len(lines) and LIST.match(lines[pos]):
                    m = LIST.match(lines[pos])
                    i = int(m.group(1))
                    if i in got:
                        return 'identifier %d listed twice' % i
                    got[i] = m.group(2)
                    pos += 1
                for n, st in ev[1].items():
                    if n in ids:
                        if got.get(ids[n]) != st:
                            return 'job %s (identifier %d) is %s, listed as %s: %r' % (n, ids[n], st, got.get(ids[n]), lines)
                    else:
                        # a stopped foreground job: its identifier is learned from the listing
                        cand = [i for i, s in got.items() if s == st and i not in ids.values()]
                        if not cand:
                            return 'job %s is %s but not listed: %r' % (n, st, lines)
                        ids[n] = cand[0]
                extra = {i: s for i, s in got.items() if i not in {ids[n] for n in ev[1]}}
                known = {ids[n] for n in ids if n not in ev[1]}
                if any(s != 'Done' and (ev[2] or i not in known) for i, s in extra.items()):
                    return 'listed but not alive: %r in %r' % (extra, lines)
        return None
    return chk


def cases(tier, rng):
    out = []
    big = tier != 'quick'
    for _ in range(110 if not big else 900):
        m = rng.choice(('c', 'stdin', 'stdin'))
        lines, ev, live, mark = [], [], {}, 0
        n = 0
        for _ in range(rng.randint(2, 9)):
            k = rng.random()
            if k < .42:
                n += 1
                nm = 'j%d' % n
                procs = rng.choice((1, 1, 2, 3))
                ds = [rng.choice((700, 800, 900)) for _ in range(procs)]
                short = rng.random() < .3
                if short:
                    ds = [rng.choice((0, 1)) for _ in range(procs)]
                elif procs > 1 and rng.random() < .5:
                    ds[rng.randrange(procs)] = 1
                lines.append(' | '.join('p hang %d' % d for d in ds) + ' &')
                ev.append(('start', nm, list(live)))
                if not short:
                    live[nm] = 'Running'
            elif k < .6:
                lines.append(rng.choice(('p st 0 f', 'p st 1 f 10', 'p st 0 a | p st 0 b 15', 'X=1', 'p hang 25', 'p sg 9 x')))
            elif k < .72:
                n += 1
                lines.append(rng.choice(('p stopfor 800 s', 'p stopfor 800 s', 'p stopfor 800 s | p stopfor 800 u')))
                live['s%d' % n] = 'Stopped'
                mark += 1
                lines.append('p print ---%d' % mark)
                lines.append('jobs')
                ev.append(('list', dict(live), None, str(mark)))
            else:
                mark += 1
                lines.append('p print ---%d' % mark)
                lines.append('jobs')
                ev.append(('list', dict(live), None, str(mark)))
        mark += 1
        lines += ['p hang 60', 'p print ---%d' % mark, 'jobs']
        ev.append(('list', dict(live), True, str(mark)))
        if any(v == 'Stopped' for v in live.values()) and sum(v == 'Stopped' for v in live.values()) > 3:
            continue
        out.append(Case('\n'.join(lines) + '\n', check(ev), 'histories', mode=m))
    # short jobs, one after another: nothing is left behind where the shell is told about ended children
    def gone(r):
        if r.timeout or 'panicked at' in r.err:
            return 'crash or no end: ' + r.err[:200]
        left = [l for l in r.out.split('---')[-1].split('\n') if LIST.match(l) and 'Running' in l]
        return 'still listed as running: %r' % left if left else None
    for k in (1, 2, 5):
        for procs in (1, 2, 3):
            s = ''.join(' | '.join(['p hang %d' % d for d in range(procs)]) + ' &\n' for _ in range(k)) + 'p hang 60\np hang 1\np print ---\njobs\n'
            for m in ('c', 'stdin'):
                out.append(Case(s, gone, 'ended jobs', mode=m))
    # a job that ends in the foreground is gone, however it ends
    def none(r):
        if r.timeout or 'panicked at' in r.err:
            return 'crash or no end: ' + r.err[:200]
        if '---' not in r.out or r.log[-1:] != ['end']:
            return 'the script did not complete'
        left = [l for l in r.out.split('---')[-1].split('\n') if l.strip()]
        return 'listed after its end: %r' % left if left else None
    for sig in ('', ' 9', ' 15', ' 6', ' 1'):
        for job in ('p stophang 5 a%s', 'p stophang 60 a%s', 'p stophang 5 b | p stophang 40 a%s', 'p stophang 40 a%s | p stophang 5 b'):
            for m in ('c', 'stdin'):
                out.append(Case(job % sig + '\nfg %1\np print ---\njobs\np st 0 end\n', none, 'ended in the foreground', mode=m))
    # a job ends while a later one lives: the next one gets an identifier of its own
    for m in ('c', 'stdin'):
        for early in (1, 2, 3):
            lines, ev, live = [], [], {}
            for i in range(early):
                lines.append('p hang 5 &')
                ev.append(('start', 'e%d' % i, list(live)))
            for i in range(2):
                lines.append('p hang 900 &')
                ev.append(('start', 'l%d' % i, list(live)))
                live['l%d' % i] = 'Running'
            lines += ['p hang 60', 'p st 0 f']
            for i in range(3):
                lines += ['p hang 900 &', 'p st 0 f']
                ev.append(('start', 'm%d' % i, list(live)))
                live['m%d' % i] = 'Running'
            lines += ['p print ---1', 'jobs']
            ev.append(('list', dict(live), True, '1'))
            out.append(Case('\n'.join(lines) + '\n', check(ev), 'identifiers', mode=m))
    # gaps: jobs between live ones have ended
    for m in ('c', 'stdin'):
        for shape in ('LeL', 'LeeL', 'eLeL', 'LeLeL', 'LLeeL', 'LeLe', 'eeL'):
            lines, ev, live = [], [], {}
            for i, x in enumerate(shape):
                lines.append('p hang %d &' % (900 if x == 'L' else 5))
                ev.append(('start', 'g%d' % i, list(live)))
                if x == 'L':
                    live['g%d' % i] = 'Running'
            lines += ['cd "$(p hang 60; p print .)"' if m == 'stdin' else 'p hang 60', 'p st 0 f', 'p print ---0', 'jobs']
            for i in range(3):
                lines += ['p hang 900 &']
                ev.append(('start', 'm%d' % i, list(live)))
                live['m%d' % i] = 'Running'
            lines += ['p print ---1', 'jobs']
            ev.append(('list', dict(live), True, '1'))
            out.append(Case('\n'.join(lines) + '\n', check(ev), 'gaps', mode=m))
    # the status reported for jobs continues to be right while the table is used
    def fg(r):
        if r.timeout or 'panicked at' in r.err:
            return 'crash or no end: ' + r.err[:200]
        return None if r.log[-1:] == ['after'] and 'x' in r.log else 'commands %r' % r.log
    out.append(Case('p hang 120 x &\nfg %1\np st 0 after\n', fg, 'fg', mode='stdin'))
    out.append(Case('p hang 120 x &\nfg %1\np st 0 after\n', fg, 'fg', mode='c'))
    out.append(Case('p hang 20 y &\np hang 150 x &\nfg %2\np st 0 after\n', fg, 'fg', mode='c'))
    out.append(Case('p hang 20 y | p hang 150 x &\nfg %1\np st 0 after\n', fg, 'fg', mode='stdin'))
    # pipes that cannot be made: the job is what was started of it, and ends with it
    for lim in (4, 5):
        def few(lim=lim):
            resource.setrlimit(resource.RLIMIT_NOFILE, (lim, lim))
        for n in (2, 3, 4, 6):
            w = ' | '.join(['p print a'] + ['p hang 1'] * (n - 1))
            for bg in ('', ' &'):
                out.append(Case((w + bg + '\n') * 2 + 'p hang 80\np hang 1\np print ---\njobs\n', gone, 'a pipe that cannot be made', mode='stdin', sigprep=few))
    # processes that cannot be made: there is no job without a process
    def nofork():
        resource.setrlimit(resource.RLIMIT_NPROC, (0, 0))
    def nojob(r):
        bad = [l for l in r.out.split('\n') if re.match(r'\[\d+\]', l)]
        return 'the shell runs too long or ends otherwise (%r): %s' % (r.rc, r.err[:200]) if r.timeout or r.rc != 5 else 'jobs are reported: %r' % bad if bad else None
    for w in ('p hang 20 &', 'p hang 20 | p hang 20 &', 'p hang 20', 'p hang 20 | p hang 20'):
        out.append(Case('%s\njobs\nexit 5\n' % w, nojob, 'a process that cannot be made', mode='stdin', sigprep=nofork))
        out.append(Case('%s\n%s\njobs\nexit 5\n' % (w, w), nojob, 'a process that cannot be made', mode='file', sigprep=nofork))
    return out
