"""end-to-end cases: signal dispositions"""
import signal
from e2e.harness import Case
RULE = 'every way of starting a command (alone, in a pipeline, in the background, from a function, evaluated or sourced text, in a substitution, by exec) with the dispositions the shell itself was started with varied; each program logs what is ignored and caught in it; the kernel is asked what the waiting shell catches and ignores; signals sent to programs and to the shell must act; a case is distinct when its script or its starting dispositions differ'
DEF = (signal.SIGINT, signal.SIGQUIT, signal.SIGTERM, signal.SIGTSTP, signal.SIGTTIN, signal.SIGTTOU, signal.SIGCHLD)
MASK = sum(1 << (s - 1) for s in DEF)
WAYS = ['p sig a', 'p sig a | p sig b', 'p sig a | p sig b | p sig c', 'p sig a && p sig b', '! p sig a', 'f() { p sig a; }; f', "eval 'p sig a'", '. ./src', 'p args "$(p sig a)"', 'p sig a &', 'p sig a | p sig b &', 'f() { p sig a; }\nf &', 'p st 0 x; p sig a', 'exec p sig a', 'p sig a > out', 'A=b p sig a', "alias l='p sig'; l a", 'p st 1 q || p sig a', 'cd .; p sig a', 'p hang 1 &\np sig a', 'p stopfor 100 s; p sig a', 'p sg 9 k; p sig a', 'nosuch; p sig a', 'f() { p sig a | p sig b; }\nf | p sig c']


def chk(r, watch=False):
    if r.timeout:
        return 'the script did not end'
    if 'panicked at' in r.err:
        return 'crash: ' + r.err[:200]
    n = 0
    for l in r.log:
        w = l.split(' ')
        d = dict(x.split('=', 1) for x in w[1:] if '=' in x)
        if 'SigIgn' in d:
            n += 1
            for k in ('SigIgn', 'SigCgt', 'SigBlk'):
                v = int(d[k], 16) & (MASK if k != 'SigBlk' else -1)
                if v:
                    return 'the program %s starts with %s=%s' % (w[0], k, d[k])
    if not n:
        return 'no program logged its signals: %r' % (r.log[-3:],)


def shell_state(r):
    m = chk(r)
    if m:
        return m
    if not r.shell:
        return 'the shell ended'
    c, i = r.shell['SigCgt'], r.shell['SigIgn']
    for s in (signal.SIGCHLD, signal.SIGINT, signal.SIGTSTP):
        if not c >> (s - 1) & 1:
            return 'the shell does not catch signal %d' % s
    for s in range(1, 32):
        # the runtime catches SEGV and BUS and ignores PIPE, the line editor may catch WINCH; nothing else is touched
        if s in (signal.SIGCHLD, signal.SIGINT, signal.SIGTSTP, signal.SIGSEGV, signal.SIGBUS, signal.SIGPIPE, signal.SIGWINCH):
            continue
        if c >> (s - 1) & 1:
            return 'the shell catches signal %d' % s
        if i >> (s - 1) & 1:
            return 'the shell ignores signal %d' % s


def prep(how):
    def f():
        for s, a in how:
            signal.signal(s, signal.SIG_IGN if a == 'ign' else signal.SIG_DFL)
    return f


def cases(tier, rng):
    out = []
    big = tier != 'quick'
    for w in WAYS:
        for m in ('c', 'stdin'):
            bg = '&' in w.replace('&&', '')
            s = w + '\n' + ('p hang 60\n' if bg else '')
            out.append(Case(s, chk, 'ways', mode=m, files={'src': 'p sig a\n'}))
            for how in ([[(s_, 'ign')] for s_ in DEF[:6]] + [[(s_, 'ign') for s_ in DEF[:6]]]):
                if how[0][0] == signal.SIGCHLD:
                    continue
                if not big and rng.random() < .5:
                    continue
                out.append(Case(s, chk, 'the shell started with ignored signals', mode=m, sigprep=prep(how), files={'src': 'p sig a\n'}))
        if '&' not in w.replace('&&', '') and not w.startswith('exec'):
            out.append(Case(w + '\np sig WATCH\n', shell_state, 'the shell itself', mode='stdin', watch=True, files={'src': 'p sig a\n'}))
    for l in ('cd /nonexistent', 'exec', 'nosuch', 'fg', 'p up 17', 'p up 2', 'p up 20', 'p up 17; p up 17; p st 0 x', 'p hang 1 &', 'p st 0 "$(p out x)"'):
        out.append(Case(l + '\np sig WATCH\n', shell_state, 'the shell itself', mode='stdin', watch=True))
    # programs are ended by the signals, whatever the shell does with them
    for s in (1, 2, 3, 13, 15, 20, 21, 22):
        def end(r, s=s):
            if r.timeout or 'panicked at' in r.err:
                return 'crash or no end ' + r.err[:200]
            return None if r.log == ['a', 'bad', 'after'] or (s == 13) else 'commands %r' % r.log
        if s in (20, 21, 22):
            continue
        for m in ('c', 'stdin'):
            out.append(Case('p sg %d a && p st 0 good || p st 1 bad\np st 0 after\n' % s, end, 'programs', mode=m))
    return out
