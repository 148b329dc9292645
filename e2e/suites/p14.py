"""end-to-end cases: the signal mask"""
import signal
import resource
from e2e.harness import Case
from e2e.oracle import hx
RULE = 'after every kind of command line (commands, pipelines, lists, builtins that work and that fail, functions, evaluated and sourced text, substitutions, background jobs, stopped and killed commands, parse errors, commands that are not found) and random sequences of them, each program started logs the signals blocked in it, the kernel is asked for the signals blocked in the waiting shell, and signals sent to the shell must be handled; a case is distinct when its script differs'
LINES = ['cd . | p st 0 a', 'cd . | cd .', 'p st 0 a | cd .', 'X=1 | cd .', 'h() { p st 0 a; } | cd .', 'X=1 | p st 0 a | p st 0 b', 'p st 0 x', 'p st 1 x', 'p out a | p sum s', 'p out a | p tag b | p sum s', 'X=1', 'X=1 Y=2', 'cd .', 'cd /nonexistent', 'cd', 'exec', 'unalias', 'unalias -a', "alias a='p out b'", 'unset', 'unset X', 'export X=1', 'export X', 'readonly Q', 'readonly', 'pwd', 'jobs', 'fg', 'bg', 'fg %9', 'cd /nonexistent &', 'fg %9 &', 'unalias & ', 'X=1 &', 'f &', 'p st 0 a | cd /nonexistent', 'cd /nonexistent | p st 0 a', 'bg 99999', 'f() { p st 0 f; }', 'f() { cd /nonexistent; }', 'f', 'f | p st 0 s', 'f &',
         'nosuchcommand', './nosuch', 'nosuchcommand | p st 0 a', 'p st 0 a | nosuchcommand', 'p st 0 a > /nonexistent/x', 'p st 0 a < nofile', 'p sg 9 k', 'p sg 15 k', 'p st 0 a | p sg 11 k', 'p hang 5 &', 'p hang 5 | p hang 1 &', 'p stopfor 150 s', "eval 'p st 0 e'", "eval 'cd /nonexistent'", 'eval', '. ./src', '. ./nosrc', '.', 'source ./srcfail', 'p args "$(p out x)"', 'p args "$(nosuch)"', 'X="$(p out y)"',
         'p st 0 a && p st 1 b || p st 2 c', '! p st 0 a', 'p st 0 a; cd /nonexistent; p st 0 b', 'return', 'return 3', 'return x',  'exec nosuchcommand', 'exec -a', 'g() { f; cd /nonexistent; p st 0 g; }', 'g', 'g || f', 'p sig z | p sig y', 'p st 0 a < nofile | p st 0 b', 'A=b p st 0 x', 'export context self', 'unset -f f', 'unset -q', 'readonly -q']
FILES = {'src': 'p st 0 s\n', 'srcfail': 'p st 0 s\ncd /nonexistent\np st 0 t\n'}
KEEP = (1 << (signal.SIGINT - 1)) | (1 << (signal.SIGTSTP - 1))


def blocked(r, watch):
    if r.timeout:
        return 'the script did not end'
    if 'panicked at' in r.err and 'nofile' not in r.err and 'os error 2' not in r.err and 'No such file' not in r.err:
        return 'crash: ' + r.err[:200]
    n = 0
    for l in r.log:
        w = l.split(' ')
        d = dict(x.split('=', 1) for x in w[1:] if '=' in x)
        if 'SigBlk' in d:
            n += 1
            if int(d['SigBlk'], 16):
                return 'the program %s starts with blocked signals %s' % (w[0], d['SigBlk'])
    if not n:
        return 'no program logged its signals: %r' % (r.log[-3:],)
    if watch:
        if not r.shell:
            return 'the shell ended: %r' % r.err[:200]
        if r.shell.get('SigBlk'):
            return 'the waiting shell blocks %x' % r.shell['SigBlk']


def cases(tier, rng):
    out = []
    big = tier != 'quick'
    for l in LINES:
        pre = '' if l.startswith('f()') else 'f() { p sig inf; }\n'
        s = pre + l + '\np sig after\n'
        if l not in ("p st 0 'a", 'p st 0 )'):
            if not any(x in l for x in ('cd /non', 'exec', 'unalias', 'fg', 'bg', '. ./nosrc', "return x", 'eval', 'srcfail', 'unset', 'readonly', 'g')) and l not in ('.', 'cd'):
                out.append(Case(s, lambda r: blocked(r, False), 'commands', files=FILES))
            # an evaluation error ends a list; the next line of standard input goes on
            out.append(Case(s, lambda r: blocked(r, False), 'commands', files=FILES, mode='stdin'))
        out.append(Case(pre + ('p st 0 first\n' if l not in ("p st 0 'a",) else '') + l + '\np sig WATCH\n', lambda r: blocked(r, True) , 'the waiting shell', files=FILES, mode='stdin', watch=True))
        if l not in ("p st 0 'a",):
            # the mask right after the line itself, with no program after it
            out.append(Case(pre + 'p sig WATCH\n' + l + '\n', lambda r: blocked(r, True), 'the waiting shell', files=FILES, mode='stdin', watch=True))
    ok = [l for l in LINES if "'a" not in l]
    for _ in range(150 if not big else 1500):
        seq = [rng.choice(ok) for _ in range(rng.randint(2, 6))]
        s = 'f() { p sig inf; }\n' + ''.join(l + '\n' + ('p sig k\n' if rng.random() < .4 else '') for l in seq) + 'p sig WATCH\n'
        out.append(Case(s, lambda r: blocked(r, True), 'sequences', files=FILES, mode='stdin', watch=True, timeout=10))
    # while a job is set up: the first processes of a long pipeline see the mask of the shell that still forks
    def during(r):
        if r.timeout or 'panicked at' in r.err:
            return 'crash or no end ' + r.err[:200]
        want = ['after']
        if r.log[-1:] != want:
            return 'commands %r' % (r.log[-3:],)
    # signals sent while jobs are set up and waited for: the shell survives and keeps its table
    for m in ('stdin',):
        for sgn in (17, 28, 20):
            for k in (1, 3):
                s = ''.join('p up %d | p up %d | p st 0 x\np st 0 y\n' % (sgn, sgn) for _ in range(k)) + 'p st 0 after\n'
                out.append(Case(s, during, 'signals while waiting', mode=m))
    # pipes that cannot be made
    for lim in (4, 5):
        def few(lim=lim):
            resource.setrlimit(resource.RLIMIT_NOFILE, (lim, lim))
        for n in (2, 3, 4, 6):
            for bg in ('', ' &'):
                w = ' | '.join(['p out a'] + ['p hang 1'] * (n - 1)) + bg
                out.append(Case(w + '\np sig after\n', lambda r: blocked(r, False), 'a pipe that cannot be made', mode='stdin', sigprep=few))
                out.append(Case('p sig WATCH\n' + w + '\n', lambda r: blocked(r, True), 'a pipe that cannot be made', mode='stdin', sigprep=few, watch=True))
    return out
