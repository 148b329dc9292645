"""end-to-end cases: forked children"""
import resource
from e2e.harness import Case, expect
from e2e.oracle import hx
RULE = 'scripts of up to 12 lines in which every line forks (commands, pipelines, background jobs, functions in pipelines, substitutions, failing commands and redirections in every position of a pipeline), each followed by logged commands: every command is logged exactly as often as it appears in the script, in order, a command that cannot be executed counts as a failure, no process of the shell is left behind, and nothing is written twice; with arguments or environment too long for exec; a case is distinct when its script differs'
# (text, what it logs, does it succeed)
FAIL = ['nosuchcmd', './nosuchcmd', '/nonexistent/x', './plain', './dir', 'p st 0 no < missing', 'p st 0 no > missing/f', 'p st 0 no >> missing/f', 'p st 0 no > dir', './badfmt', 'nosuchcmd a b c', 'nosuchcmd > o', 'nosuchcmd < infile']
FILES = {'infile': 'input\n', 'plain': 'not executable', 'dir/x': '', 'badfmt': '\x7fELFgarbage', 'src': 'p st 0 S\n'}


def setup(d):
    import os
    os.chmod(d + '/badfmt', 0o755)
    os.chmod(d + '/plain', 0o644)


def quiet(log, rc=None, out=None):
    base = expect(log=log, **({'rc': rc} if rc is not None else {}), **({'out': out} if out is not None else {}))
    return base


def cases(tier, rng):
    out = []
    big = tier != 'quick'

    def add(s, log, tag, **kw):
        files = dict(FILES)
        out.append(Case(s, kw.pop('check', None) or expect(log=log, no_panic=False, **kw.pop('ex', {})), tag, files=files, setup=setup, **kw))
    for f in FAIL:
        for m in ('c', 'stdin'):
            end = 'exit\n' if m == 'stdin' else ''
            add(f + '\np st 0 a\np st 0 b\n' + end, ['a', 'b'], 'failing command', mode=m)
            add(f + '; p st 0 a; p st 0 b\n' + end, ['a', 'b'], 'failing command', mode=m)
            add(f + ' && p st 0 no\np st 0 b\n' + end, ['b'], 'fails', mode=m)
            add(f + ' || p st 0 a\np st 0 b\n' + end, ['a', 'b'], 'fails', mode=m)
            add('! ' + f + ' && p st 0 a\np st 0 b\n' + end, ['a', 'b'], 'fails', mode=m)
            add('p st 0 x | ' + f + ' || p st 0 a\np st 0 b\n' + end, ['x', 'a', 'b'], 'fails in a pipeline', mode=m)
            add(f + ' | p tagx z 0 0 a\np st 0 b\n' + end, ['a', 'b'], 'fails in a pipeline', mode=m)
            add('p out x | ' + f + ' | p tagx z 0 0 a\np st 0 b\n' + end, ['a', 'b'], 'fails in a pipeline', mode=m)
            add(f + ' | ' + f + ' | ' + f + '\np st 0 b\n' + end, ['b'], 'fails in a pipeline', mode=m)
            add('f() { %s; p st 0 a; }\nf\np st 0 b\nf\n' % f + end, ['a', 'b', 'a'], 'fails in a function', mode=m)
            add("eval '%s'\np st 0 b\n" % f + end, ['b'], 'fails in evaluated text', mode=m)
            add('%s &\np hang 30 a\np st 0 b\n' % f + end, ['a', 'b'], 'fails in the background', mode=m)
            add('p args "$(%s)"\np st 0 b\n' % f + end, None, 'fails in a substitution', mode=m, check=lambda r: None if r.log == ['b'] else 'log %r' % r.log)
            add('p args "$(%s; p st 0 a)"\np st 0 b\n' % f + end, None, 'fails in a substitution', mode=m, check=lambda r: None if r.log == ['a', 'b'] else 'log %r' % r.log)
        add(f + '\nexit', [], 'status', check=lambda r: None if r.rc not in (0, None) else 'a command that cannot be executed has status %r' % r.rc)
        add('p st 0 q; ' + f + '; exit', [], 'status', check=lambda r: None if r.rc not in (0, None) else 'a command that cannot be executed has status %r' % r.rc)
        add('p st 0 q | ' + f + '; exit', [], 'status', check=lambda r: None if r.rc not in (0, None) else 'a command that cannot be executed has status %r' % r.rc)
    # every way of forking, in random scripts: what runs, runs once
    def line(i):
        k = rng.randrange(16)
        t = 't%d' % i
        f = rng.choice(FAIL)
        return [('p st 0 ' + t, [t]), (f, []), (f + ' && p st 0 no', []), ('%s || p st 0 %s' % (f, t), [t]), ('p out x | p tagx y 0 0 ' + t, [t]), (f + ' | p tagx y 0 0 ' + t, [t]), ('p args "$(p st 0 %s)"' % t, [t]), ('p args "$(%s; p st 0 %s)"' % (f, t), [t]),
                ('g%d() { %s; p st 0 %s; }; g%d' % (i, f, t, i), [t]), ("eval 'p st 0 %s'" % t, [t]), ('p st 3 %s || %s' % (t, f), [t]), ('. ./src', ['S']), ('p st 0 %s > o' % t, [t]), ('p st 0 %s | %s' % (t, f), [t]), ('! p st 0 %s' % t, [t]), ('A=1 p st 1 %s' % t, [t])][k]
    for n in (2, 3, 5, 8, 12):
        for rep in range(12 if not big else 300):
            ls = [line(i) for i in range(n)]
            log = [x for _, l in ls for x in l]
            m = rng.choice(('c', 'stdin'))
            add('\n'.join(t for t, _ in ls) + '\np st 0 end\nexit 3\n', log + ['end'], 'random scripts', mode=m, ex={'rc': 3}, timeout=15)
    # an evaluation error in a substitution
    for bad in ('cd /nonexistent', 'exec', 'unalias', 'p st 0 i; cd /nonexistent', 'cd /nonexistent; p st 0 no', 'f() { exec; }; f'):
        for m in ('c', 'stdin'):
            i = ['i'] if ' i;' in bad else []
            add('p args "$(%s)"\np st 0 a\np args x "$(%s)"; p st 0 b\nexit 5\n' % (bad.replace('(', '{').replace(')', '}') if 'f()' in bad else bad, 'p out q') if 'f()' not in bad else 'f() { exec; }\np args "$(f)"\np st 0 a\np st 0 b\nexit 5\n', i + ['a', 'b'], 'error in a substitution', mode=m, ex={'rc': 5})
    # the output of the shell is not written twice; functions in pipelines and in the background
    for f in FAIL[:8]:
        add('pwd\n%s\npwd\n%s | p tag ""\npwd\n' % (f, f), [], 'nothing is written twice', check=lambda r: None if r.out.count('@D@\n') == 3 and not r.timeout else 'output %r' % r.out)
    for w in ('f | p tag x', 'f &', 'f | f', 'p st 0 z | f', 'f | p tag x &', 'f > o', 'p args "$(f)"'):
        # however often the function runs, the rest of the script runs once and the end is reached once
        for f in ('', 'nosuchcmd; ', 'p st 0 no < missing; '):
            add('f() { %sp st 0 F; }\n%s\np hang 30 a\np st 0 b\nexit 6\n' % (f, w), [], 'functions', check=lambda r: None if r.log.count('a') == 1 and r.log.count('b') == 1 and 1 <= r.log.count('F') <= 2 and r.rc == 6 else 'log %r status %r' % (r.log, r.rc))
    # what exec refuses although the file is there
    big_arg = 'x' * 140000
    add('p args %s\np st 0 b\nexit\n' % big_arg, ['b'], 'too long for exec', mode='stdin')
    add('p st 0 no %s || p st 0 a\np st 0 b\nexit\n' % big_arg, ['a', 'b'], 'too long for exec', mode='stdin')
    add('p st 0 no %s | p tagx z 0 0 a\np st 0 b\nexit\n' % big_arg, ['a', 'b'], 'too long for exec', mode='stdin')
    add('A=%s p st 0 no || p st 0 a\np st 0 b\nexit\n' % big_arg, ['a', 'b'], 'too long for exec', mode='stdin')
    add('export A=%s\np st 0 no || pwd\nunset A\nexit 4\n' % big_arg, [], 'too long for exec', mode='stdin', check=lambda r: None if r.rc == 4 and r.out.count('@D@\n') == 1 else 'status %r output %r' % (r.rc, r.out[:200]))
    # the system refuses to make another process
    def nofork():
        resource.setrlimit(resource.RLIMIT_NPROC, (0, 0))
    for w in ('p st 0', 'p st 0 | p st 0', 'p st 0 > o', 'A=1 p st 0', '! p st 0 | p st 0', 'cd / && p st 0'):
        for m in ('stdin', 'file'):
            out.append(Case('%s && exit 3\nexit 4\n' % w, expect(log=[], rc=4), 'no process can be made', mode=m, sigprep=nofork))
    return out
