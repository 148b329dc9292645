"""end-to-end cases: builtins"""
import os, resource, string
from e2e.harness import Case, expect
from e2e import oracle
from e2e.oracle import hx
RULE = 'for every builtin, in every place a command can stand: an executable of that name first in the search path is never run, the builtin acts although the shell may start no process at all, and its effect is in force afterwards; every name of one or two letters, names near the name of a builtin and names other shells build in run as the external command or the function of that name; random programs heavy in builtins are compared with the reference interpreter; a case is distinct when its script differs'
BUILTINS = ['cd', 'exit', 'return', 'jobs', 'fg', 'bg', 'alias', 'unalias', 'export', 'eval', 'unset', 'pwd', 'readonly', 'exec', '.', 'source']
OTHER = ['echo', 'true', 'false', 'test', ':', 'kill', 'set', 'trap', 'shift', 'local', 'type', 'history', 'umask', 'wait', 'help', 'printf', 'read', 'times', 'ulimit', 'command', 'builtin', 'hash', 'let', 'declare', 'break', 'continue', 'logout', 'pushd', 'popd', 'dirs', 'disown', 'suspend', 'getopts', 'log']
W = dict(assign=2, unset=2, readonly=1, export=3, show=2, env=2, alias=2, unalias=1, usealias=2, eval=3, source=3, cd=4, cwd=3, call=1.5, exit=.2, args=.5)
W['def'] = 1.5
KEYWORDS = {'for', 'in', 'while', 'if', 'then', 'else', 'elif', 'fi', 'do', 'done', 'case', 'esac', 'until'}


def near():
    out = []
    for b in BUILTINS:
        if len(b) > 1:
            out += [b + 'x', 'x' + b, b[:-1], b[1:], b.upper(), b.capitalize(), b + '.', b + '-', b + b, b[:-1] + b[-1] * 2, '-' + b, b + '2', '_' + b]
    out += ['...', '.source', 'source.', '.x', '..', 'unexport', 'exec_cmd', 'quit', 'return_cmd', 'fgbg']
    seen = []
    for n in out + OTHER:
        if n not in BUILTINS and n not in seen and n not in ('p', '.', '..') and n not in KEYWORDS:
            seen.append(n)
    return seen


def script(name):
    return '#!/bin/sh\necho "EXT %s $# $1" >> "$PLOG"\n' % name


def mk(names):
    def setup(d):
        b = os.path.join(d, 'pbin')
        os.makedirs(b, exist_ok=True)
        os.chmod(b, 0o755)
        for n in names:
            f = os.path.join(b, n)
            with open(f, 'w') as h:
                h.write(script(n))
            os.chmod(f, 0o755)
    return setup


def nofork():
    resource.setrlimit(resource.RLIMIT_NPROC, (0, 0))


PATHENV = {'PATH': '@D@/pbin:/usr/bin:/bin'}


def cases(tier, rng):
    big = tier != 'quick'
    out = oracle.programs(rng, 700 if not big else 9000, W, 'random programs')
    # other names are external commands, wherever they stand
    two = [a + b for a in string.ascii_lowercase for b in [''] + list(string.ascii_lowercase)]
    two = [n for n in two if n not in BUILTINS and n not in KEYWORDS and n != 'p']
    if not big:
        keep = [n for n in two if n[0] in 'cfb' or len(n) == 1]
        two = keep + rng.sample([n for n in two if n not in keep], 150)
    names = near() + two
    for i in range(0, len(names), 30):
        g = names[i:i + 30]
        want = ['EXT %s 1 a%d' % (n, k) for k, n in enumerate(g)]
        out.append(Case('\n'.join('%s a%d' % (n, k) for k, n in enumerate(g)) + '\n', expect(log=want), 'other names run the file', setup=mk(g), env=PATHENV, timeout=20))
        out.append(Case('zz9() { %s; }; zz9' % '; '.join('%s a%d' % (n, k) for k, n in enumerate(g)), expect(log=want), 'other names run the file', setup=mk(g), env=PATHENV, timeout=20))
    fn = [n for n in near() if all(c.isalnum() or c == '_' for c in n) and not n[0].isdigit()]
    for n in fn:
        if not big and rng.random() > .4:
            continue
        out.append(Case('%s() { /bin/sh -c "echo FUN >> .log"; }\n%s a\n' % (n, n), expect(log=['FUN']), 'other names run the function', setup=mk([n]), env=PATHENV))
    # a builtin never runs the file of its name
    allb = mk([b for b in BUILTINS if b != '.'])
    use = {'cd': 'cd sub', 'jobs': 'jobs', 'alias': "alias a='x y'", 'unalias': 'unalias a', 'export': 'export X=1', 'eval': "eval 'X=1'", 'unset': 'unset X', 'pwd': 'pwd', 'readonly': 'readonly R=1', '.': '. ./src', 'source': 'source ./src', 'fg': 'fg 1', 'bg': 'bg 1', 'return': 'return 1'}
    for b, u in use.items():
        for w in ('%s', 'f() { %s; }; f', 'X=5; %s', "%s > out", '%s; %s' % (u, '%s'), 'p st 0 a && %s', 'p st 1 a || %s', "A=1 %s", "! %s", 'alias l=v; %s', '%s() { p st 0 FUN; }; %%s' % b if b not in ('.',) else '%s'):
            s = w % u
            for m in ('c', 'stdin'):
                out.append(Case(s + '\n' + ('exit\n' if m == 'stdin' else ''), lambda r, b=b: 'the file or function was run: %r' % r.log if any(l.startswith('EXT') or l == 'FUN' for l in r.log) else None, 'the file is not run', mode=m, setup=allb, env={'PATH': '@D@/pbin:@P@'}, files={'src': 'X=2\n', 'sub/x': ''}))
    # a shell that may not start processes can do all of it
    chain = [('cd sub', None), ('pwd', '@D@/sub\n'), ('X=1', None), ("alias a='pwd'", None), ('export X=2', None), ("eval 'cd ..'", None), ('pwd', '@D@\n'), ('. ./src', None), ('pwd', '@D@/sub\n'), ('cd ..', None), ('source ./src', None), ('pwd', '@D@/sub\n'), ('unset X', None), ('unalias a', None), ('readonly X=2', None), ('jobs', None), ('pwd', '@D@/sub\n'), ('export', None), ('alias', None)]
    for n in range(len(chain) + 1):
        s = '; '.join(c for c, _ in chain[:n] + [('exit %d' % (40 + n), None)])
        want = ''.join(o for _, o in chain[:n] if o)
        if n <= 17:
            out.append(Case(s, expect(out=want, rc=40 + n), 'without processes', sigprep=nofork, files={'src': 'cd sub\n', 'sub/src': 'cd .\n'}))
        else:
            out.append(Case(s, expect(rc=40 + n), 'without processes', sigprep=nofork, files={'src': 'cd sub\n', 'sub/src': 'cd .\n'}))
    for s, o in (('f() { cd sub; }; f; pwd', '@D@/sub\n'), ('f() { pwd; }; f', '@D@\n'), ("eval '. ./src'; pwd", '@D@/sub\n'), ('cd sub && pwd', None), ('cd sub; cd ..; cd sub; pwd', '@D@/sub\n'), ('X=sub; cd $X; pwd', '@D@/sub\n'), ("cd 'sub'; pwd", '@D@/sub\n'), ('cd "sub"; pwd', '@D@/sub\n'), ('cd; pwd', '@D@\n')):
        out.append(Case(s + '; exit 7', expect(out=o, rc=7) if o else expect(rc=7), 'without processes', sigprep=nofork, files={'src': 'cd sub\n', 'sub/src': 'cd .\n'}))
    # in force for every later command
    deep = '/'.join('d%d' % i for i in range(12))
    out.append(Case('\n'.join('cd d%d\np cwd t' % i for i in range(12)), expect(log=['t @D@/' + '/'.join('d%d' % j for j in range(i + 1)) for i in range(12)]), 'in force', files={deep + '/x': ''}))
    for later in ('p cwd t', 'p cwd t | p tag ""', 'f() { p cwd t; }; f', "eval 'p cwd t'", 'p st 1 a || p cwd t', 'p args "$(p cwd t)"', 'p st 0 q; p cwd t', 'p cwd t > o', 'p out x | p cwd t', 'exec p cwd t'):
        for first in ('cd sub', 'g() { cd sub; }; g', "eval 'cd sub'", '. ./src', 'p st 0 a && cd sub', 'cd sub > o', 'X=sub; cd $X', 'cd ./sub', 'cd @ABS@'):
            s = first + '\n' + later + '\n'
            if '@ABS@' in s:
                s = s.replace('cd @ABS@', 'cd $D')
            out.append(Case(s, lambda r: None if 't @D@/sub' in r.log and not [l for l in r.log if l[:2] == 't ' and l != 't @D@/sub'] else 'directory: %r' % r.log, 'in force', files={'src': 'cd sub\n', 'sub/x': ''}, env={'D': '@D@/sub'}))
    # whatever the arguments, the shell goes on
    words = ['', '-p', '-f', '-v', '-n', '-c', '--', '-', 'a', 'a=b', 'a=', '"="', '"=b"', "''", '"a b"', '"a b=c"', '1', '-1', '%1', '%', '%%', '%-1', '99999999999999999999', '..', 'nosuch', 'sub', '@', '"("', '")"', '"a(b)"', '$X', '$UN', '$1', '"$X"', 'é', '"é=1"',
             '-p a', '-f f', '-f nosuch', '-v a', '-c nosuch', '-c file', '"-"', '"--"', '"\'"', 'HOME', 'IFS', '?', '1=2', '"a=\tb"', 'file', 'bad', 'latin', '-1x', '+1', '0', '"1 "']
    for b in BUILTINS:
        if b in ('exit', 'exec'):
            continue
        lines = [b + ' ' + w for w in words] + [b + ' ' + ' '.join(rng.sample(words, rng.randint(2, 4))) for _ in range(30 if not big else 600)]
        for i in range(0, len(lines), 10):
            g = lines[i:i + 10]
            text = 'X="x y"\nf() { pwd; }\n' + ''.join('%s\np st 0 t%d\n' % (l, k) for k, l in enumerate(g))
            out.append(Case(text, expect(log=['t%d' % k for k in range(len(g))], rc=0, no_panic=True), 'arguments', mode='stdin', files={'sub/x': '', 'file': 'Y=1\n', 'bad': '( (\n', 'latin': b'\xff\xfe\n'}, timeout=20))
    # characters no argument, name or value of the system can hold
    for w in ('"a\0b"', '"A=a\0b"', '"A\0=b"', '"\0"', '"/bin/a\0b"'):
        g = [b + ' ' + v for b in BUILTINS if b != 'exit' for v in (w, 'x ' + w)] + ['X=' + w + '\nexport X', 'exec -a ' + w + ' true', 'readonly "=c"\nexport ""']
        text = ''.join('%s\np st 0 t%d\n' % (l, k) for k, l in enumerate(g) if l != 'exec x ' + w)
        out.append(Case(text, lambda r, n=len(g): None if r.rc == 0 and not r.timeout and 'panicked' not in r.err and 't%d' % (n - 1) in r.log else 'status %r, commands %r, %s' % (r.rc, r.log[-2:], r.err[-200:]), 'NUL', mode='stdin', timeout=20))
    for l in ('cd nosuch', 'cd file', 'cd sub/x', 'cd ""', "cd ''", 'cd sub/nosuch', 'cd " sub"', 'cd nosuch sub', 'cd %'):
        for first in ('', 'cd sub\n'):
            out.append(Case(first + l + '\np cwd t\n', lambda r, w='t @D@' + ('/sub' if first else ''): None if r.log == [w] else 'directory: %r' % r.log, 'no directory', mode='stdin', files={'sub/x': '', 'file': ''}))
    for l in ('pwd', 'pwd x', 'cd .', 'jobs', "eval 'pwd'", 'f', '. ../src', 'pwd; pwd'):
        out.append(Case('f() { pwd; }\n/bin/mkdir gone\ncd gone\n/bin/rmdir ../gone\n%s\np st 0 alive\ncd ..\ncd /\npwd\np st 0 there\n' % l, expect(log=['alive', 'there'], rc=0, no_panic=True), 'the directory is gone', mode='stdin', files={'src': 'pwd\n'}))
    # namespaces: whatever has been put into them, or taken away
    ns = ['export context ns=self', 'export context self', 'export context ns=./src', 'export context ./src', 'unset 0', 'unset ns::Y', 'readonly ns::zz', 'readonly ns::Y', 'readonly zz::a', 'readonly ns::', 'readonly ::a', 'readonly ::', 'readonly ns::a::b', 'p args $ns::Y', 'p args $ns::zz', 'p args $zz::a',
          'ns::Y=4', 'ns::zz=5', 'zz::a=1', 'export ns::Y=2', 'export ns::zz', 'unset zz::a', 'unset ns::', 'unset', 'X="$ns::Y"', 'export context', 'export context self self', 'export context ns=', 'export context =self', 'export context ./nosuch', 'export context ns=./nosuch', 'g self', 'h() { unset 0; export context self; }', 'h']
    for k in range(len(ns) + (60 if not big else 800)):
        g = [ns[k]] if k < len(ns) else [rng.choice(ns) for _ in range(rng.randint(2, 8))]
        text = 'g() { export context ns=self; }\n' + ''.join('%s\np st 0 t%d\n' % (l, j) for j, l in enumerate(g))
        out.append(Case(text, expect(log=['t%d' % j for j in range(len(g))], rc=0, no_panic=True), 'namespaces', mode='stdin', files={'src': 'Y=1\nreadonly Z=2\n'}))
    return out
