"""end-to-end cases: the search path"""
import os, itertools
from e2e.harness import Case, expect
RULE = 'search paths of 1 to 6 (thorough: 12) directories, in each of which the name is a program, a directory, missing, a link to a program, a dangling link, a link to a directory or the directory itself is missing or a file; every combination of 3 directories and random larger ones, PATH given by the environment, exported or exported again; names with a slash; names that do not exist; what ran is compared with the first match; a case is distinct when its layout and script differ'
KINDS = ('prog', 'dir', 'none', 'link', 'dangling', 'linkdir', 'nodir', 'filedir', 'other')


def setup_for(kinds, name='cmd'):
    def f(d):
        os.makedirs(os.path.join(d, 'real'), exist_ok=True)
        for i, k in enumerate(kinds):
            p = os.path.join(d, 'd%d' % i)
            if k == 'nodir':
                continue
            if k == 'filedir':
                open(p, 'w').write('x')
                continue
            os.makedirs(p, exist_ok=True)
            q = os.path.join(p, name)
            if k == 'prog':
                prog(q, 'd%d' % i)
            elif k == 'dir':
                os.mkdir(q)
            elif k == 'link':
                r = os.path.join(d, 'real', 'r%d' % i)
                prog(r, 'd%d' % i)
                os.symlink(r, q)
            elif k == 'dangling':
                os.symlink(os.path.join(d, 'nothing'), q)
            elif k == 'linkdir':
                os.symlink(os.path.join(d, 'real'), q)
            elif k == 'other':
                prog(os.path.join(p, name + 'x'), 'wrong')
                prog(os.path.join(p, 'x' + name), 'wrong')
                prog(os.path.join(p, name[:-1]), 'wrong')
                prog(os.path.join(p, name.upper()), 'wrong')
        prog(os.path.join(d, name), 'cwd')
    return f


def prog(p, mark):
    with open(p, 'w') as f:
        f.write('#!/bin/sh\necho ran %s "$@"\n' % mark)
    os.chmod(p, 0o755)


def first(kinds):
    for i, k in enumerate(kinds):
        if k in ('prog', 'link'):
            return i
    return None


def chk(want, rc=None):
    def f(r):
        if r.timeout:
            return 'the script did not end'
        got = ''.join(l + '\n' for l in r.out.split('\n') if l.startswith('ran ') or l.startswith('status'))
        if got != want:
            return 'ran %r, expected %r' % (got, want)
        if rc is not None and (r.rc == 0) != (rc == 0):
            return 'exit status %r' % r.rc
    return f


def cases(tier, rng):
    out = []
    big = tier != 'quick'
    combos = [k for n in (1, 2) for k in itertools.product(KINDS, repeat=n)]
    three = list(itertools.product(KINDS, repeat=3))
    combos += three if big else rng.sample(three, 170)
    for _ in range(60 if not big else 600):
        combos.append(tuple(rng.choice(KINDS[:7] if rng.random() < .5 else KINDS[1:7] + ('prog',)) for _ in range(rng.randint(4, 6 if not big else 12))))
    for kinds in combos:
        i = first(kinds)
        path = ':'.join('d%d' % j for j in range(len(kinds)))
        want = 'ran d%d a b\n' % i if i is not None else 'ran cwd fallback\n'
        tail = '' if i is not None else ''
        s = 'cmd a b || ./cmd fallback\n'
        how = rng.choice(('env', 'export', 'export2', 'assign', 'func', 'pipe'))
        env = None
        if how == 'env':
            env = {'PATH': path}
        elif how == 'export':
            s = 'export PATH=%s\n' % path + s
        elif how == 'export2':
            s = 'export PATH=/nonexistent\nexport PATH=%s\n' % path + s
        elif how == 'assign':
            s = 'PATH=%s\n' % path + s
        elif how == 'func':
            s = 'export PATH=%s\nf() { cmd a b || ./cmd fallback; }\nf\n' % path
        else:
            s = 'export PATH=%s\n./cmd x | cmd a b || ./cmd fallback\n' % path
        out.append(Case(s, chk(want), 'layouts', setup=setup_for(kinds), env=env))
    # every way to write a directory
    for ent, w in (('.', 'cwd'), ('./', 'cwd'), ('./d0', 'd0'), ('d0/', 'd0'), ('d0//', 'd0'), ('d1/../d0', 'd0'), ('@D@/d1', 'd1'), ('./.', 'cwd'), ('d1/..', 'cwd'), ('@D@', 'cwd')):
        for pre in ('', 'nodir:', '/nonexistent:', '~:', 'nodir:/nonexistent:'):
            for post in ('', ':d1', ':.'):
                out.append(Case('cmd 1 2\n', chk('ran %s 1 2\n' % w), 'ways to write a directory', setup=setup_for(('prog', 'prog')), env={'PATH': pre + ent + post}))
    # names with a slash
    for p, w in (('./cmd', 'cwd'), ('d0/cmd', 'd0'), ('./d1/cmd', 'd1'), ('d0/../d1/cmd', 'd1'), ('../%s', None)):
        if w is None:
            continue
        out.append(Case('%s 1 2\n' % p, chk('ran %s 1 2\n' % w), 'with a slash', setup=setup_for(('prog', 'prog')), env={'PATH': 'd0'}))
        out.append(Case('cd .; %s 1 2 && d0/none || d1/cmd z\n' % p, chk('ran %s 1 2\nran d1 z\n' % w), 'with a slash', setup=setup_for(('prog', 'prog')), env={'PATH': 'd0'}))
    for n in ('d0/none', './none', '/nonexistent/cmd', 'd0/', './d0', 'd0/cmd/x'):
        out.append(Case('%s a || ./cmd failed\n' % n, chk('ran cwd failed\n'), 'nothing there', setup=setup_for(('prog', 'prog')), env={'PATH': 'd0:d1'}))
        out.append(Case('%s a && ./cmd wrong\n./cmd next\n' % n, chk('ran cwd next\n'), 'nothing there', setup=setup_for(('prog', 'prog')), env={'PATH': 'd0:d1'}))
    for n in ('cm', 'cmdd', 'Cmd', 'cmd.', 'none', '-cmd'):
        for m in ('c', 'stdin'):
            out.append(Case('%s a && ./cmd wrong\n%s || ./cmd next\n' % (n, n), chk('ran cwd next\n'), 'not found', setup=setup_for(('prog', 'prog')), env={'PATH': 'd0:d1'}, mode=m))
            out.append(Case('%s a; exit\n' % n, chk('', rc=1), 'not found', setup=setup_for(('prog', 'prog')), env={'PATH': 'd0:d1'}, mode=m))
            out.append(Case('./cmd x | %s a && ./cmd wrong; ./cmd next\n' % n, chk('ran cwd next\n'), 'not found', setup=setup_for(('prog', 'prog')), env={'PATH': 'd0:d1'}, mode=m))
    # a file that cannot be executed is not replaced by a later one
    def noexec(d):
        setup_for(('prog', 'prog'))(d)
        os.chmod(os.path.join(d, 'd0', 'cmd'), 0o644)
    out.append(Case('cmd a || ./cmd failed\n', chk('ran cwd failed\n'), 'not executable', setup=noexec, env={'PATH': 'd0:d1'}))
    out.append(Case('cmd a && ./cmd wrong\n./cmd next\n', chk('ran cwd next\n'), 'not executable', setup=noexec, env={'PATH': 'd0:d1'}))
    # the order is that of PATH, not of the alphabet or of an earlier PATH
    for perm in itertools.permutations(range(3)):
        p = ':'.join('d%d' % i for i in perm)
        out.append(Case('export PATH=%s\ncmd a\nexport PATH=%s\ncmd b\n' % (p, ':'.join(reversed(p.split(':')))), chk('ran d%d a\nran d%d b\n' % (perm[0], perm[-1])), 'order', setup=setup_for(('prog',) * 3)))
    # PATH changed in between; PATH in front of one command
    out.append(Case('cmd a\nexport PATH=d1\ncmd b\nexport PATH=/nonexistent\ncmd c || ./cmd d\nexport PATH=d0\ncmd e\n', chk('ran d0 a\nran d1 b\nran cwd d\nran d0 e\n'), 'changes', setup=setup_for(('prog', 'prog')), env={'PATH': 'd0:d1'}))
    for m in ('c', 'stdin'):
        out.append(Case('cmd a || ./cmd b\n./cmd c\n', chk('ran cwd b\nran cwd c\n'), 'no path', setup=setup_for(('prog',)), env={'PATH': '/nonexistent:/nope'}, mode=m))
    return out
