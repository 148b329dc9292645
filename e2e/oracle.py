"""A reference interpreter for the part of the language whose behaviour the properties fix, and a random program generator.

Used only by the bounded end-to-end suites: the program text is run by the real rsh, and what its commands received is compared with
what this interpreter says they receive."""
from e2e.harness import Case

KEYWORDS = {'in', 'if', 'else', 'elif', 'while', 'until', 'do', 'done', 'case', 'esac', 'for'}


def hx(s):
    return 'x' + s.encode().hex()


class Exit(Exception):
    def __init__(self, code):
        self.code = code


class EvalError(Exception):
    pass


class Interp:
    def __init__(self, env):
        self.stack = [{k: [v, False] for k, v in env.items()}, {'0': ['rsh', False]}]
        self.env = dict(env)
        self.funcs = [{}, {}]
        self.alias = {}
        self.out = []      # lines p args prints
        self.log = []      # what p st / p env log
        self.cwd = '@D@'
        self.status = 0

    # variables
    def get(self, n):
        for s in reversed(self.stack):
            if n in s:
                return s[n][0]
        return None

    def assign(self, n, v, ro=False):
        for s in reversed(self.stack):
            if n in s:
                if s[n][1]:
                    return
                s[n] = [v, ro]
                return
        self.stack[-1][n] = [v, ro]

    def expand(self, w):
        """w: (kind, text)"""
        k, t = w
        if k == 'var':
            v = self.get(t)
            return '$' + t if v is None else v
        return t

    def func(self, n):
        for s in reversed(self.funcs):
            if n in s:
                return s[n]
        return None

    def run_list(self, cmds):
        for c in cmds:
            self.run(c)

    def run(self, c):
        k = c[0]
        if k == 'assign':
            for n, v in [(n, self.expand(w)) for n, w in c[1]]:
                self.assign(n, v)
        elif k == 'unset':
            for s in reversed(self.stack):
                if c[1] in s:
                    if not s[c[1]][1]:
                        del s[c[1]]
                    break
        elif k == 'unsetf':
            for s in reversed(self.funcs):
                if c[1] in s:
                    del s[c[1]]
                    break
        elif k == 'readonly':
            n, w = c[1], c[2]
            if w is not None:
                self.assign(n, self.expand(w), True)
            else:
                for s in reversed(self.stack):
                    if n in s:
                        s[n][1] = True
                        return
                self.stack[-1][n] = ['', True]
        elif k == 'export':
            n, w = c[1], c[2]
            if w is None:
                v = self.get(n)
                if v is None:
                    return
            else:
                v = self.expand(w)
            s = self.stack[0]
            if not (n in s and s[n][1]):
                s[n] = [v, False]
            self.env[n] = v
        elif k == 'def':
            for s in reversed(self.funcs):
                if c[1] in s:
                    s[c[1]] = c[2]
                    return
            self.funcs[-1][c[1]] = c[2]
        elif k == 'call':
            body = self.func(c[1])
            args = [self.expand(w) for w in c[2]]
            if body is None:
                self.status = 1
                return
            self.stack.append({'0': [c[1], False]})
            for i, a in enumerate(args):
                self.stack[-1][str(i + 1)] = [a, False]
            self.funcs.append({})
            try:
                self.run_list(body)
            except EvalError:
                pass
            finally:
                self.stack.pop()
                self.funcs.pop()
            self.status = 0
        elif k == 'args':
            self.status = 0
            self.out.append(' '.join([str(len(c[1]))] + [hx(self.expand(w)) for w in c[1]]))
        elif k == 'env':
            self.status = 0
            e = dict(self.env)
            for n, w in c[3]:
                e[n] = w[1]
            self.log.append(' '.join([c[1]] + ['%s:%d=%s' % (n, 1 if n in e else 0, e.get(n, '<unset>')) for n in c[2]]))
        elif k == 'st':
            self.status = c[1]
            self.log.append(c[2])
        elif k == 'alias':
            self.alias[c[1]] = c[2]
        elif k == 'unalias':
            if c[1] is None:
                self.alias = {}
            else:
                self.alias.pop(c[1], None)
        elif k == 'usealias':
            # an alias whose text is `p args w...`
            words = [self.expand(w) for w in c[2]]
            if c[1] in self.alias:
                self.status = 0
                pre = self.alias[c[1]]
                self.out.append(' '.join([str(len(pre) + len(words))] + [hx(x) for x in pre + words]))
            else:
                self.status = 1
        elif k == 'eval':
            try:
                self.run_list(c[1])
            except EvalError:
                raise
        elif k == 'source':
            if self.cwd != '@D@':
                raise Limit()
            # the arguments of the script belong to the innermost scope
            for i, v in enumerate([self.expand(w) for w in c[4]]):
                n, s = str(i + 1), self.stack[-1]
                if not (n in s and s[n][1]):
                    s[n] = [v, False]
            self.run_list(c[2])
        elif k == 'cd':
            self.cwd = c[2]
        elif k == 'cwd':
            self.status = 0
            self.log.append('%s %s' % (c[1], self.cwd))
        elif k == 'fail':
            raise EvalError()
        elif k == 'exit':
            raise Exit(self.status if c[1] is None else c[1] % 256)
        else:
            raise AssertionError(k)


def rw(w):
    """text of a word"""
    k, t = w
    if k == 'var':
        return '$' + t
    if k == 'sq':
        return "'" + t + "'"
    if k == 'dq':
        return '"' + t + '"'
    return t


def rv(w):
    return rw(w)


def render(c):
    k = c[0]
    if k == 'assign':
        return ' '.join('%s=%s' % (n, rv(w)) for n, w in c[1])
    if k == 'unset':
        return 'unset ' + c[1]
    if k == 'unsetf':
        return 'unset -f ' + c[1]
    if k in ('readonly', 'export'):
        return '%s %s%s' % (k, c[1], '' if c[2] is None else '=' + rv(c[2]))
    if k == 'def':
        return '%s() { %s; }' % (c[1], '; '.join(render(x) for x in c[2]))
    if k == 'call':
        return ' '.join([c[1]] + [rw(w) for w in c[2]])
    if k == 'args':
        return ' '.join(['p args'] + [rw(w) for w in c[1]])
    if k == 'env':
        return ' '.join(['%s=%s' % (n, rv(w)) for n, w in c[3]] + ['p env', c[1]] + c[2])
    if k == 'st':
        return 'p st %d %s' % (c[1], c[2])
    if k == 'alias':
        return "alias %s='%s'" % (c[1], ' '.join(['p args'] + c[2]))
    if k == 'unalias':
        return 'unalias ' + (c[1] or '-a')
    if k == 'usealias':
        return ' '.join([c[1]] + [rw(w) for w in c[2]])
    if k == 'eval':
        return "eval '%s'" % '; '.join(render(x) for x in c[1])
    if k == 'source':
        return ' '.join(['%s ./%s' % (c[3], c[1])] + [rw(w) for w in c[4]])
    if k == 'cd':
        return 'cd ' + c[1]
    if k == 'cwd':
        return 'p cwd ' + c[1]
    if k == 'fail':
        return c[1]
    if k == 'exit':
        return 'exit' + ('' if c[1] is None else ' %d' % c[1])
    raise AssertionError(k)


def has_quote(c):
    return "'" in render(c) or '\n' in render(c)


class Gen:
    NAMES = ['X', 'Y', 'ZZ', 'a1', '_u', 'LONG_name', '\u00e9']
    FUNCS = ['f', 'g', 'h', 'fn_1']
    ALIASES = ['al', 'bl', 'll', 'a-b']

    def __init__(self, rng, weights, exported=(), depth=3, maxlen=14):
        self.r, self.w, self.depth, self.maxlen = rng, weights, depth, maxlen
        self.tag = 0
        self.files = {}
        self.used = set()

    def plain(self):
        return self.r.choice(['v', 'one', 'two2', 'a-b', 'x.y', '7', '42', 'a/b', 'é', 'long_value', '0', 'A%B', '12345678901234567890', '@:,', '+', 'word', 'x', '00'])

    def value(self, var=True):
        """a value for an assignment"""
        r = self.r.random() * (1 if var else .85)
        if r < .55:
            return ('w', self.plain())
        if r < .7:
            return ('sq', self.r.choice(['a b', 'k=v', 'a=b=c', '', ' lead', 'tail ', '$X', 'a"b', '#c', '&&', '=', '==x', 'x=']))
        if r < .85:
            return ('dq', self.r.choice(['a b', 'k=v', 'a=b=c', '', ' lead', "it's", '; x', '=', '==x', 'x=', 'a  b']))
        return ('var', self.r.choice(self.NAMES))

    def word(self):
        r = self.r.random()
        if r < .35:
            return ('w', self.plain())
        if r < .8:
            return ('var', self.r.choice(self.NAMES + ['1', '2', '3', '0'] * 1))
        return ('sq', self.r.choice(['a b', 'x', '  y', ';', '|']))

    def t(self):
        self.tag += 1
        return 't%d' % self.tag

    def cmd(self, depth, infunc):
        ks = list(self.w)
        for _ in range(30):
            k = self.r.choices(ks, [self.w[x] for x in ks])[0]
            c = self.make(k, depth, infunc)
            if c is not None:
                return c
        return ('args', [('w', 'z')])

    def make(self, k, depth, infunc):
        r = self.r
        n = r.choice(self.NAMES)
        if k == 'assign':
            m = 1 if r.random() < .8 else r.randint(2, 3)
            # the value of a variable that is expanded is trimmed of quotes by the assignment: keep to values without quotes
            return ('assign', [(r.choice(self.NAMES), self.value()) for _ in range(m)])
        if k == 'unset':
            return ('unset', n)
        if k == 'unsetf':
            return ('unsetf', r.choice(self.FUNCS))
        if k == 'readonly':
            return ('readonly', n, None if r.random() < .4 else self.value(False))
        if k == 'export':
            return ('export', n, None if r.random() < .35 else self.value(False))
        if k == 'def':
            if depth <= 0:
                return None
            body = [self.cmd(depth - 1, True) for _ in range(r.randint(1, 4))]
            if any(has_call(b) for b in body):
                pass
            return ('def', r.choice(self.FUNCS), body)
        if k == 'call':
            return ('call', r.choice(self.FUNCS), [self.word() for _ in range(r.randint(0, 3))])
        if k == 'args':
            return ('args', [self.word() for _ in range(r.randint(1, 4))])
        if k == 'show':
            return ('args', [('var', x) for x in self.NAMES])
        if k == 'showpos':
            return ('args', [('var', x) for x in ('1', '2', '3')])
        if k == 'env':
            pre = []
            if r.random() < .5:
                pre = [(r.choice(self.NAMES), w) for w in [self.value()] if w[0] != 'var']
            return ('env', self.t(), self.NAMES, pre)
        if k == 'st':
            return ('st', r.choice((0, 0, 1, 2, 255)), self.t())
        if k == 'alias':
            return ('alias', r.choice(self.ALIASES), [self.plain() for _ in range(r.randint(0, 3))])
        if k == 'unalias':
            return ('unalias', r.choice(self.ALIASES + [None]))
        if k == 'usealias':
            return ('usealias', r.choice(self.ALIASES), [self.word() for _ in range(r.randint(0, 3))])
        if k == 'eval':
            if depth <= 0:
                return None
            body = [self.cmd(depth - 1, infunc) for _ in range(r.randint(1, 3))]
            if any(has_quote(b) for b in body):
                return None
            return ('eval', body)
        if k == 'source':
            if depth <= 0:
                return None
            body = [self.cmd(0, infunc) for _ in range(r.randint(1, 4))]
            nm = 'src%d' % len(self.files)
            self.files[nm] = r.choice(('; ', '\n')).join(render(x) for x in body)
            return ('source', nm, body, r.choice(('.', 'source')), [self.word() for _ in range(r.choice((0, 0, 0, 1, 2, 3)))])
        if k == 'cd':
            d, abs_ = r.choice((('/', '/'), ('/usr', '/usr'), ('/usr/bin/..', '/usr')))
            return ('cd', d, abs_)
        if k == 'cwd':
            return ('cwd', self.t())
        if k == 'fail':
            return ('fail', r.choice(('cd /nonexistent', 'exec', 'unalias', 'unset')))
        if k == 'exit':
            return ('exit', r.choice((None, 0, 1, 7, 255, 256, 300)))
        raise AssertionError(k)

    def program(self):
        return [self.cmd(self.depth, False) for _ in range(self.r.randint(3, self.maxlen))]


def has_call(c):
    return c[0] == 'call'


class Limit(Exception):
    pass


class LInterp(Interp):
    steps = 0

    def run(self, c):
        self.steps += 1
        if self.steps > 400 or len(self.stack) > 12:
            raise Limit()
        super().run(c)


def program_case(rng, weights, tag, env=None, mode=None, maxlen=14, depth=2):
    """one random program as a Case, or None when it does not end quickly"""
    g = Gen(rng, weights, depth=depth, maxlen=maxlen)
    prog = g.program()
    env = dict(env or {})
    mode = mode or rng.choice(('c', 'c', 'stdin'))
    it = LInterp(env)
    texts = [render(c) for c in prog]
    try:
        rc = 0
        if mode == 'c':
            try:
                it.run_list(prog)
            except EvalError:
                pass
            except Exit as x:
                rc = x.code
            s = texts[0]
            for t in texts[1:]:
                s += rng.choice(('; ', '\n', ' ; ', '\n')) + t
        else:
            # one line at a time; a line may hold several commands
            lines, i = [], 0
            while i < len(prog):
                k = rng.randint(1, 3)
                lines.append((prog[i:i + k], '; '.join(texts[i:i + k])))
                i += k
            try:
                for cs, _ in lines:
                    try:
                        it.run_list(cs)
                    except EvalError:
                        pass
            except Exit as x:
                rc = x.code
            s = '\n'.join(t for _, t in lines) + '\n'
    except (Limit, RecursionError):
        return None
    out, log = ''.join(l + '\n' for l in it.out), it.log

    def chk(r):
        if r.timeout:
            return 'the script did not end'
        if 'panicked at' in r.err:
            return 'crash: ' + r.err[:300]
        got = ''.join(l + '\n' for l in r.out.split('\n') if l[:1].isdigit()) if mode == 'stdin' else r.out
        if got != out:
            return 'arguments received %r, expected %r' % (diff(got, out))
        if r.log != log:
            return 'commands %r, expected %r' % (diff('\n'.join(r.log), '\n'.join(log)))
        if r.rc != rc:
            return 'exit status %r, expected %r' % (r.rc, rc)
    return Case(s, chk, tag, mode=mode, env=env, files=g.files)


def diff(a, b):
    al, bl = a.split('\n'), b.split('\n')
    for i in range(max(len(al), len(bl))):
        x, y = (al[i] if i < len(al) else None), (bl[i] if i < len(bl) else None)
        if x != y:
            return 'line %d: %s' % (i, x), y
    return a[:100], b[:100]


def programs(rng, n, weights, tag, **kw):
    out = []
    while len(out) < n:
        c = program_case(rng, weights, tag, **kw)
        if c:
            out.append(c)
    return out
