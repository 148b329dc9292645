"""Named contexts."""
from ..harness import *
from ..oracle import hx
RULE = 'histories of contexts exported under names (from files and from the scope of a function), lookups, calls, removals and read-only markings of NS::NAME, mixed with variables and functions of the scope stack that have the same names, at the top level and in functions; the arguments the probe receives are compared with a reference interpreter; a case is distinct when its script, mode or files differ'
NSS = ('ns', 'm', 'n2', 'a')
VARS = ('X', 'Y', 'ns', 'q')
FUNS = ('f', 'g', 'X')


class Model:
    def __init__(self):
        self.ctx, self.top, self.ro, self.funs, self.out, self.lines, self.files, self.n = {}, {}, set(), {}, [], [], {}, 0

    def show(self, words):
        self.out.append('%d %s' % (len(words), ' '.join(hx(w) for w in words)))

    def val(self, ns, v):
        c = self.ctx.get(ns)
        return c['v'][v] if c and v in c['v'] else '$%s::%s' % (ns, v)

    def new(self, rng, ns):
        """a context from a file or from the scope of a function"""
        self.n += 1
        n = self.n
        if rng.random() < .25:
            name = 'L%d' % n
            self.lines += ['h%d() { %s=loc%d; k%d() { p args k%d $1; }; export context %s=self; }' % (n, name, n, n, n, ns), 'h%d' % n]
            self.ctx[ns] = {'v': {name: 'loc%d' % n}, 'f': {'k%d' % n: 'k%d' % n}, 'ro': set()}
            return
        # a name the scope stack defines already is assigned there, so the files define others
        vs = [v for v in VARS if v not in self.top and rng.random() < .7]
        fs = [f for f in FUNS if f not in self.funs and rng.random() < .7]
        text = ''.join('%s=%s%d\n' % (v, v, n) for v in vs) + ''.join('%s() { p args %s%d $1; }\n' % (f, f, n) for f in fs)
        text += rng.choice(('', 'Z%d=1\n' % n)) or 'Z%d=2\n' % n
        self.files['c%d' % n] = text
        self.lines.append('export context %s=./c%d' % (ns, n))
        z = text.strip().split('\n')[-1].split('=')
        self.ctx[ns] = {'v': dict([(v, '%s%d' % (v, n)) for v in vs] + [tuple(z)]), 'f': {f: '%s%d' % (f, n) for f in fs}, 'ro': set()}

    def member(self, rng, ns, kind):
        c = self.ctx.get(ns)
        names = list(c[kind]) if c else []
        return rng.choice(names) if names and rng.random() < .75 else rng.choice(VARS if kind == 'v' else FUNS)

    def step(self, rng):
        ns = rng.choice(NSS)
        k = rng.random()
        v, f = self.member(rng, ns, 'v'), self.member(rng, ns, 'f')
        c = self.ctx.get(ns)
        if k < .16:
            self.new(rng, ns)
        elif k < .45:
            w = [(ns, v)] + [(n2, self.member(rng, n2, 'v')) for n2 in rng.sample(NSS, rng.randint(0, 2))]
            self.lines.append('p args ' + ' '.join('$%s::%s' % x for x in w))
            self.show([self.val(*x) for x in w])
        elif k < .58:
            self.lines.append('%s::%s arg' % (ns, f))
            if c and f in c['f']:
                self.show([c['f'][f], 'arg'])
        elif k < .66:
            self.lines.append('unset %s%s::%s' % (rng.choice(('', '-v ')), ns, v))
            if c and v not in c['ro']:
                c['v'].pop(v, None)
        elif k < .72:
            self.lines.append('unset -f %s::%s' % (ns, f))
            if c:
                c['f'].pop(f, None)
        elif k < .77:
            self.lines.append('readonly %s::%s' % (ns, v))
            if c and v in c['v']:
                c['ro'].add(v)
        elif k < .82:
            self.n += 1
            x = rng.choice(('r%d', 'r%d', '/a%d', 'b%d::c', '::%d')) % self.n
            self.lines.append('readonly %s::%s=%s' % (ns, v, x))
            if c and v not in c['ro']:
                c['v'][v] = x
                c['ro'].add(v)
        elif k < .85:
            self.lines.append('unset -c ' + ns)
            self.ctx.pop(ns, None)
        elif k < .9:
            v = rng.choice(VARS)
            self.n += 1
            self.lines.append('%s=top%d' % (v, self.n))
            self.top[v] = 'top%d' % self.n
        elif k < .93:
            v = rng.choice(VARS)
            self.lines.append('unset ' + v)
            self.top.pop(v, None)
        elif k < .95:
            f = rng.choice(FUNS)
            self.n += 1
            self.lines.append('%s() { p args top%d $1; }' % (f, self.n))
            self.funs[f] = 'top%d' % self.n
        elif k < .97:
            f = rng.choice(FUNS)
            self.lines.append('unset -f ' + f)
            self.funs.pop(f, None)
        else:
            v = rng.choice(VARS)
            self.lines.append('p args $' + v)
            self.show([self.top.get(v, '$' + v)])
        if rng.random() < .15:
            f = rng.choice(FUNS)
            self.lines.append(f + ' arg')
            if f in self.funs:
                self.show([self.funs[f], 'arg'])


def cases(tier, rng):
    out = []
    text = lambda rows: ''.join(r + '\n' for r in rows)
    for i in range(700 if tier == 'quick' else 20000):
        m = Model()
        for _ in range(rng.randint(1, 3)):
            m.new(rng, rng.choice(NSS))
        for _ in range(rng.randint(4, 22)):
            m.step(rng)
        out.append(Case(text(m.lines), expect(out=text(m.out), no_panic=True), 'histories', mode=rng.choice(('c', 'stdin', 'stdin')), files=m.files))
    # a named context read from inside of functions, whatever these define themselves
    for d in (1, 2, 3):
        for mode in ('c', 'stdin'):
            s = 'export context ns=./c\n' + ''.join('h%d() { X=in%d; p args $ns::X $X; ns::f b; %s; }\n' % (k, k, 'h%d' % (k + 1) if k < d else 'unset ns::Y') for k in range(1, d + 1)) + 'h1\np args $ns::X $ns::Y $X\n'
            rows = []
            for k in range(1, d + 1):
                rows += [('file', 'in%d' % k), ('f', 'b')]
            rows.append(('file', '$ns::Y', '$X'))
            out.append(Case(s, expect(out=''.join('%d %s\n' % (len(r), ' '.join(hx(w) for w in r)) for r in rows)), 'functions', mode=mode, files={'c': 'X=file\nY=why\nf() { p args f $1; }\n'}))
    # read-only ones
    for first in ('readonly ns::X', 'readonly ns::X=file', 'readonly ns::N=new'):
        v = 'N' if 'N' in first else 'X'
        for attack in ('unset ns::%s', 'readonly ns::%s=other', 'readonly ns::%s', 'unset -v ns::%s', 'readonly -v ns::%s=other', 'g() { unset ns::%s; readonly ns::%s=inn; }; g', '%s=top; unset %s'):
            for mode in ('c', 'stdin'):
                val = 'new' if v == 'N' else ('file' if first == 'readonly ns::X=file' else 'file')
                out.append(Case('export context ns=./c\n%s\n%s\np args $ns::%s\n' % (first, attack.replace('%s', v), v), expect(out='1 %s\n' % hx(val)), 'read-only', mode=mode, files={'c': 'X=file\n'}))
    # a value with :: is a value
    for x in ('a::b', '::', 'a::', '::b', 'ns::X'):
        for mode in ('c', 'stdin'):
            out.append(Case('export context ns=./c\nreadonly K=%s\nK=3\nL=%s\np args $K $L $ns::X\n' % (x, x), expect(out='3 %s %s %s\n' % (hx(x), hx(x), hx('file'))), 'values', mode=mode, files={'c': 'X=file\n'}))
    return out
