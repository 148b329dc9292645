"""contracts of the builtins that change variables: assignments, unset, readonly (used by P08, P09)

Each is checked against the contracts of the shell's own entry points, which are proved in scopes.py."""
from .common import *
from mirv.core import nth_cases as at, length
from .words import positions
S = z3.StringSort()


class Effects1:
    """entry points as opaque changes of the shell: world x word -> world"""
    def __init__(self, C, e, names):
        self.f = {}
        for n in names:
            f = C.fn(e, 'rsh::shell::' + n)
            g = self.f[n] = z3.Function('after_' + n, World, S, World)
            e.contracts[f['nname']] = self.contract(g)

    def contract(self, g):
        def c(eng, st, f, a):
            st.ghost['W'] = g(world(st), term(eng, st, a[0]))
            r = eng.fresh_ty(st, f['ret'], 'result')
            return [Outcome('ret', st, r)]
        return c


def suffix(e, fn, cells):
    CT = e.ty[fn['locals'][1]]['e']
    cmd = cells[0][1]
    so = fty(e, CT, 'suffix')
    sopt = fld(e, CT, 'suffix', cmd)
    words = fld(e, e.ty.targs(so)[0], 'word', e.ty.acc(so, 1, 0, sopt))
    return CT, cmd, e.ty.sort(so).recognizer(1)(sopt), words


def g_assignment(C):
    """every assignment of the command line is made, in order, each once"""
    e = C.engine()
    fn = C.fn(e, 'rsh::builtins::assignment')
    M = Effects1(C, e, ['add_var_context'])
    ADD = M.f['add_var_context']
    st = State()
    args, cells = fresh_args(e, st, fn)
    CT, cmd, _, _ = suffix(e, fn, cells)
    pt = fty(e, CT, 'prefix')
    p = fld(e, CT, 'prefix', cmd)
    has = e.ty.sort(pt).recognizer(1)(p)
    l = fld(e, e.ty.targs(pt)[0], 'assignment', e.ty.acc(pt, 1, 0, p))
    W0 = world(st)
    AFTER = z3.Function('after_assignments', World, l.sort(), INT, World)
    e.spec_unfold = e.spec_unfold + [(AFTER, lambda W, l, n: [AFTER(W, l, n) == z3.If(n <= 0, W, ADD(AFTER(W, l, n - 1), l[n - 1]))])]

    def cand(ctx):
        out = []
        for q, k in positions(ctx, l):
            out += [('in range %s' % q, z3.And(k >= 0, k <= length(l))), ('so far %s' % q, world(ctx.st) == AFTER(W0, l, k))]
        return out
    e.cand = cand
    outs = e.run_fn(st, fn, args)
    n = 0
    for k, o in no_panic(C, 'assignment', outs):
        n += 1
        r = e.lower(o.value)
        C.ob('assignment: path %d: every assignment is made, in textual order, each once' % k, e, o.state, world(o.state) == z3.If(has, AFTER(W0, l, length(l)), W0))
        C.ob('assignment: path %d: succeeds' % k, e, o.state, r.sort().recognizer(0)(r))
    C.covers('paths', n)


def flag(w):
    """what an option word asks for, the way the builtins read it: f, then c, then v"""
    h = lambda c: z3.Contains(w, sv(c))
    return z3.If(h('f'), I(1), z3.If(h('c'), I(2), z3.If(h('v'), I(3), I(0))))


def g_unset(C):
    """unset removes what it is told to, in the shell, and nothing else"""
    e = C.engine()
    fn = C.fn(e, 'rsh::builtins::unset')
    M = Effects1(C, e, ['remove_var', 'remove_function', 'remove_context'])
    st = State()
    args, cells = fresh_args(e, st, fn)
    CT, cmd, has, words = suffix(e, fn, cells)
    W0 = world(st)
    n = length(words)
    w0, w1 = at(words, I(0)), at(words, I(1))
    opt = z3.And(has, n > 0, z3.PrefixOf(sv('-'), w0))
    plain = z3.And(has, n > 0, z3.Not(z3.PrefixOf(sv('-'), w0)))
    outs = e.run_fn(st, fn, args)
    cnt = {}
    for k, o in no_panic(C, 'unset', outs):
        r, W = e.lower(o.value), world(o.state)
        ok = r.sort().recognizer(0)(r)
        nm = 'unset: path %d: ' % k
        V, F, X = M.f['remove_var'], M.f['remove_function'], M.f['remove_context']
        C.ob(nm + 'unset NAME removes the variable NAME and nothing else', e, o.state, z3.Implies(plain, z3.And(ok, W == V(W0, w0))))
        C.ob(nm + 'unset -v NAME, unset -f NAME and unset -c NAME remove the variable, the function or the context NAME', e, o.state,
             z3.Implies(z3.And(opt, n > 1, flag(w0) > 0), z3.And(ok, W == z3.If(flag(w0) == 3, V(W0, w1), z3.If(flag(w0) == 1, F(W0, w1), X(W0, w1))))))
        C.ob(nm + 'without a name, or with an unknown option, nothing changes and it fails', e, o.state, z3.Implies(z3.Or(z3.Not(has), n == 0, z3.And(opt, z3.Or(n == 1, flag(w0) == 0))), z3.And(z3.Not(ok), W == W0)))
        for x, f in (('a name', plain), ('an option', opt), ('nothing', z3.Not(has))):
            cnt[x] = cnt.get(x, 0) + e.feasible(o.state, f)
    for x in ('a name', 'an option', 'nothing'):
        C.covers(x, cnt.get(x, 0))


PRINT = ['print_readonly_vars', 'print_readonly_functions']


def g_readonly(C):
    """readonly NAME and readonly NAME=value reach the shell's entry points; printing changes nothing"""
    e = C.engine()
    fn = C.fn(e, 'rsh::builtins::readonly')
    M = Effects1(C, e, ['set_readonly_var', 'add_readonly_var'])
    for p in PRINT + ['print_readonly_vars_context']:
        C.fn(e, 'rsh::shell::' + p)
        e.contracts['rsh::shell::' + p] = lambda eng, st, f, a: [Outcome('ret', st, eng.fresh_ty(st, f['ret'], 'printed'))]
    st = State()
    args, cells = fresh_args(e, st, fn)
    CT, cmd, has, words = suffix(e, fn, cells)
    W0 = world(st)
    n = length(words)
    w0, w1 = at(words, I(0)), at(words, I(1))
    opt = z3.And(has, n > 0, z3.PrefixOf(sv('-'), w0))
    plain = z3.And(has, n > 0, z3.Not(z3.PrefixOf(sv('-'), w0)))
    v = z3.And(opt, flag(w0) == 3, n > 1, z3.Not(z3.PrefixOf(sv('-'), w1)))
    outs = e.run_fn(st, fn, args)
    cnt = {}
    SET, ADD = M.f['set_readonly_var'], M.f['add_readonly_var']
    made = lambda w: z3.If(z3.Contains(w, sv('=')), ADD(W0, w), SET(W0, w))
    for k, o in no_panic(C, 'readonly', outs):
        r, W = e.lower(o.value), world(o.state)
        ok = r.sort().recognizer(0)(r)
        nm = 'readonly: path %d: ' % k
        C.ob(nm + 'readonly NAME declares NAME read-only, readonly NAME=value gives it the value first', e, o.state, z3.Implies(plain, z3.And(ok, W == made(w0))))
        C.ob(nm + 'and so does readonly -v', e, o.state, z3.Implies(v, z3.And(ok, W == made(w1))))
        C.ob(nm + 'readonly -p, readonly -f and a missing name change nothing', e, o.state,
             z3.Implies(z3.Or(z3.Not(has), n == 0, z3.And(opt, flag(w0) == 1), z3.And(opt, flag(w0) == 0), z3.And(opt, n == 1)), W == W0))
        for x, f in (('a name', plain), ('-v', v), ('other options', z3.And(opt, flag(w0) != 3))):
            cnt[x] = cnt.get(x, 0) + e.feasible(o.state, f)
    for x in ('a name', '-v', 'other options'):
        C.covers(x, cnt.get(x, 0))
