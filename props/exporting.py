"""contract of the export builtin: the only builtin that changes the environment (used by P13)"""
from .common import *
from mirv import sysm
from mirv.core import nth_cases as at, length
S = z3.StringSort()
ASSUMES = ['export context ..., which names scopes and leaves the environment alone, and export -p, which prints, are outside the contract of export']


def int_consts(st):
    """the integers a path talks about: the witnesses its obligations may need"""
    seen, out, todo = set(), [], list(st.pc)
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.sort() == INT and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(t)
        todo += t.body().children() if z3.is_quantifier(t) else t.children()
    return out or [I(0)]


def g_export(C):
    e = C.engine()
    fn = C.fn(e, 'rsh::builtins::export')
    CT = e.ty[fn['locals'][1]]['e']
    F = z3.Function
    ADD = F('after_add_var', World, S, INT, World)
    DEF = F('after_function', World, S, World)
    ev = C.fn(e, 'rsh::shell::expand_var')
    OS = e.ty.sort(ev['ret'])
    VAR = F('variable', World, S, OS)
    HASF = F('function_defined', World, S, z3.BoolSort())

    def add(eng, st, f, a):
        st.ghost['W'] = ADD(world(st), term(eng, st, a[0]), term(eng, st, a[1]))
        return [Outcome('ret', st, Agg(f['ret'], None, ()))]
    C.fn(e, 'rsh::shell::add_var')
    e.contracts['rsh::shell::add_var'] = add
    e.contracts['rsh::shell::expand_var'] = lambda eng, st, f, a: [Outcome('ret', st, VAR(world(st), term(eng, st, a[0])))]

    def getf(eng, st, f, a):
        r = eng.fresh_ty(st, f['ret'], 'function')
        t = eng.lower(r)
        st.assume(t.sort().recognizer(1)(t) == HASF(world(st), term(eng, st, a[0])))
        return [Outcome('ret', st, r)]
    C.fn(e, 'rsh::shell::get_function')
    e.contracts['rsh::shell::get_function'] = getf

    def addf(eng, st, f, a):
        st.ghost['W'] = DEF(world(st), term(eng, st, a[1]))
        return [Outcome('ret', st, Agg(f['ret'], None, ()))]
    C.fn(e, 'rsh::context::Context::add_function')
    e.contracts['rsh::context::Context::add_function'] = addf
    C.fn(e, 'rsh::shell::get_env_context')
    e.contracts['rsh::shell::get_env_context'] = lambda eng, st, f, a: [Outcome('ret', st, eng.fresh_ty(st, f['ret'], 'outermost_scope'))]
    st = State()
    args, cells = fresh_args(e, st, fn)
    cmd = cells[0][1]
    so_ = fty(e, CT, 'suffix')
    sopt = fld(e, CT, 'suffix', cmd)
    has = e.ty.sort(so_).recognizer(1)(sopt)
    suf = e.ty.acc(so_, 1, 0, sopt)
    words = fld(e, e.ty.targs(so_)[0], 'word', suf)
    st.assume(z3.And(has, length(words) > 0, at(words, I(0)) != sv('context'), z3.Not(z3.PrefixOf(sv('-p'), at(words, I(0))))))
    en = sysm.g(e, st, 'env')
    W0 = world(st)
    EW = F('world_after_exports', World, words.sort(), INT, World)
    EN = F('environment_after_exports', World, en.sort(), words.sort(), INT, en.sort())
    some_ = e.ty.opt(S).constructor(1)

    def rule(*a):
        W, l, n = a[0], a[-2], a[-1]
        E = a[1] if len(a) == 4 else en
        w = l[n - 1]
        w0, e0 = EW(W, l, n - 1), EN(W, E, l, n - 1)
        name, value = set_parts(w)
        v = VAR(w0, w)
        vv = OS.accessor(1, 0)(v)
        eq = z3.Contains(w, sv('='))
        return [EW(W, l, n) == z3.If(n <= 0, W, z3.If(w == sv(''), w0, z3.If(eq, ADD(w0, w, I(0)), z3.If(OS.recognizer(1)(v), ADD(w0, z3.Concat(w, sv('='), vv), I(0)), z3.If(HASF(w0, w), DEF(w0, w), w0))))),
                EN(W, E, l, n) == z3.If(n <= 0, E, z3.If(w == sv(''), e0, z3.If(eq, z3.Store(e0, name, some_(trim_spec(value))), z3.If(OS.recognizer(1)(v), z3.Store(e0, w, some_(vv)), e0))))]
    e.spec_unfold = e.spec_unfold + [(EW, rule), (EN, rule)]

    def cand(ctx):
        out = []
        t = sysm.g(e, ctx.st, 'env')

        def both(what, y):
            out.append(('environment after the words so far ' + what, t == EN(W0, en, words, y)))
            out.append(('variables after the words so far ' + what, world(ctx.st) == EW(W0, words, y)))
        for p, o in ctx.iterators():
            if isinstance(o.d.get('pos'), z3.ExprRef) and o.seq.sort() == words.sort():
                both(str(p), o.pos)
        for p, y in ctx.ints():
            out.append(('index in range %s' % (p,), z3.And(y >= 0, y <= length(words))))
            both(str(p), y)
        return out
    e.cand = cand
    outs = e.run_fn(st, fn, args)
    n = bad = 0
    for k, o in enumerate(outs):
        if o.kind == 'ret' and not e.feasible(o.state, e.lower(o.value).sort().recognizer(0)(e.lower(o.value))):
            bad += 1
            E, W = sysm.g(e, o.state, 'env'), world(o.state)
            def refused(y):
                w = at(words, y)
                v = VAR(W, w)
                return z3.Or(z3.PrefixOf(sv('='), w), z3.Contains(w, sv('\0')), z3.And(OS.recognizer(1)(v), z3.Contains(OS.accessor(1, 0)(v), sv('\0'))))
            C.ob('export: path %d: it stops only at a word without a name or with a NUL character, after having done the words before it' % k, e, o.state,
                 z3.Or([z3.And(y >= 0, y < length(words), refused(y), E == EN(W0, en, words, y), W == EW(W0, words, y)) for y in int_consts(o.state)]))
        elif o.kind == 'ret':
            n += 1
            C.ob('export: path %d: the environment gets every word of the form name=value with its complete value, every variable named with the value it has, in order, and nothing else' % k, e, o.state, sysm.g(e, o.state, 'env') == EN(W0, en, words, length(words)))
            C.ob('export: path %d: the shell has the same values' % k, e, o.state, world(o.state) == EW(W0, words, length(words)))
            C.ob('export: path %d: succeeds' % k, e, o.state, e.lower(o.value).sort().recognizer(0)(e.lower(o.value)))
        else:
            C.claim('export: path %d: returns' % k, False, o.kind)
    C.covers('paths', n)
