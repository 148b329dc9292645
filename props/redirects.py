"""contracts of redirections, assignments in front of a command, and the start of a process (used by P05, P13, P20)"""
from .common import *
from mirv import sysm
from mirv.core import nth_cases as at, length
S, BOOL = z3.StringSort(), z3.BoolSort()
OPEN = z3.Function('opened', World, S, BOOL, BOOL, BOOL, BOOL, BOOL, World)
DUP = z3.Function('made_descriptor', World, S, BOOL, BOOL, BOOL, BOOL, BOOL, INT, World)
FL = ('read', 'write', 'append', 'create', 'truncate')


class Redir:
    def __init__(self, C, e):
        self.C, self.e = C, e
        self.fn = C.fn(e, 'rsh::eval::eval_redirect')
        VT = e.ty[self.fn['locals'][1]]['e']
        self.RT = e.ty.targs(VT)[0]
        self.seq = e.ty.sort(VT)
        self.W = z3.Function('redirections_done', World, self.seq, INT, World)
        e.spec_unfold = e.spec_unfold + [(self.W, self.rule)]

    def kinds(self, r):
        """(has a file, its name, input, output, append) of one redirection"""
        e = self.e
        ot = fty(e, self.RT, 'io_file')
        o = fld(e, self.RT, 'io_file', r)
        so = e.ty.sort(ot)
        FT = e.ty.targs(ot)[0]
        f = e.ty.acc(ot, 1, 0, o)
        KT = fty(e, FT, 'redirect_type')
        k = fld(e, FT, 'redirect_type', f)
        is_ = lambda n: (k == int(e.ty[KT]['v'][vidx(e, KT, n)]['disc'])) if e.ty.clike(KT) else e.ty.sort(KT).recognizer(vidx(e, KT, n))(k)
        return so.recognizer(1)(o), trim_spec(fld(e, FT, 'filename', f)), is_('Input'), is_('Output'), is_('Append')

    def step(self, W, r):
        has, name, i, o, a = self.kinds(r)
        T, F = z3.BoolVal(True), z3.BoolVal(False)

        def do(fl, n):
            v = [T if x in fl else F for x in FL]
            return DUP(OPEN(W, name, *v), name, *v, I(n))
        return z3.If(has, z3.If(i, do(('read',), 0), z3.If(o, do(('write', 'create', 'truncate'), 1), z3.If(a, do(('write', 'append', 'create'), 1), W))), W)

    def rule(self, W, l, n):
        return [self.W(W, l, n) == z3.If(n <= 0, W, self.step(self.W(W, l, n - 1), l[n - 1]))]

    def event(self, kind, st, *d):
        W = world(st)
        if kind == 'open':
            path, fl = d
            st.ghost['W'] = OPEN(W, path, *[fl[x] for x in FL])
        elif kind == 'dup2':
            desc, y = d
            st.ghost['W'] = DUP(W, sysm.D_PATH(desc), *[sysm.D_FLAGS[x](desc) for x in FL], y)


def g_redirect(C):
    e = C.engine()
    R = Redir(C, e)
    e.on_event = R.event
    st = State()
    args, cells = fresh_args(e, st, R.fn)
    l = cells[0][1]
    W0 = world(st)
    t0 = sysm.g(e, st, 'fd')
    K = z3.Const('any_descriptor', INT)
    st.assume(z3.And(z3.Select(t0, 0) != 0, z3.Select(t0, 1) != 0, z3.Select(t0, 2) != 0))
    st.assume(z3.Implies(z3.Select(t0, K) != 0, z3.Select(t0, K) > 0))
    st.assume(z3.And(K != 0, K != 1, z3.Select(t0, K) != 0))

    def cand(ctx):
        out = []
        W = ctx.st.ghost.get('W')
        if W is None:
            return out
        t = sysm.g(e, ctx.st, 'fd')
        for p, o in ctx.iterators():
            if o.kind in ('iter', 'vec', 'vecinto') and isinstance(o.d.get('pos'), z3.ExprRef) and o.seq.sort() == R.seq:
                out.append(('redirections so far %s' % (p,), W == R.W(W0, l, o.pos)))
        for p, x in ctx.ints():
            out.append(('redirections so far by index %s' % (p,), z3.And(x >= 0, x <= z3.Length(l), W == R.W(W0, l, x))))
        out.append(('standard descriptors open', z3.And(z3.Select(t, 0) != 0, z3.Select(t, 1) != 0, z3.Select(t, 2) != 0)))
        out.append(('no other descriptor', z3.Select(t, K) == z3.Select(t0, K)))
        return out
    e.cand = cand
    outs = e.run_fn(st, R.fn, args)
    n = 0
    for k, o in enumerate(outs):
        if o.kind == 'ret':
            n += 1
            C.ob('eval_redirect: path %d: every redirection was applied, each once, in order, to its own file, mode and descriptor' % k, e, o.state, o.state.ghost['W'] == R.W(W0, l, z3.Length(l)))
            C.ob('eval_redirect: path %d: no other open descriptor changes' % k, e, o.state, z3.Select(sysm.g(e, o.state, 'fd'), K) == z3.Select(t0, K))
            C.claim('eval_redirect: path %d: a file that could not be opened is not passed over' % k, not any(x[0] == 'syserr' for x in o.state.notes), 'goes on after an error')
        else:
            C.claim('eval_redirect: path %d: stops only when a file could not be opened' % k, o.kind in ('panic', 'exit') and any(x[0] == 'syserr' for x in o.state.notes), str(o.state.notes[-3:]))
    C.covers('redirections', n)
    C.covers('failures', len(outs) - n)


def g_prefix(C, prop='P05'):
    """the prefix's redirections, then the suffix's; the assignments of the prefix"""
    e = C.engine()
    R = Redir(C, e)
    fn = C.fn(e, 'rsh::eval::eval_prefix_suffix')
    C.fn(e, 'rsh::eval::eval_assignment')
    LIST = z3.Function('redirections', World, R.seq, World)
    ASG = z3.Function('assignments', World, z3.SeqSort(S), World)
    keep = {}

    def redirect(eng, st, f, args):
        if prop == 'P05':
            st.ghost['W'] = LIST(world(st), term(eng, st, args[0]))
        return [Outcome('ret', st, Agg(f['ret'], None, ()))]

    def assign(eng, st, f, args):
        if prop == 'P13':
            st.ghost['W'] = ASG(world(st), term(eng, st, args[0]))
        return [Outcome('ret', st, Agg(f['ret'], None, ()))]
    e.contracts['rsh::eval::eval_redirect'] = redirect
    e.contracts['rsh::eval::eval_assignment'] = assign
    st = State()
    T = fn['locals'][1]
    types = [T] if e.ty.kind(T) == 'tuple' else []
    args, cells = fresh_args(e, st, fn)
    ts = e.ty.field_types(T, None) if types else fn['locals'][1:3]
    W0 = world(st)
    v = e.lower(args[0]) if types else None
    parts = [v.sort().accessor(0, i)(v) for i in (0, 1)] if types else [e.lower(a) for a in args[:2]]
    W = W0
    for t, x in zip(ts, parts):
        so = e.ty.sort(t)
        it = e.ty.strip(e.ty.targs(t)[0])
        y = so.accessor(1, 0)(x)
        names = [f[0] for f in e.ty[it]['v'][0]['f']]
        if prop == 'P05':
            W = z3.If(so.recognizer(1)(x), LIST(W, fld(e, it, 'io_redirect', y)), W)
        elif 'assignment' in names:
            W = z3.If(so.recognizer(1)(x), ASG(W, fld(e, it, 'assignment', y)), W)
    outs = e.run_fn(st, fn, args)
    what = {'P05': 'the redirections in front of the name, then those behind it, all of them, once', 'P13': 'the assignments in front of the command, all of them, once'}[prop]
    for k, o in no_panic(C, 'eval_prefix_suffix', outs):
        C.ob('eval_prefix_suffix: path %d: %s' % (k, what), e, o.state, o.state.ghost['W'] == W)
    C.covers('paths', len(outs))


def g_assignment(C):
    e = C.engine()
    fn = C.fn(e, 'rsh::eval::eval_assignment')
    st = State()
    args, cells = fresh_args(e, st, fn)
    l = cells[0][1]
    en = sysm.g(e, st, 'env')
    ENV = z3.Function('environment_after', en.sort(), l.sort(), INT, en.sort())
    some_ = e.ty.opt(S).constructor(1)

    def rule(E, l, n):
        name, value = set_parts(l[n - 1])
        return [ENV(E, l, n) == z3.If(n <= 0, E, z3.Store(ENV(E, l, n - 1), name, some_(trim_spec(value))))]
    e.spec_unfold = e.spec_unfold + [(ENV, rule)]
    x = z3.Const('idx', INT)
    st.assume(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < length(l)), z3.Contains(at(l, x), sv('=')))))

    def cand(ctx):
        out = []
        t = sysm.g(e, ctx.st, 'env')
        for p, o in ctx.iterators():
            if isinstance(o.d.get('pos'), z3.ExprRef) and o.seq.sort() == l.sort():
                out.append(('assignments so far %s' % (p,), t == ENV(en, l, o.pos)))
        for p, y in ctx.ints():
            out.append(('assignments so far by index %s' % (p,), z3.And(y >= 0, y <= length(l), t == ENV(en, l, y))))
        return out
    e.cand = cand
    outs = e.run_fn(st, fn, args)
    n = 0
    for k, o in enumerate(outs):
        if o.kind == 'ret':
            n += 1
            C.ob('eval_assignment: path %d: the environment gets every assignment, in order, with its complete value, and nothing else' % k, e, o.state, sysm.g(e, o.state, 'env') == ENV(en, l, length(l)))
        elif o.kind == 'panic':
            C.claim('eval_assignment: path %d: stops only at a name or value the environment cannot hold' % k, any('env::set_var' in str(x) for x in o.state.notes), str(o.state.notes[-2:]))
    C.covers('paths', n)


def g_fork(C, prop='P20'):
    """temp_fork: the child knows it is one, the parent records the process"""
    e = C.engine()
    SH = ShellAt(C, e)
    fn = C.fn(e, 'rsh::eval::temp_fork')
    st = State()
    args, cells = fresh_args(e, st, fn)
    p0 = cells[0][1]
    PT = e.ty[fn['locals'][1]]['e']
    fd0, en0 = sysm.g(e, st, 'fd'), sysm.g(e, st, 'env')
    outs = e.run_fn(st, fn, args)
    n = {'parent': 0, 'child': 0, 'error': 0}
    for k, o in no_panic(C, 'temp_fork', outs):
        st2 = o.state
        r = e.lower(o.value)
        so = r.sort()
        child = any(x[0] == 'child' for x in st2.notes)
        if any(x[0] == 'syserr' for x in st2.notes):
            n['error'] += 1
            C.ob('temp_fork: path %d: an error is reported' % k, e, st2, so.recognizer(1)(r))
            continue
        v = so.accessor(0, 0)(r)
        raw = v.sort().accessor(0, 0)(v)
        C.ob('temp_fork: path %d: the result is the process' % k, e, st2, so.recognizer(0)(r))
        p1 = e.lower(e.read(st2, cells[0][0], ()))
        others = z3.And([e.ty.acc(PT, 0, i, p1) == e.ty.acc(PT, 0, i, p0) for i, f in enumerate(e.ty[PT]['v'][0]['f']) if f[0] != 'pid'])
        C.ob('temp_fork: path %d: nothing else of the process changes' % k, e, st2, others)
        C.claim('temp_fork: path %d: one process is started' % k, sum(x[0] in ('forked', 'child') for x in st2.notes) == 1)
        if child:
            n['child'] += 1
            C.ob('temp_fork: path %d: the child gets 0' % k, e, st2, raw == 0)
        else:
            n['parent'] += 1
            C.ob('temp_fork: path %d: the parent records the identifier of the child' % k, e, st2, z3.And(raw > 0, fld(e, PT, 'pid', p1) == v))
        C.ob('temp_fork: path %d: descriptors and environment stay' % k, e, st2, z3.And(sysm.g(e, st2, 'fd') == fd0, sysm.g(e, st2, 'env') == en0))
    for k in n:
        C.covers(k, n[k])
