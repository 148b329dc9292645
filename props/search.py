"""contracts of the search along PATH and of the functions that execute a program (used by P12, P15, P20)"""
from .common import *
from mirv import sysm
SLASH, COLON = sv('/'), sv(':')
HIT = z3.Function('search_path_hit', z3.StringSort(), z3.StringSort(), z3.BoolSort())
WHERE = z3.Function('search_path_file', z3.StringSort(), z3.StringSort(), z3.StringSort())


def parts(p):
    i = z3.IndexOf(p, COLON, I(0))
    has = z3.Contains(p, COLON)
    return has, z3.If(has, z3.SubString(p, I(0), i), p), z3.SubString(p, i + 1, z3.Length(p) - i - 1)


def rule(p, cmd):
    """the directories of p in order: the first one that holds a regular file of that name"""
    has, d, tail = parts(p)
    f = z3.Concat(d, SLASH, cmd)
    reg = sysm.IS_FILE(f)
    return [z3.Implies(reg, sysm.EXISTS(f)),
            HIT(p, cmd) == z3.Or(reg, z3.And(has, HIT(tail, cmd))),
            WHERE(p, cmd) == z3.If(reg, f, z3.If(has, WHERE(tail, cmd), f))]


class Path:
    def __init__(self, C, e):
        self.e = e
        self.S = Scopes(C, e)
        e.spec_unfold = e.spec_unfold + [(HIT, rule), (WHERE, rule)]
        e.cand = self.cand
        self.base = None

    def cand(self, ctx):
        out = []
        if self.base is None:
            return out
        p0, cmd = self.base
        for p, o in ctx.iterators():
            if o.kind == 'split' and isinstance(o.d.get('rest'), z3.ExprRef):
                out.append(('rest of the search path %s' % (p,), z3.If(o.done, z3.Not(HIT(p0, cmd)), z3.And(HIT(o.rest, cmd) == HIT(p0, cmd), z3.Implies(HIT(p0, cmd), WHERE(o.rest, cmd) == WHERE(p0, cmd))))))
            elif o.kind in ('iter', 'vec', 'vecinto') and isinstance(o.d.get('seq'), z3.ExprRef) and False:
                pass
        return out

    def path_of(self, st, s, H=None):
        """(defined, value) of PATH in the outermost scope"""
        S = self.S
        H, Hv = S.Hc(st), S.Hv(st)
        return S.has(H, s[0], sv('PATH')), S.var(Hv, S.addr(H, s[0], sv('PATH')), 'value')

    def result(self, has, path, cmd):
        """(found, file) of the specification"""
        slash = z3.Contains(cmd, SLASH)
        return z3.Or(slash, z3.And(has, HIT(path, cmd))), z3.If(slash, cmd, WHERE(path, cmd))


def g_lookup(C):
    e = C.engine()
    P = Path(C, e)
    fn = C.fn(e, 'rsh::context::ContextManager::lookup_command')
    st, args, cells, cm, s = P.S.start(fn)
    cmd = args[1]
    has, path = P.path_of(st, s)
    P.base = (path, cmd)
    H, Hv = P.S.Hc(st), P.S.Hv(st)
    outs = e.run_fn(st, fn, args)
    found, where = P.result(has, path, cmd)
    n = {}
    for k, o in no_panic(C, 'lookup_command', outs):
        r = e.lower(o.value)
        so = r.sort()
        C.ob('lookup_command: path %d: found exactly when the name has a slash or some directory of PATH holds a regular file of that name' % k, e, o.state, so.recognizer(1)(r) == found)
        C.ob('lookup_command: path %d: the name itself, or the file in the first such directory' % k, e, o.state, z3.Implies(found, so.accessor(1, 0)(r) == where))
        C.ob('lookup_command: path %d: no variable changes' % k, e, o.state, z3.And(P.S.Hc(o.state) == H, P.S.Hv(o.state) == Hv))
        for nm, c in (('slash', z3.Contains(cmd, SLASH)), ('found', z3.And(z3.Not(z3.Contains(cmd, SLASH)), found)), ('not found', z3.Not(found))):
            n[nm] = n.get(nm, 0) + e.feasible(o.state, c)
    for nm in n:
        C.covers(nm, n[nm])


def g_exec(C, which='rsh::eval::temp_exec', part='path'):
    e = C.engine()
    P = Path(C, e)
    SH = ShellAt(C, e)
    lc = C.fn(e, 'rsh::context::ContextManager::lookup_command')

    def lookup(eng, st, fn, args):
        cm = term(eng, st, args[0])
        cmd = term(eng, st, args[1])
        s = P.S.stack(cm)
        found, where = P.result(*P.path_of(st, s), cmd)
        ot = fn['ret']
        so = eng.ty.sort(ot)
        return [Outcome('ret', st, z3.If(found, so.constructor(1)(where), so.constructor(0)()))]

    def reset(eng, st, fn, args):
        st.note('reset')
        return [Outcome('ret', st, Agg(fn['ret'], None, ()))]
    e.contracts['rsh::context::ContextManager::lookup_command'] = lookup
    e.contracts['rsh::jobs::fork_reset'] = reset
    fn = C.fn(e, which)
    short = which.split('::')[-1]
    st = State()
    args, cells = fresh_args(e, st, fn)
    proc = cells[0][1]
    PT = e.ty[fn['locals'][1]]['e']
    name, argv = fld(e, PT, 'argv0', proc), fld(e, PT, 'argv', proc)
    s = P.S.stack(SH.f(st, 'context_manager'))
    st.assume(z3.Length(s) >= 1)
    has, path = P.path_of(st, s)
    found, where = P.result(has, path, name)
    outs = e.run_fn(st, fn, args)
    ne = nr = 0
    for k, o in enumerate(outs):
        ex = [x for x in o.state.notes if x[0] == 'exec']
        if part != 'signals':
            C.claim('%s: path %d: at most one execution' % (short, k), len(ex) <= 1)
        if o.kind == 'exec':
            ne += 1
            if part == 'signals':
                C.claim('%s: path %d: the signals are put back before' % (short, k), any(x[0] == 'reset' for x in o.state.notes))
                continue
            if part != 'path':
                continue
            C.ob('%s: path %d: only a command that was found is executed' % (short, k), e, o.state, found)
            C.ob('%s: path %d: the file found along the path is executed, and no other' % (short, k), e, o.state, ex[0][1][0] == where)
            C.ob('%s: path %d: with the argument list of the process' % (short, k), e, o.state, ex[0][1][1] == argv)
        elif o.kind == 'ret':
            nr += 1
            if part == 'signals':
                continue
            C.ob('%s: path %d: otherwise an error, and nothing is executed' % (short, k), e, o.state, e.ty.sort(fn['ret']).recognizer(1)(e.lower(o.value)))
            C.claim('%s: path %d: nothing executed on an error' % (short, k), not ex)
        elif part != 'signals':
            C.claim('%s: path %d: ends the child or returns an error' % (short, k), o.kind in ('exit', 'panic'))
    C.covers('executions', ne)
    C.covers('errors', nr)
