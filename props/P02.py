"""Lists of commands: each and-or list once, in order, stopping at the first evaluation error."""
from . import grammar
from .common import *
from e2e.suites import p02 as suite
from . import texts
cases, RULE = suite.cases, suite.RULE
ASSUMES = ['eval_and_or is an arbitrary function of the state of the shell and of its tree (its own contract is proved under P01)']


def list_cand(L, W0, l0):
    e = L.e

    def cand(ctx):
        out = []
        W = ctx.st.ghost.get('W')
        for p, o in ctx.iterators():
            if o.kind in ('iter', 'itermut') and isinstance(o.d.get('pos'), z3.ExprRef) and o.seq.sort() == l0.sort():
                out.append(('evaluated prefix %s' % (p,), z3.And(W == L.lw(W0, l0, o.pos), L.lok(W0, l0, o.pos)) if W is not None else z3.BoolVal(False)))
                for q, t in ctx.ints():
                    if q[0] == 'L' and q[1] == ctx.fid:
                        out.append(('status %s %s' % (p, q), t == L.ls(W0, l0, o.pos)))
        for p, t in ctx.ints():
            if p[0] == 'L' and p[1] == ctx.fid:
                out.append(('prefix by index %s' % (p,), z3.And(W == L.lw(W0, l0, t), L.lok(W0, l0, t), t >= 0, t <= z3.Length(l0)) if W is not None else z3.BoolVal(False)))
                for q, u in ctx.ints():
                    if q != p and q[0] == 'L' and q[1] == ctx.fid:
                        out.append(('status by index %s %s' % (p, q), u == L.ls(W0, l0, t)))
        return out
    return cand


def g_list(C):
    e = C.engine()
    L = Lists(C, e)
    e.contracts['rsh::eval::eval_and_or'] = L.andor_contract
    fn = C.fn(e, 'rsh::eval::parse_tree')
    st = State()
    args, cells = fresh_args(e, st, fn)
    l0 = cells[0][1]
    W0 = world(st)
    e.cand = list_cand(L, W0, l0)
    n = z3.Length(l0)
    outs = e.run_fn(st, fn, args)
    good = bad = 0
    for k, o in no_panic(C, 'parse_tree', outs):
        r = e.lower(o.value)
        isok = e.feasible(o.state, L.ok(r))
        C.ob('parse_tree: path %d: an error exactly when some and-or list reported one' % k, e, o.state, L.ok(r) == L.lok(W0, l0, n)) if isok else None
        C.ob('parse_tree: path %d: every and-or list once, in order, each in the state the previous one left' % k, e, o.state, z3.Implies(L.ok(r), o.state.ghost['W'] == L.lw(W0, l0, n)))
        C.ob('parse_tree: path %d: the status is that of the last and-or list' % k, e, o.state, z3.Implies(L.ok(r), L.okv(r) == L.ls(W0, l0, n)))
        if e.feasible(o.state, z3.Not(L.ok(r))):
            bad += 1
            calls = [x for x in o.state.notes if x[0] == 'andor']
            C.claim('parse_tree: path %d: it stops at an and-or list' % k, bool(calls))
            if calls:
                W, a = calls[-1][1], calls[-1][2]
                C.ob('parse_tree: path %d: an error is that of the and-or list evaluated last, and nothing runs after it' % k, e, o.state, z3.Implies(z3.Not(L.ok(r)), z3.And(r == L.ar(W, a), o.state.ghost['W'] == L.aw(W, a))))
        if isok:
            good += 1
    C.covers('lists that run to the end', good)
    C.covers('lists that stop at an error', bad)


def g_callers(C):
    """a command line, the body of a function, sourced and evaluated text: the whole list, once"""
    e = C.engine()
    L = Lists(C, e)
    e.contracts['rsh::eval::parse_tree'] = L.list_contract
    fn = C.fn(e, 'rsh::eval::eval')
    st = State()
    args, cells = fresh_args(e, st, fn)
    W0 = world(st)
    cc = cells[0][1]
    CT = e.ty[fn['locals'][1]]['e']
    opt = fld(e, CT, 'list', cc)
    lt = e.ty.targs(fty(e, CT, 'list'))[0]
    lst = e.ty.acc(lt, 0, 0, opt.sort().accessor(1, 0)(opt))
    has = opt.sort().recognizer(1)(opt)
    n = z3.Length(lst)
    outs = e.run_fn(st, fn, args)
    for k, o in no_panic(C, 'eval', outs):
        r = e.lower(o.value)
        W = o.state.ghost['W']
        C.ob('eval: path %d: the list of the command line is evaluated once' % k, e, o.state, W == z3.If(has, L.lw(W0, lst, n), W0))
        C.ob('eval: path %d: its status is the status of the command line' % k, e, o.state, z3.And(L.ok(r) == z3.Or(z3.Not(has), L.lok(W0, lst, n)), z3.Implies(L.ok(r), L.okv(r) == z3.If(has, L.ls(W0, lst, n), I(0)))))
    C.covers('command lines', len(outs))
    fn = C.fn(e, 'rsh::eval::eval_compound_command')
    st = State()
    args, cells = fresh_args(e, st, fn)
    st.ghost.pop('W', None)
    W0 = world(st)
    c0 = cells[0][1]
    CT = e.ty[fn['locals'][1]]['e']
    bi = vidx(e, CT, 'BraceGroup')
    so = c0.sort()
    st.assume(so.recognizer(bi)(c0))
    body = e.ty.acc(CT, bi, 0, c0)
    t = e.ty.field_types(CT, bi)[0]
    while body.sort().kind() != z3.Z3_SEQ_SORT:
        t = e.ty.strip(t)
        body, t = e.ty.acc(t, 0, 0, body), e.ty.field_types(t, 0)[0]
    outs = e.run_fn(st, fn, args)
    for k, o in no_panic(C, 'eval_compound_command', outs):
        C.ob('eval_compound_command: path %d: the list in braces is evaluated once' % k, e, o.state, o.state.ghost['W'] == L.lw(W0, body, z3.Length(body)))
    C.covers('groups', len(outs))


PROOFS = [('parse_tree against the specification of a list', g_list), ('command lines and function bodies', g_callers)]
PROOFS += [('eval', texts.g_eval_cmd), ('rsh -c', texts.g_line), ('source', lambda C: texts.g_source(C, 'P02'))]
PROOFS += [('scripts: every line', texts.g_script), ('interactive: every line', texts.g_interactive)]
ASSUMES += ['BufRead::read_line and Editor::readline either fail or append the next line of the input (how the input is cut into lines is theirs)']
PROOFS = PROOFS + [('actions of the grammar', lambda C: grammar.g_actions(C, 'P02'))]
ASSUMES = list(globals().get('ASSUMES', [])) + grammar.ASSUMES
