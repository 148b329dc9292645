"""Function calls: own arguments, own scope, the caller's scope restored."""
from . import grammar
from .scopes import *
from e2e.suites import p10 as suite
from . import frames, texts
cases, RULE = suite.cases, suite.RULE
ASSUMES = ['eval_compound_command may do anything to scopes and variables but leaves the same stack of scopes it was given (induction over the nesting of calls: eval_function and create_context_from_file, proved to restore the stack when what they evaluate does, are by the frame the only functions below eval that push or pop a scope)'] + texts.ASSUMES


def body_contract(S, SH):
    def body(e, st, fn, args):
        """the commands of the function: arbitrary effect, balanced stack"""
        sh = SH.val(st)
        cm = SH.f(st, 'context_manager')
        st.note('body', S.Hc(st), S.Hv(st), S.stack(cm), term(e, st, args[0]), e.next_addr(st, S.kc), st.borrows)
        for key in (S.kc, S.kv, SH.key):
            old = e.heap(st, key)
            st.heaps[key] = e.fresh('after_body', old.sort())
        st.assume(S.stack(SH.f(st, 'context_manager')) == S.stack(cm))
        st.note('afterbody', S.Hc(st), S.Hv(st), SH.val(st))
        return [Outcome('ret', st, Agg(fn['ret'], None, ()))]
    return body


def g_call(C):
    e = C.engine()
    S = Scopes(C, e)
    SH = ShellAt(C, e)
    e.contracts['rsh::eval::eval_compound_command'] = body_contract(S, SH)
    fn = C.fn(e, 'rsh::eval::eval_function')
    st = State()
    args, cells = fresh_args(e, st, fn)
    cmd = cells[0][1]
    CT = e.ty[fn['locals'][1]]['e']
    cm = SH.f(st, 'context_manager')
    s = S.stack(cm)
    st.assume(z3.Length(s) >= 1)
    S.base = (S.Hc(st), s)
    name = fld(e, CT, 'name', cmd)
    st.assume(z3.Not(z3.Contains(name, NS)))
    S.names = [name]
    B = Before(S, st, cm, s)
    nc0 = e.next_addr(st, S.kc)
    suf = fld(e, CT, 'suffix', cmd)
    has = suf.sort().recognizer(1)(suf)
    sty = e.ty.targs(fty(e, CT, 'suffix'))[0]
    words = fld(e, sty, 'word', suf.sort().accessor(1, 0)(suf))
    n = z3.If(has, z3.Length(words), I(0))
    J, Q = z3.Const('J', INT), z3.Const('Q', z3.StringSort())
    pn = z3.IntToStr(J + 1)
    st.assume(z3.And(J >= 0, z3.StrToInt(pn) == J + 1, z3.Length(pn) > 0, pn != sv('0')))
    inner = S.cand

    def bound(H, Hv, c, upto):
        a = S.addr(H, c, pn)
        return z3.Implies(J < upto, z3.And(S.has(H, c, pn), S.var(Hv, a, 'value') == words[J]))

    def only(H, c, upto):
        return z3.Implies(z3.And(S.has(H, c, Q), Q != sv('0')), z3.And(z3.StrToInt(Q) >= 1, z3.StrToInt(Q) <= upto, Q == z3.IntToStr(z3.StrToInt(Q))))

    def cand(ctx):
        out = inner(ctx)
        for p, o in ctx.iterators():
            if o.kind == 'iter' and o.seq.sort() == words.sort():
                H, Hv = S.Hc(ctx.st), S.Hv(ctx.st)
                pos = o.pos
                c = nc0
                # the index the enumeration hands out is the position
                for p2, o2 in ctx.iterators():
                    if o2.kind == 'count':
                        out.append(('count %s %s' % (p, p2), o2.n == pos))
                kv = e.next_addr(ctx.st, S.kv)
                out.append(('bound %s' % (p,), bound(H, Hv, c, pos)))
                out.append(('boundwf %s' % (p,), z3.Implies(J < pos, S.addr(H, c, pn) < kv)))
                out.append(('only %s' % (p,), only(H, c, pos)))
                a0 = S.addr(H, c, sv('0'))
                out.append(('zero %s' % (p,), z3.And(S.has(H, c, sv('0')), S.var(Hv, a0, 'value') == name, a0 < kv)))
                x = z3.Const('anyscope', INT)
                y = z3.Const('anyvar', INT)
                out.append(('frame %s' % (p,), z3.Implies(x != c, z3.Select(H, x) == z3.Select(B.H, x))))
                out.append(('framev %s' % (p,), z3.And(kv >= B.n0, z3.Implies(y < B.n0, z3.Select(Hv, y) == z3.Select(B.Hv, y)))))
                for q, t in ctx.ints():
                    out.append(('int %s %s' % (p, q), t == pos))
        return out
    e.cand = cand
    x, y = z3.Const('anyscope', INT), z3.Const('anyvar', INT)
    outs = e.run_fn(st, fn, args)
    called = 0
    fi, fa = S.lookup(B.H, s, name, 'functions')
    for k, o in no_panic(C, 'eval_function', outs):
        r = e.lower(o.value)
        so = r.sort()
        b = [t for t in o.state.notes if t[0] == 'body']
        ab = [t for t in o.state.notes if t[0] == 'afterbody']
        cm2 = SH.f(o.state, 'context_manager')
        C.ob('eval_function: path %d: the stack of scopes is the caller\'s again' % k, e, o.state, S.stack(cm2) == s)
        C.claim('eval_function: path %d: no borrow is left' % k, not o.state.borrows, '')
        if not b:
            C.ob('eval_function: path %d: only an undefined function is not called' % k, e, o.state, z3.And(fi < 0, so.recognizer(1)(r)))
            C.ob('eval_function: path %d: an undefined function changes nothing' % k, e, o.state, z3.And(S.Hc(o.state) == B.H, S.Hv(o.state) == B.Hv))
            continue
        called += 1
        C.claim('eval_function: path %d: the body is evaluated once' % k, len(b) == 1, '')
        _, H, Hv, stk, body, _, brw = b[0]
        C.claim('eval_function: path %d: the body may use every scope' % k, not brw, str(brw))
        top = nth(stk, z3.Length(stk) - 1)
        C.ob('eval_function: path %d: the body runs in a new scope on top of the caller\'s' % k, e, o.state, z3.And(z3.Length(stk) == z3.Length(s) + 1, z3.SubSeq(stk, I(0), z3.Length(s)) == s, top >= nc0))
        C.ob('eval_function: path %d: the body is that of the innermost function of that name' % k, e, o.state, z3.And(fi >= 0))
        C.ob('eval_function: path %d: $J is the J-th argument of this call' % k, e, o.state, z3.Implies(J < n, z3.And(S.has(H, top, pn), S.var(Hv, S.addr(H, top, pn), 'value') == words[J])))
        C.ob('eval_function: path %d: $0 is the name of the function' % k, e, o.state, z3.And(S.has(H, top, sv('0')), S.var(Hv, S.addr(H, top, sv('0')), 'value') == name))
        C.ob('eval_function: path %d: the scope of the call holds nothing but its parameters' % k, e, o.state, only(H, top, n))
        C.ob('eval_function: path %d: binding the parameters changes no scope and no variable that existed' % k, e, o.state, z3.And(z3.Implies(x < nc0, z3.Select(H, x) == z3.Select(B.H, x)), z3.Implies(y < B.n0, z3.Select(Hv, y) == z3.Select(B.Hv, y))))
        C.ob('eval_function: path %d: nothing but the body changes a variable afterwards' % k, e, o.state, z3.And(S.Hc(o.state) == ab[0][1], S.Hv(o.state) == ab[0][2], SH.same_except(SH.val(o.state), ab[0][3], 'context_manager')))
    C.covers('calls', called)
    C.covers('undefined functions', len(outs) - called)


PROOFS = [('eval_function', g_call), ('entering and leaving a scope', g_pushpop), ('lookup after a change', g_lemmas)]
PROOFS += [('definitions of functions', g_functions)]
PROOFS += [('source: parameters', lambda C: texts.g_source(C, 'P10')), ('export context: its scope', texts.g_context_file)]
PROOFS += [frames.frame('scopes', 'scopes are pushed and popped only by the functions under contract', r'^rsh::(interactive_loop|script_loop|read_from_args|eval::eval)$')]
PROOFS = PROOFS + [('actions of the grammar', lambda C: grammar.g_actions(C, 'P10'))]
ASSUMES = list(globals().get('ASSUMES', [])) + grammar.ASSUMES
