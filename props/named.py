"""contracts of the named contexts: NAMESPACE::NAME (used by P23)

`export context NS=FILE` keeps the scope FILE was evaluated in under the name NS; a name NS::M is looked up, removed and made read-only in that scope and nowhere else."""
from .scopes import *


def ns_parts(t):
    """NS::M: the text before and behind the first ::"""
    i = z3.IndexOf(t, NS, I(0))
    return z3.SubString(t, I(0), i), z3.SubString(t, i + 2, z3.Length(t) - i - 2)


def exported(S, cm, ns):
    """(defined, address) of the context with that name"""
    o = z3.Select(fld(S.e, S.CM, 'exported_contexts', cm), ns)
    return o.sort().recognizer(1)(o), o.sort().accessor(1, 0)(o)


LOOKUPS = (('expand_var', 'vars'), ('is_function', 'functions'), ('get_function', 'functions'))
REMOVE, READONLY, VALUE = (('remove_var', False), ('remove_function', False)), (('set_readonly_var', False), ('add_readonly_var', False)), (('add_readonly_var', True),)


def text_facts(text, ns, member, value, eq):
    i, n = z3.Length(ns), z3.Length(member)
    name = z3.Concat(ns, NS, member)
    out = [('the name holds ::', z3.Contains(name, NS)), ('the text holds ::', z3.Contains(text, NS)), ('the first :: ends the namespace', z3.IndexOf(text, NS, I(0)) == i), ('the namespace is in front of it', z3.SubString(text, I(0), i) == ns),
           ('the rest is behind it', z3.SubString(text, i + 2, z3.Length(text) - i - 2) == (z3.Concat(member, sv('='), value) if eq else member))]
    if eq:
        rest = z3.Concat(member, sv('='), value)
        out += [('the first = ends the name', z3.IndexOf(text, sv('='), I(0)) == i + 2 + n), ('the name is in front of it', z3.SubString(text, I(0), i + 2 + n) == name), ('the first = ends the member', z3.IndexOf(rest, sv('='), I(0)) == n),
                ('the member is in front of it', z3.SubString(rest, I(0), n) == member), ('the value is behind it', z3.SubString(rest, n + 1, z3.Length(rest) - n - 1) == value)]
    else:
        out += [('no =', z3.Not(z3.Contains(text, sv('='))))]
    return out


def g_text(C):
    """facts about the texts NS::M that the proof of readonly relies on"""
    e = C.engine()
    for eq in (False,):
        st = State()
        ns, member, value = (e.fresh(x, z3.StringSort()) for x in ('namespace', 'member', 'value'))
        text = z3.Concat(ns, NS, member) if not eq else z3.Concat(ns, NS, member, sv('='), value)
        st.assume(z3.And(z3.Not(z3.Contains(ns, sv('='))), z3.Not(z3.Contains(member, sv('='))), z3.Not(z3.Contains(ns, NS)), z3.Not(z3.Contains(member, NS)), z3.Not(z3.SuffixOf(sv(':'), ns))))
        for nm, f in text_facts(text, ns, member, value, eq):
            C.ob('NS::M%s: %s' % ('=VALUE' if eq else '', nm), e, st, f)


def start(C, short, eq=False):
    e, S, SH, fn, st, args, cm, s = wrapper(C, short)
    t = args[0]
    value = sv('')
    if short == 'add_readonly_var':
        ns, member = e.fresh('namespace', z3.StringSort()), e.fresh('member', z3.StringSort())
        text = z3.Concat(ns, NS, member)
        if eq:
            value = e.fresh('value', z3.StringSort())
            text = z3.Concat(text, sv('='), value)
        args[0] = text
        i, n = z3.Length(ns), z3.Length(member)
        st.assume(z3.And(z3.Not(z3.Contains(ns, sv('='))), z3.Not(z3.Contains(member, sv('='))), z3.Not(z3.Contains(ns, NS)), z3.Not(z3.Contains(member, NS)), z3.Not(z3.SuffixOf(sv(':'), ns))))
        # facts about such a text, each proved as a lemma (g_text)
        for _, f in text_facts(text, ns, member, value, eq):
            st.assume(f)
    else:
        st.assume(z3.Contains(t, NS))
        ns, member = ns_parts(t)
        st.assume(z3.Not(z3.Contains(member, NS)))
    S.names = [member]
    d, c = exported(S, cm, ns)
    return e, S, SH, fn, st, args, cm, s, ns, member, value, d, c


def g_lookups(C):
    """a name NS::M is looked up in the context NS, whatever the scope stack holds, and the lookup changes nothing"""
    for short, field in LOOKUPS:
        e, S, SH, fn, st, args, cm, s, ns, member, value, d, c = start(C, short)
        sh0, H, Hv = SH.val(st), S.Hc(st), S.Hv(st)
        there = z3.And(d, S.has(H, c, member, field))
        a = S.addr(H, c, member, field)
        outs = e.run_fn(st, fn, args)
        for k, o in no_panic(C, short, outs):
            t = '%s: path %d: ' % (short, k)
            r = e.lower(o.value)
            if short == 'is_function':
                C.ob(t + 'exactly the functions of the named context', e, o.state, r == there)
            else:
                so = r.sort()
                C.ob(t + 'defined exactly when the named context defines it', e, o.state, so.recognizer(1)(r) == there)
                C.ob(t + 'what the named context holds', e, o.state, z3.Implies(there, so.accessor(1, 0)(r) == (S.var(Hv, a, 'value') if short == 'expand_var' else a)))
            C.ob(t + 'nothing changes', e, o.state, z3.And(S.Hc(o.state) == H, S.Hv(o.state) == Hv, SH.val(o.state) == sh0))
            C.claim(t + 'no borrow is left', not o.state.borrows, str(o.state.borrows))
        for nmx, cc in (('defined', there), ('no such context', z3.Not(d)), ('no such member', z3.And(d, z3.Not(there)))):
            C.covers(short + ': ' + nmx, sum(e.feasible(o.state, cc) for o in outs))


def g_changes(C, which):
    """unset, unset -f and readonly of NS::M act on the context NS alone, and leave a read-only variable as it is"""
    for short, eq in which:
        e, S, SH, fn, st, args, cm, s, ns, member, value, d, c = start(C, short, eq)
        sh0, H, Hv = SH.val(st), S.Hc(st), S.Hv(st)
        S.wf_addr(st, H, c, member)
        n0 = e.next_addr(st, S.kv)
        there = z3.And(d, S.has(H, c, member))
        a = S.addr(H, c, member)
        ro = z3.And(there, S.var(Hv, a, 'readonly'))
        outs = e.run_fn(st, fn, args)
        cc, q, x = e.fresh('any_scope', INT), e.fresh('any_name', z3.StringSort()), e.fresh('any_var', INT)
        for k, o in no_panic(C, short, outs):
            t = '%s: path %d: ' % (short, k)
            z = o.state
            H2, Hv2 = S.Hc(z), S.Hv(z)
            opt = lambda hp, f: S.opt(hp, cc, q, f)
            other = z3.Or(z3.Not(d), cc != c, q != member)
            if short == 'remove_function':
                C.ob(t + 'the function of the named context is removed', e, z, z3.Implies(d, z3.Not(S.has(H2, c, member, 'functions'))))
                C.ob(t + 'no other function is', e, z, z3.Implies(other, opt(H2, 'functions') == opt(H, 'functions')))
                C.ob(t + 'variables stay', e, z, z3.And(S.table(H2, cc) == S.table(H, cc), Hv2 == Hv))
            else:
                C.ob(t + 'no other name and no other scope changes', e, z, z3.Implies(other, opt(H2, 'vars') == opt(H, 'vars')))
                C.ob(t + 'functions stay', e, z, z3.And(S.table(H2, cc, 'functions') == S.table(H, cc, 'functions'), S.table(H2, cc, 'readonly_functions') == S.table(H, cc, 'readonly_functions')))
                C.ob(t + 'a read-only variable of the named context stays as it is', e, z, z3.Implies(ro, z3.And(H2 == H, z3.Select(Hv2, a) == z3.Select(Hv, a))))
                C.ob(t + 'no other variable changes', e, z, z3.Implies(z3.And(x < n0, z3.Or(z3.Not(there), x != a)), z3.Select(Hv2, x) == z3.Select(Hv, x)))
            if short == 'remove_var':
                C.ob(t + 'the variable of the named context is removed', e, z, z3.Implies(z3.And(d, z3.Not(ro)), z3.Not(S.has(H2, c, member))))
            if short == 'set_readonly_var':
                C.ob(t + 'it keeps its value and becomes read-only', e, z, z3.Implies(there, z3.And(H2 == H, S.var(Hv2, a, 'readonly'), S.var(Hv2, a, 'value') == S.var(Hv, a, 'value'), S.var(Hv2, a, 'name') == S.var(Hv, a, 'name'))))
            if short == 'add_readonly_var':
                na = S.addr(H2, c, member)
                C.ob(t + 'the named context holds the read-only value', e, z, z3.Implies(z3.And(d, z3.Not(ro)), z3.And(S.has(H2, c, member), S.var(Hv2, na, 'readonly'), S.var(Hv2, na, 'value') == trim_spec(value), S.var(Hv2, na, 'name') == member)))
            C.ob(t + 'without such a context nothing changes', e, z, z3.Implies(z3.Not(d), z3.And(H2 == H, Hv2 == Hv)))
            C.ob(t + 'the shell is untouched', e, z, SH.val(z) == sh0)
            C.claim(t + 'no borrow is left', not z.borrows, str(z.borrows))
        for nmx, f in (('defined', there), ('no such context', z3.Not(d)), ('read-only', ro)):
            C.covers(short + ': ' + nmx, sum(e.feasible(o.state, f) for o in outs))


def g_table(C):
    """export context and unset -c add and remove exactly the context of that name"""
    for short in ('add_context', 'remove_context'):
        e, S, SH, fn, st, args, cm, s = wrapper(C, short)
        sh0, H, Hv = SH.val(st), S.Hc(st), S.Hv(st)
        q = e.fresh('any_name', z3.StringSort())
        outs = e.run_fn(st, fn, args)
        for k, o in no_panic(C, short, outs):
            t = '%s: path %d: ' % (short, k)
            z = o.state
            cm2 = SH.f(z, 'context_manager')
            d2, c2 = exported(S, cm2, args[0])
            if short == 'add_context':
                C.ob(t + 'the name stands for the context', e, z, z3.And(d2, c2 == e.lower(args[1])))
            else:
                C.ob(t + 'the name stands for nothing', e, z, z3.Not(d2))
            sel = lambda m: z3.Select(fld(e, S.CM, 'exported_contexts', m), q)
            C.ob(t + 'no other name is affected', e, z, z3.Implies(q != args[0], sel(cm2) == sel(cm)))
            C.ob(t + 'scopes and variables stay', e, z, z3.And(S.stack(cm2) == s, S.Hc(z) == H, S.Hv(z) == Hv))
            wrapper_frame(C, short, k, o, e, SH, sh0)
        C.covers(short, len(outs))
