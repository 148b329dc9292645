"""contracts of aliases (used by P11)"""
from .common import *
from .words import Cmd, command, AST, SEQ, S, positions, seqs
from .builtins import g_simple
from mirv.core import nth_cases as at, length
from mirv.strs import SPLITWS


def table_get(t, k):
    o = z3.Select(t, k)
    return o.sort().recognizer(1)(o), o.sort().accessor(1, 0)(o)


def g_replace(C):
    """SimpleCommand::alias_lookup: the command word is replaced, once, and nothing else"""
    e = C.engine()
    fn = C.fn(e, AST + 'alias_lookup')
    lk = C.fn(e, 'rsh::shell::lookup_alias')
    so = e.ty.sort(lk['ret'])
    LOOK = z3.Function('alias_of', World, S, so)

    def look(eng, st, f, a):
        t = term(eng, st, a[0])
        st.note('lookup', t)
        return [Outcome('ret', st, LOOK(world(st), t))]
    e.contracts['rsh::shell::lookup_alias'] = look
    st = State()
    args, cells = fresh_args(e, st, fn)
    CT, c, P = command(e, fn, cells)
    W0 = world(st)
    r = LOOK(W0, P.name)
    has, pair = so.recognizer(1)(r), so.accessor(1, 0)(r)
    tt = e.ty.targs(lk['ret'])[0]
    name, opt = [pair.sort().accessor(0, i)(pair) for i in (0, 1)]
    more = z3.If(opt.sort().recognizer(1)(opt), opt.sort().accessor(1, 0)(opt), z3.Empty(SEQ))
    outs = e.run_fn(st, fn, args)
    n = [0, 0]
    for k, o in no_panic(C, 'alias_lookup', outs):
        s2 = o.state
        cell = e.lower(e.read(s2, args[0].root, args[0].path))
        Q = Cmd(e, CT, cell)
        t = 'alias_lookup: path %d: ' % k
        C.ob(t + 'the name of the command becomes the first word of the text', e, s2, z3.Implies(has, Q.name == name))
        C.ob(t + 'the other words of the text come first, then the words of the command, in order', e, s2, z3.Implies(has, Q.words == z3.Concat(more, P.words)))
        C.ob(t + 'the redirections stay', e, s2, z3.Implies(z3.And(has, P.has), z3.And(Q.has, Q.redirs == P.redirs)))
        C.ob(t + 'the assignments stay', e, s2, Q.prefix == P.prefix)
        C.ob(t + 'a command whose name is no alias is left alone', e, s2, z3.Implies(z3.Not(has), cell == c))
        looks = [x for x in s2.notes if x[0] == 'lookup']
        C.claim(t + 'only the command word is looked up, once', len(looks) == 1)
        for x in looks:
            C.ob(t + 'what is looked up is the command word', e, s2, x[1] == P.name)
        n[0] += e.feasible(s2, has)
        n[1] += e.feasible(s2, z3.Not(has))
    C.covers('an alias', n[0])
    C.covers('no alias', n[1])


def g_find(C):
    """Shell::lookup_alias: the words of the text of that name, and nothing for another name"""
    e = C.engine()
    fn = C.fn(e, 'rsh::shell::Shell::lookup_alias')
    st = State()
    args, cells = fresh_args(e, st, fn)
    sh, nm = cells[0][1], cells[1][1]
    ST = e.ty[fn['locals'][1]]['e']
    has, text = table_get(fld(e, ST, 'aliases', sh), nm)
    w = SPLITWS(text)
    outs = e.run_fn(st, fn, args)
    n = [0, 0]
    for k, o in no_panic(C, 'lookup_alias', outs):
        r = e.lower(o.value)
        so = r.sort()
        pair = so.accessor(1, 0)(r)
        name, opt = [pair.sort().accessor(0, i)(pair) for i in (0, 1)]
        more = z3.If(opt.sort().recognizer(1)(opt), opt.sort().accessor(1, 0)(opt), z3.Empty(SEQ))
        t = 'lookup_alias: path %d: ' % k
        C.ob(t + 'exactly the names that are defined are found', e, o.state, so.recognizer(1)(r) == has)
        C.ob(t + 'the first word of the text', e, o.state, z3.Implies(z3.And(has, length(w) > 0), name == w[0]))
        C.ob(t + 'and its other words, in order', e, o.state, z3.Implies(z3.And(has, length(w) > 0), more == z3.SubSeq(w, I(1), length(w) - 1)))
        n[0] += e.feasible(o.state, has)
        n[1] += e.feasible(o.state, z3.Not(has))
    C.covers('defined', n[0])
    C.covers('not defined', n[1])


def g_table(C):
    """add_alias, remove_alias, clear_aliases: the table of aliases changes at that name, and the rest of the shell not at all"""
    n = 0
    for which in ('add_alias', 'remove_alias', 'clear_aliases', 'lookup_alias', 'display_aliases'):
        e = C.engine()
        SH = ShellAt(C, e)
        names = [f['nname'] for f in e.fns.values() if re.fullmatch(r'rsh::shell::%s(::<.*>)?' % which, f['nname']) and f.get('blocks')]
        if not names:
            raise Unsupported('anchor not found: rsh::shell::' + which)
        for name in names:
            fn = C.fn(e, name)
            st = State()
            args, cells = fresh_args(e, st, fn)
            s0 = SH.val(st)
            t0 = SH.f(st, 'aliases')
            K = z3.Const('any_name', S)
            outs = e.run_fn(st, fn, args)
            for k, o in no_panic(C, which, outs):
                s2 = o.state
                t1 = SH.f(s2, 'aliases')
                t = '%s: path %d: ' % (name.split('shell::')[-1], k)
                n += 1
                C.ob(t + 'nothing else of the shell changes', e, s2, SH.same_except(s0, SH.val(s2), *(() if which in ('lookup_alias', 'display_aliases') else ('aliases',))))
                if which == 'clear_aliases':
                    C.ob(t + 'no name is an alias any more', e, s2, z3.Not(table_get(t1, K)[0]))
                elif which == 'remove_alias':
                    C.ob(t + 'the name is no alias any more', e, s2, z3.Not(table_get(t1, cells[0][1])[0]))
                    C.ob(t + 'every other name is as before', e, s2, z3.Implies(K != cells[0][1], z3.Select(t1, K) == z3.Select(t0, K)))
                elif which == 'add_alias':
                    a = cells[0][1]
                    if z3.is_string(a):
                        nm, value = set_parts(a)
                        good = z3.Contains(a, sv('='))
                    else:
                        raise Unsupported('add_alias argument')
                    h, v = table_get(t1, nm)
                    C.ob(t + 'the name stands for the text behind the equal sign, without its quotes', e, s2, z3.Implies(good, z3.And(h, v == trim_spec(value))))
                    C.ob(t + 'every other name is as before', e, s2, z3.Implies(z3.Or(z3.Not(good), K != nm), z3.Select(t1, K) == z3.Select(t0, K)))
    C.covers('paths', n)


def g_builtins(C):
    """alias defines every name=text among its words, in order; unalias removes its word"""
    for which in ('alias', 'unalias'):
        e = C.engine()
        fn = C.fn(e, 'rsh::builtins::' + which)
        F = z3.Function
        ADD, DEL, CLR = F('after_add_alias', World, S, World), F('after_remove_alias', World, S, World), F('after_clear_aliases', World, World)
        names = [f['nname'] for f in e.fns.values() if re.fullmatch(r'rsh::shell::add_alias(::<.*>)?', f['nname'])]

        def eff(g, has_arg=True):
            def c(eng, st, f, a):
                st.ghost['W'] = g(world(st), term(eng, st, a[0])) if has_arg else g(world(st))
                return [Outcome('ret', st, Agg(f['ret'], None, ()))]
            return c
        for nm in names:
            e.contracts[nm] = eff(ADD)
        e.contracts['rsh::shell::remove_alias'] = eff(DEL)
        e.contracts['rsh::shell::clear_aliases'] = eff(CLR, False)
        e.contracts['rsh::shell::display_aliases'] = lambda eng, st, f, a: [Outcome('ret', st, Agg(f['ret'], None, ()))]
        st = State()
        args, cells = fresh_args(e, st, fn)
        CT, c, P = command(e, fn, cells)
        l = P.list
        W0 = world(st)
        DEF = F('after_alias', World, l.sort(), INT, World)

        def rule(W, l, n):
            w = l[n - 1]
            p = DEF(W, l, n - 1)
            return [DEF(W, l, n) == z3.If(n <= 0, W, z3.If(z3.Contains(w, sv('=')), ADD(p, w), p))]
        e.spec_unfold = e.spec_unfold + [(DEF, rule)]

        def cand(ctx):
            return [('the words so far %s' % q, z3.And(k >= 0, k <= length(l), world(ctx.st) == DEF(W0, l, k))) for q, k in positions(ctx, l)]
        e.cand = cand
        outs = e.run_fn(st, fn, args)
        n = 0
        nw = length(P.words)
        opt = z3.PrefixOf(sv('-p' if which == 'alias' else '-a'), at(l, I(0)))
        for k, o in no_panic(C, which, outs):
            s2 = o.state
            n += 1
            W = world(s2)
            t = '%s: path %d: ' % (which, k)
            r = e.lower(o.value)
            ok = r.sort().recognizer(0)(r)
            if which == 'alias':
                C.ob(t + 'every word of the form name=text is defined, in order', e, s2, W == z3.If(z3.And(nw > 0, z3.Not(opt)), DEF(W0, l, length(l)), W0))
                C.ob(t + 'succeeds', e, s2, ok)
            else:
                C.ob(t + 'exactly its word is removed, or all names', e, s2, W == z3.If(nw == 1, z3.If(opt, CLR(W0), DEL(W0, at(l, I(0)))), W0))
                C.ob(t + 'anything but one word is an error', e, s2, ok == (nw == 1))
        C.covers(which, n)
