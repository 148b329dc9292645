"""contracts of the start of the shell: the command line, parameters of a script, main (P22)"""
from .common import *
from mirv import sysm
from mirv.core import nth_cases as at, length
from mirv.models import join_fn, unit, split
from .scopes import Before, assign_post
S = z3.StringSort()


def dash(w):
    """an argument of options that asks for the commands to be taken from the command line"""
    return z3.And(z3.PrefixOf(sv('-'), w), z3.Contains(z3.SubString(w, I(1), z3.Length(w) - 1), sv('c')))


def g_dash(C):
    e = C.engine()
    fn = C.fn(e, 'rsh::parse_dash_arg')
    if C.fn(e, 'rsh::log::set_print_out'):
        e.contracts['rsh::log::set_print_out'] = lambda eng, st, f, a: [Outcome('ret', st, unit(eng, f['ret']))]
    st = State()
    args, cells = fresh_args(e, st, fn)
    w = args[0] if args[0].sort() == S else cells[0][1]
    st.assume(z3.Length(w) > 0)
    # HASC(k): a c among the characters 1 to k - 1; by induction that is what Contains says
    c0 = sv('c')
    HASC = z3.Function('has_c', INT, z3.BoolSort())
    e.spec_unfold = e.spec_unfold + [(HASC, lambda k: [HASC(k) == z3.If(k <= 1, z3.BoolVal(False), z3.Or(HASC(k - 1), z3.SubString(w, k - 1, I(1)) == c0))])]
    P = lambda k: z3.SubString(w, I(1), k - 1)
    k, x, y = z3.Int('k'), z3.Const('x', S), z3.Const('y', S)
    ls = st.fork()
    ls.assume(z3.And(k >= 1, k < z3.Length(w)))
    C.ob('lemma: one more character', e, ls, P(k + 1) == z3.Concat(P(k), z3.SubString(w, k, I(1))))
    l2 = st.fork()
    l2.assume(z3.Length(y) == 1)
    C.ob('lemma: a c in a text and one more character', e, l2, z3.Contains(z3.Concat(x, y), c0) == z3.Or(z3.Contains(x, c0), y == c0))
    l3 = st.fork()
    px, py = z3.Const('px', S), z3.Const('py', S)
    l3.assume(z3.And(k >= 1, py == z3.SubString(w, k, I(1)), HASC(k) == z3.Contains(px, c0), z3.Contains(z3.Concat(px, py), c0) == z3.Or(z3.Contains(px, c0), py == c0)))
    C.ob('lemma: has_c is what Contains says: step', e, l3, HASC(k + 1) == z3.Contains(z3.Concat(px, py), c0))
    C.ob('lemma: has_c is what Contains says: base', e, st, HASC(I(1)) == z3.Contains(P(I(1)), c0))
    st.assume(HASC(z3.Length(w)) == z3.Contains(P(z3.Length(w)), c0))

    def cand(ctx):
        out = []
        for p, o in [(str(p), o) for p, o in ctx.iterators_all()]:
            if isinstance(o.d.get('pos'), z3.ExprRef):
                out.append(('from the second %s' % p, o.pos >= 1))
                out.append(('text %s' % p, o.seq == w) if isinstance(o.seq, z3.ExprRef) and o.seq.sort() == S else ('x %s' % p, z3.BoolVal(True)))
                for q, v, t in ctx.leaves():
                    if v.sort() == z3.BoolSort():
                        out.append(('c so far %s %s' % (p, q), v == HASC(o.pos)))
        return out
    e.cand = cand
    outs = e.run_fn(st, fn, args)
    n = {True: 0, False: 0}
    for k, o in no_panic(C, 'parse_dash_arg', outs):
        r = e.lower(o.value)
        C.ob('parse_dash_arg: path %d: exactly when it starts with a dash and has a c behind it' % k, e, o.state, r == dash(w))
        for b in n:
            n[b] += e.feasible(o.state, r == z3.BoolVal(b))
    C.covers('with c', n[True])
    C.covers('without', n[False])


class Started:
    """what the command line asks for, as a function of its words: SI the place of the script among the first k words, DI that of -c, -1 for none"""
    def __init__(self, e, A):
        so = A.sort()
        self.A = A
        self.SI, self.DI = z3.Function('script_at', INT, INT), z3.Function('option_at', INT, INT)
        SI, DI = self.SI, self.DI
        w = lambda k: at(A, k - 1)
        go = lambda k: z3.And(DI(k - 1) < 0, SI(k - 1) < 0)

        def rule(k):
            return [DI(k) == z3.If(k <= 0, I(-1), z3.If(go(k), z3.If(dash(w(k)), k - 1, I(-1)), DI(k - 1))),
                    SI(k) == z3.If(k <= 0, I(-1), z3.If(go(k), z3.If(z3.And(z3.Not(z3.PrefixOf(sv('-'), w(k))), k > 1), k - 1, I(-1)), SI(k - 1))),
                    DI(k) >= -1, DI(k) < z3.If(k <= 0, I(0), k), SI(k) >= -1, SI(k) < z3.If(k <= 0, I(0), k)]
        e.spec_unfold = e.spec_unfold + [(SI, rule), (DI, rule)]


def g_args(C):
    """the words of the command line: the commands behind -c, or a script with its parameters"""
    e = C.engine()
    fn = C.fn(e, 'rsh::parse_args')
    pd = C.fn(e, 'rsh::parse_dash_arg')
    st = State()
    args, cells = fresh_args(e, st, fn)
    A = e.lower(args[0])
    N = length(A)
    st.assume(N >= 1)
    st.assume(z3.Not(dash(at(A, I(0)))))
    D = Started(e, A)
    # an option found stays the one found: by induction over the words behind it
    i, j = z3.Ints('i j')
    stays = lambda a, b: z3.And(D.DI(b) == D.DI(a), D.SI(b) == D.SI(a))
    ls = st.fork()
    C.ob('lemma: the first option is the one that counts: base', e, ls, stays(i, i))
    ls.assume(z3.And(i >= 0, i <= j, D.DI(i) >= 0, stays(i, j)))
    C.ob('lemma: the first option is the one that counts: step', e, ls, stays(i, j + 1))
    st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i <= N, D.DI(i) >= 0), stays(i, N)), patterns=[D.DI(i)]))
    found = z3.And(D.DI(N) == i, D.SI(N) == -1)
    here = z3.And(i >= 0, i < N, dash(at(A, i)), D.DI(i) < 0, D.SI(i) < 0)
    ls = st.fork()
    ls.assume(z3.And(here, z3.Implies(D.DI(i + 1) >= 0, stays(i + 1, N))))
    C.ob('lemma: where the option is', e, ls, found)
    st.assume(z3.ForAll([i], z3.Implies(here, found), patterns=[D.DI(i)]))
    PAR = z3.ArraySort(INT, S)
    par0, name0, inter0 = z3.Const('parameters', PAR), z3.Const('script_name', S), z3.Const('is_interactive', z3.BoolSort())
    st.ghost['par'], st.ghost['name'], st.ghost['inter'] = par0, name0, inter0

    def dashc(eng, st, f, a):
        w = term(eng, st, a[0])
        out = []
        for s2, good in split(eng, st, z3.Length(w) > 0):
            if good:
                out.append(Outcome('ret', s2, dash(w)))
            else:
                s2.note('panic', 'parse_dash_arg of an empty word')
                out.append(Outcome('panic', s2))
        return out
    e.contracts[pd['nname']] = dashc

    def put(k):
        def c(eng, st, f, a):
            if k == 'par':
                st.ghost['par'] = z3.Store(st.ghost['par'], term(eng, st, a[1]), term(eng, st, a[0]))
            elif k == 'name':
                st.ghost['name'] = term(eng, st, a[0])
                st.ghost['inter'] = z3.BoolVal(False)
            else:
                st.ghost['inter'] = term(eng, st, a[0])
            return [Outcome('ret', st, unit(eng, f['ret']))]
        return c
    for n, k in (('set_input_args', 'par'), ('set_script_name', 'name'), ('set_interactive', 'inter')):
        e.contracts[C.fn(e, 'rsh::shell::' + n)['nname']] = put(k)
    J = z3.Const('J', INT)

    def cand(ctx):
        out = []
        g = ctx.st.ghost
        # whatever is counted, the places in the words
        pos = [(str(p), o.pos) for p, o in ctx.iterators_all() if isinstance(o.d.get('pos'), z3.ExprRef)]
        for q, k in pos:
            s = D.SI(k)
            out.append(('no option yet %s' % q, D.DI(k) == -1))
            out.append(('script %s' % q, z3.And(g['name'] == z3.If(s >= 0, at(A, s), name0), g['inter'] == z3.If(s >= 0, z3.BoolVal(False), inter0))))
            out.append(('parameters %s' % q, z3.Select(g['par'], J) == z3.If(z3.And(s >= 0, J >= 1, s + J < k), at(A, s + J), z3.Select(par0, J))))
            for p, v in ctx.ints():
                if p[-1] == 'pos':
                    continue
                out.append(('count %s %s' % (q, p), v == k))
                out.append(('index %s %s' % (q, p), v == z3.If(s >= 0, k - s, I(1))))
            for p, v, t in ctx.leaves():
                if v.sort() == z3.BoolSort():
                    out.append(('found %s %s' % (q, p), v == (s >= 0)))
                    out.append(('not %s %s' % (q, p), z3.Not(v)))
                if v.sort() == A.sort():
                    out.append(('words %s %s' % (q, p), v == A))
        return out
    e.cand = cand
    outs = e.run_fn(st, fn, args)
    n = {'commands': 0, 'script': 0, 'neither': 0}
    for k, o in no_panic(C, 'parse_args', outs):
        nm = 'parse_args: path %d: ' % k
        r = e.lower(o.value)
        is_some = r.sort().recognizer(1)(r)
        di, si = D.DI(N), D.SI(N)
        g = o.state.ghost
        C.ob(nm + 'commands exactly when -c is there in front of any script', e, o.state, is_some == (di >= 0))
        C.ob(nm + 'they are the words behind it, with blanks between them', e, o.state, z3.Implies(di >= 0, r.sort().accessor(1, 0)(r) == join_fn(A.sort())(z3.SubSeq(A, di + 1, N - di - 1), sv(' '))))
        C.ob(nm + 'the script is the first word that is no option', e, o.state, g['name'] == z3.If(si >= 0, at(A, si), name0))
        C.ob(nm + 'its parameters are the words behind it', e, o.state, z3.Select(g['par'], J) == z3.If(z3.And(si >= 0, J >= 1, si + J < N), at(A, si + J), z3.Select(par0, J)))
        C.ob(nm + 'the shell reads its input only when there is neither', e, o.state, g['inter'] == z3.If(z3.Or(di >= 0, si >= 0), z3.BoolVal(False), inter0))
        for x, f in (('commands', di >= 0), ('script', si >= 0), ('neither', z3.And(di < 0, si < 0))):
            n[x] += e.feasible(o.state, f)
    for x in n:
        C.covers(x, n[x])


def g_main(C):
    """the command line is looked at, then exactly one of the three ways of reading commands is taken, once"""
    e = C.engine()
    fn = C.fn(e, 'rsh::main')
    F = lambda n: C.fn(e, n)['nname']
    pa = C.fn(e, 'rsh::parse_args')
    st = State()
    args, cells = fresh_args(e, st, fn)
    RS = e.ty.sort(pa['ret'])
    what = z3.Const('commands_asked_for', RS)
    name, inter = z3.Const('script_name', S), z3.Const('is_interactive', z3.BoolSort())
    WS = z3.Const('words_of_command_line', z3.SeqSort(S))
    e.contracts[F('rsh::parse_args')] = lambda eng, st, f, a: (st.note('parse_args', term(eng, st, a[0])), [Outcome('ret', st, what)])[1]

    def step(n):
        def c(eng, st, f, a):
            st.note('step', n, [term(eng, st, x) for x in a] if n in ('commands', 'script') else [])
            return [Outcome('ret', st, Agg(f['ret'], 0, (unit(eng, eng.ty.targs(f['ret'])[0]),)) if n == 'startup' else unit(eng, f['ret']))]
        return c
    for f, n in (('rsh::shell::push_context_new', 'scope'), ('rsh::shell::set_arg_0', 'name'), ('rsh::read_rc', 'startup'), ('rsh::read_user_profile', 'startup'), ('rsh::interactive_loop', 'input'), ('rsh::read_from_args', 'commands'),
                 ('rsh::script_loop', 'script'), ('rsh::trap::set_signal', 'signal'), ('rsh::shell::set_history_location', 'history')):
        m = [x for x in e.fns.values() if x['nname'] == f or x['nname'].startswith(f + '::<')]
        if not m:
            raise Unsupported('anchor not found: ' + f)
        for x in m:
            e.contracts[x['nname']] = step(n)
    e.contracts[F('rsh::shell::is_interactive')] = lambda eng, st, f, a: [Outcome('ret', st, inter)]
    e.contracts[F('rsh::shell::get_script_name')] = lambda eng, st, f, a: [Outcome('ret', st, name)]
    for x in e.fns.values():
        if re.search(r'^std::env::args$', x['nname']):
            e.contracts[x['nname']] = lambda eng, st, f, a: [Outcome('ret', st, Obj('args'))]
        if re.search(r'env::Args as std::iter::Iterator>::collect|^std::iter::Iterator::collect::<.*Vec<.*String', x['nname']):
            e.contracts[x['nname']] = lambda eng, st, f, a: [Outcome('ret', st, WS)]
    outs = e.run_fn(st, fn, args)
    n = {'commands': 0, 'script': 0, 'input': 0}
    # nothing behind parse_args calls it again, so its answers stay: an interactive shell has no commands and no script
    some = RS.recognizer(1)(what)
    for k, o in no_panic(C, 'main', outs):
        nm = 'main: path %d: ' % k
        steps = [x[1] for x in o.state.notes if x[0] == 'step']
        ways = [x for x in o.state.notes if x[0] == 'step' and x[1] in n]
        C.claim(nm + 'the command line is looked at once, before anything runs', [x[0] for x in o.state.notes if x[0] in ('step', 'parse_args')][:1] == ['parse_args'] and len([x for x in o.state.notes if x[0] == 'parse_args']) == 1, str(steps))
        C.claim(nm + 'commands are taken from one place', len(ways) == 1 and steps[-1] == ways[0][1], str(steps))
        C.claim(nm + 'the shell has a scope of its own before, one', steps.count('scope') == 1 and steps[0] == 'scope', str(steps))
        C.claim(nm + '$0 is set', steps.count('name') == 1 and steps.index('name') < len(steps) - 1, str(steps))
        if len(ways) != 1:
            continue
        w = ways[0][1]
        a = ways[0][2]
        if w == 'commands':
            C.ob(nm + 'the commands asked for are those evaluated', e, o.state, z3.And(some, a[0] == RS.accessor(1, 0)(what)))
        elif w == 'script':
            C.ob(nm + 'the script is the one named', e, o.state, z3.And(z3.Not(some), z3.Not(inter), a[0] == name))
        else:
            C.ob(nm + 'the input is read only when nothing else is asked for', e, o.state, z3.And(z3.Not(some), inter))
        n[w] += e.feasible(o.state, z3.BoolVal(True))
    for x in n:
        C.covers(x, n[x])


def g_parameter(C):
    """set_input_args, set_arg_0: a parameter of the script is the word itself, in the scope of its own, and nothing else changes"""
    from .scopes import wrapper, wrapper_frame
    for short in ('set_input_args', 'set_arg_0'):
        e, Sc, SH, fn, st, args, cm, s = wrapper(C, short)
        NUM, DEC = e.decimal = z3.Function('number_written', S, INT), z3.Function('decimal', INT, S)
        sh0 = SH.val(st)
        if short == 'set_input_args':
            value, i = args[0], args[1]
            st.assume(z3.And(i >= 1, NUM(DEC(i)) == i, z3.Length(DEC(i)) > 0, z3.Not(z3.Contains(DEC(i), sv('=')))))
            name, place = DEC(i), s[0]
            st.assume(z3.Length(s) == 1)
        else:
            name, value, place = sv('0'), SH.f(st, 'script_name'), s[1]
            st.assume(z3.Length(s) == 2)
        B = Before(Sc, st, cm, s)
        # nothing has made it read-only yet: no command has run
        st.assume(z3.Implies(Sc.has(B.H, place, name), z3.And(z3.Not(Sc.var(B.Hv, Sc.addr(B.H, place, name), 'readonly')), Sc.addr(B.H, place, name) < B.n0)))
        st.assume(z3.Implies(z3.And(Sc.has(B.H, place, name)), Sc.addr(B.H, place, name) >= 0))
        Sc.names = [name]
        outs = e.run_fn(st, fn, args)
        n = 0
        for k, o in no_panic(C, short, outs):
            n += 1
            assign_post(C, Sc, e, short, k, o, B, SH.f(o.state, 'context_manager'), name, value, at=place)
            wrapper_frame(C, short, k, o, e, SH, sh0)
        C.covers(short, n)


def g_startup(C):
    """read_rc, read_user_profile: the text of the startup file is evaluated at most once, and its failure is no failure of the shell"""
    from . import texts
    for which, path in (('read_rc', '~/.rshrc'), ('read_user_profile', '~/.profile')):
        e = C.engine()
        T = texts.Texts(C, e)
        fn = C.fn(e, 'rsh::' + which)
        st = State()
        args, cells = fresh_args(e, st, fn)
        W0 = world(st)
        n = [0, 0]
        for k, o in no_panic(C, which, e.run_fn(st, fn, args)):
            nm = '%s: path %d: ' % (which, k)
            s = o.state
            opens = [q for q in s.notes if q[0] == 'open']
            evs = [q for q in s.notes if q[0] == 'eval']
            reads = [q for q in s.notes if q[0] == 'readall']
            C.claim(nm + 'it does not stop the shell from starting', isinstance(o.value, Agg) and o.value.variant == 0, str(o.value)[:100])
            C.claim(nm + 'only one file is opened, once', len(opens) <= 1, str(opens)[:200])
            for q in opens:
                C.ob(nm + 'it is the startup file', e, s, q[1] == sv(path))
            C.claim(nm + 'at most one evaluation, of what was read', len(evs) <= 1 and (not evs or len(reads) == 1), str(len(evs)))
            if evs and reads:
                n[0] += 1
                C.ob(nm + 'what is evaluated is the text of the file', e, s, z3.And(evs[0][1] == T.PARSE(reads[0][2]), T.PARSES(reads[0][2]), world(s) == T.EW(W0, evs[0][1])))
            elif reads:
                n[1] += 1
                C.ob(nm + 'a text that is no command changes nothing', e, s, z3.And(world(s) == W0, z3.Not(T.PARSES(reads[0][2]))))
            else:
                C.ob(nm + 'without the file nothing happens', e, s, world(s) == W0)
            texts.same_source(C, nm, o)
        C.covers(which + ': evaluated', n[0])
        C.covers(which + ': no command', n[1])
    e = C.engine()
    SH = ShellAt(C, e)
    fn = C.fn(e, 'rsh::shell::set_history_location')
    st = State()
    args, cells = fresh_args(e, st, fn)
    sh0 = SH.val(st)
    for k, o in no_panic(C, 'set_history_location', e.run_fn(st, fn, args)):
        C.ob('set_history_location: path %d: nothing else of the shell changes' % k, e, o.state, SH.same_except(sh0, SH.val(o.state), 'history_location'))
