"""contracts of the words of a command: quotes, substitutions, arguments (used by P16, P17, P20, P04)"""
from .common import *
from mirv import sysm, strs
from mirv.core import nth_cases as at, length, seq_remove
from mirv.models import split
S = z3.StringSort()
SEQ = z3.SeqSort(S)
AST = 'rsh::ast::SimpleCommand::'


def command(e, fn, cells):
    CT = e.ty[fn['locals'][1]]['e']
    c = cells[0][1]
    return CT, c, Cmd(e, CT, c)


class Cmd:
    """the parts of a simple command"""
    def __init__(self, e, CT, c):
        self.e, self.CT, self.c = e, CT, c
        self.st = fty(e, CT, 'suffix')
        self.PT = e.ty.targs(self.st)[0]
        opt = fld(e, CT, 'suffix', c)
        self.name = fld(e, CT, 'name', c)
        self.prefix = fld(e, CT, 'prefix', c)
        self.has = e.ty.sort(self.st).recognizer(1)(opt)
        suf = e.ty.acc(self.st, 1, 0, opt)
        self.list = fld(e, self.PT, 'word', suf)
        self.words = z3.If(self.has, self.list, z3.Empty(SEQ))
        self.redirs = fld(e, self.PT, 'io_redirect', suf)


def seqs(ctx, so=SEQ):
    return [(p, x) for p, x, t in ctx.leaves() if x.sort() == so]


def positions(ctx, l):
    """how far a loop over a list has come: an iterator over it or an index"""
    out = [(str(p), o.pos) for p, o in ctx.iterators() if isinstance(o.d.get('pos'), z3.ExprRef) and isinstance(o.d.get('seq'), z3.ExprRef) and o.seq.sort() == l.sort()]
    return out + [(str(p), y) for p, y in ctx.ints() if p[-1] != 'pos']


TAKE = z3.Function('take', SEQ, INT, SEQ)


def take_rule(l, n):
    """the first n elements of l: facts about the function that takes a prefix"""
    return [z3.Implies(n <= 0, TAKE(l, n) == z3.Empty(SEQ)), z3.Implies(z3.And(n > 0, n <= z3.Length(l)), TAKE(l, n) == z3.Concat(TAKE(l, n - 1), z3.Unit(l[n - 1]))),
            z3.Implies(n >= z3.Length(l), TAKE(l, n) == l)]


def inner(w):
    """what is between the first and the last character"""
    return z3.SubString(w, I(1), z3.Length(w) - 2)


CLEAN = z3.Function('words_without_nul', SEQ, INT, SEQ)


def clean(w):
    """no argument can hold a NUL character: a word without one is itself"""
    from mirv.strs import without
    return z3.If(z3.Contains(w, sv('\0')), without(w, sv('\0')), w)


def g_argv(C):
    """the argument vector is the name followed by the words"""
    e = C.engine()
    fn = C.fn(e, AST + 'argv')
    st = State()
    args, cells = fresh_args(e, st, fn)
    CT, c, P = command(e, fn, cells)
    l = P.list

    def rule(l, n):
        return [CLEAN(l, n) == z3.If(n <= 0, z3.Empty(SEQ), z3.Concat(CLEAN(l, n - 1), z3.Unit(clean(l[n - 1])))), z3.Implies(n >= 0, z3.Length(CLEAN(l, n)) == n)]

    def cand(ctx):
        return [('%s: the name and the words so far %s' % (p, q), x == z3.Concat(z3.Unit(clean(P.name)), CLEAN(l, k))) for p, x in seqs(ctx) for q, k in positions(ctx, l)]
    e.spec_unfold = e.spec_unfold + [(CLEAN, rule)]
    e.cand = cand
    outs = e.run_fn(st, fn, args)
    for k, o in no_panic(C, 'argv', outs):
        C.ob('argv: path %d: the name and then every word, in order, none lost and none added, each as it is (but for NUL, which no argument can hold)' % k, e, o.state,
             e.lower(o.value) == z3.Concat(z3.Unit(clean(P.name)), CLEAN(P.words, length(P.words))))
    C.covers('paths', len(outs))


def plain(w):
    return z3.And(z3.Not(z3.Contains(w, sv('$'))), z3.Not(z3.Contains(w, sv('`'))))


def quoted(w, q):
    return z3.And(z3.PrefixOf(sv(q), w), z3.SuffixOf(sv(q), w), z3.Length(w) >= 2)


class Words:
    """SimpleCommand::eval over an opaque expansion of double-quoted words"""
    def __init__(self, C, e):
        self.C, self.e = C, e
        F = z3.Function
        self.DQ = F('words_of_double_quotes', World, S, SEQ)
        self.WDQ = F('after_double_quotes', World, S, World)
        self.ARGS = F('expanded_words', World, SEQ, INT, SEQ)
        self.W = F('after_words', World, SEQ, INT, World)
        e.spec_unfold = e.spec_unfold + [(self.ARGS, self.rule), (self.W, self.rule)]
        C.fn(e, AST + 'eval_double_quotes')
        C.fn(e, AST + 'cut_quotes')
        e.contracts[AST + 'eval_double_quotes'] = self.dq
        e.contracts[AST + 'cut_quotes'] = self.cut

    def rule(self, W, l, n):
        """a double-quoted word is expanded, a single-quoted one loses its quotes, any other is itself"""
        w = l[n - 1]
        a, w0 = self.ARGS(W, l, n - 1), self.W(W, l, n - 1)
        d, s = z3.PrefixOf(sv('"'), w), z3.PrefixOf(sv("'"), w)
        return [self.ARGS(W, l, n) == z3.If(n <= 0, z3.Empty(SEQ), z3.Concat(a, z3.If(d, self.DQ(w0, w), z3.Unit(z3.If(s, inner(w), w))))),
                self.W(W, l, n) == z3.If(n <= 0, W, z3.If(d, self.WDQ(w0, w), w0))]

    def dq(self, eng, st, f, a):
        w = term(eng, st, a[0])
        W = world(st)
        st.ghost['W'] = self.WDQ(W, w)
        return [Outcome('ret', st, self.DQ(W, w))]

    def cut(self, eng, st, f, a):
        """called on single-quoted words only (proved: cut_quotes)"""
        w = term(eng, st, a[0])
        out = []
        for s2, good in split(eng, st, z3.PrefixOf(sv("'"), w)):
            if good:
                eng.write(s2, a[0].root, a[0].path, inner(w))
                out.append(Outcome('ret', s2, Agg(f['ret'], None, ())))
            else:
                s2.note('broken', 'P17', 'a word that is not in single quotes loses its quotes without being expanded')
                out.append(Outcome('panic', s2))
        return out


def g_eval(C):
    """SimpleCommand::eval: every word expands to its own arguments, in order"""
    e = C.engine()
    M = Words(C, e)
    fn = C.fn(e, AST + 'eval')
    tr = [f['nname'] for f in e.fns.values() if f['nname'].endswith('split_whitespace_ig_qts')]
    NAMES = z3.Function('split_outside_quotes', S, SEQ)
    for n in tr:
        e.contracts[n] = lambda eng, st, f, a: [Outcome('ret', st, NAMES(term(eng, st, a[0])))]
    st = State()
    args, cells = fresh_args(e, st, fn)
    CT, c, P = command(e, fn, cells)
    W0 = world(st)
    l = P.list
    single = z3.PrefixOf(sv("'"), P.name)
    nl = NAMES(P.name)
    N, WN = z3.Function('expanded_name', World, SEQ, INT, SEQ), z3.Function('after_name', World, SEQ, INT, World)

    def nrule(W, l, n):
        w = l[n - 1]
        a, w0 = N(W, l, n - 1), WN(W, l, n - 1)
        d = z3.PrefixOf(sv('"'), w)
        return [N(W, l, n) == z3.If(n <= 0, z3.Empty(SEQ), z3.Concat(a, z3.If(d, M.DQ(w0, w), z3.Unit(w)))),
                WN(W, l, n) == z3.If(n <= 0, W, z3.If(d, M.WDQ(w0, w), w0))]
    e.spec_unfold = e.spec_unfold + [(N, nrule), (WN, nrule)]
    nw, W1 = z3.If(single, z3.Unit(inner(P.name)), N(W0, nl, length(nl))), z3.If(single, W0, WN(W0, nl, length(nl)))
    rest = z3.If(length(nw) == 0, nw, seq_remove(nw, I(0)))

    def cand(ctx):
        out = []
        for q, k in positions(ctx, l):
            out.append(('index in range %s' % q, z3.And(k >= 0, k <= length(l))))
            out.append(('world: the words so far %s' % q, world(ctx.st) == M.W(W1, l, k)))
            out.append(('world: the name so far %s' % q, world(ctx.st) == WN(W0, nl, k)))
            for p, x in seqs(ctx):
                out.append(('%s: the name so far %s' % (p, q), x == N(W0, nl, k)))
                out.append(('%s: the words so far %s' % (p, q), x == z3.Concat(rest, M.ARGS(W1, l, k))))
        return out
    e.cand = cand
    outs = e.run_fn(st, fn, args)
    n = 0
    for k, o in no_panic(C, 'eval', outs):
        s2 = o.state
        n += 1
        cell = e.lower(e.read(s2, args[0].root, args[0].path))
        Q = Cmd(e, CT, cell)
        t = 'eval: path %d: ' % k
        empty = P.name == sv('')
        C.ob(t + 'a command without a name is left alone', e, s2, z3.Implies(empty, z3.And(cell == c, world(s2) == W0)))
        C.ob(t + 'every word becomes its own arguments, in textual order, none lost, added or merged', e, s2,
             z3.Implies(z3.Not(empty), Q.words == z3.Concat(rest, z3.If(P.has, M.ARGS(W1, l, length(l)), z3.Empty(SEQ)))))
        C.ob(t + 'the name is the first word of the name', e, s2, z3.Implies(z3.Not(empty), Q.name == z3.If(length(nw) == 0, sv(''), nw[0])))
        hyp = s2.fork()
        hyp.assume(z3.Implies(z3.And(P.name != sv(''), BARE(P.name, z3.Length(P.name))), nl == z3.Unit(P.name)))  # proved: split_whitespace_ig_qts
        C.ob(t + 'a name in single quotes, or without white space and quotes, is the name of the command, and no argument comes from it', e, hyp,
             z3.Implies(z3.And(z3.Not(empty), z3.Or(single, z3.And(BARE(P.name, z3.Length(P.name)), z3.Not(z3.PrefixOf(sv('"'), P.name))))),
                        z3.And(Q.name == z3.If(single, inner(P.name), P.name), Q.words == z3.If(P.has, M.ARGS(W0, l, length(l)), z3.Empty(SEQ)))))
        C.ob(t + 'the redirections stay', e, s2, z3.Implies(P.has, z3.And(Q.has, Q.redirs == P.redirs)))
        C.ob(t + 'the assignments stay', e, s2, Q.prefix == P.prefix)
        C.ob(t + 'each word is expanded once, in order', e, s2, z3.Implies(z3.Not(empty), world(s2) == z3.If(P.has, M.W(W1, l, length(l)), W1)))
    C.covers('paths', n)


# ---- quotes and substitutions, character by character
CLOSE = z3.Function('closing_character', S, INT, INT, INT, INT)
PLAIN = z3.Function('no_substitution', S, INT, INT, z3.BoolSort())
STAKE = z3.Function('characters', S, INT, INT, S)
SUBEND = z3.Function('end_of_substitution', INT, S, INT, INT, INT)
OUT = z3.Function('output_of', World, S, S)
WOUT = z3.Function('after_substitution', World, S, World)
EXP = z3.Function('expanded_text', World, S, INT, INT, S)
WEXP = z3.Function('after_text', World, S, INT, INT, World)
DOLLAR, TICK, OPEN_, SHUT = ord('$'), ord('`'), ord('('), ord(')')


def code(s, k):
    return z3.StrToCode(z3.SubString(s, k, I(1)))


def close_rule(s, q, k, end):
    """the place of the first q at or after k, before end, or end"""
    return [CLOSE(s, q, k, end) == z3.If(k >= end, end, z3.If(code(s, k) == q, k, CLOSE(s, q, k + 1, end))), z3.Implies(k <= end, z3.And(CLOSE(s, q, k, end) <= end, CLOSE(s, q, k, end) >= k))]


def stake_rule(s, lo, n):
    return [z3.Implies(n <= 0, STAKE(s, lo, n) == sv('')), z3.Implies(z3.And(n > 0, lo >= 0, lo + n <= z3.Length(s)), STAKE(s, lo, n) == z3.Concat(STAKE(s, lo, n - 1), z3.StrFromCode(code(s, lo + n - 1)))),
            z3.Implies(z3.And(n >= 0, lo >= 0, lo + n <= z3.Length(s)), z3.And(STAKE(s, lo, n) == z3.SubString(s, lo, n), z3.Length(STAKE(s, lo, n)) == n))]


def least(a, b):
    return z3.If(a < b, a, b)


def subend_rule(c, s, p, end):
    """a substitution opened by c just before p: $( up to the first ), ` up to the next `, and $ takes one character"""
    par = least(CLOSE(s, I(SHUT), p + 1, end) + 1, end)
    return [SUBEND(c, s, p, end) == z3.If(c == DOLLAR, z3.If(p >= end, p, z3.If(code(s, p) == OPEN_, par, p + 1)), least(CLOSE(s, I(TICK), p, end) + 1, end)),
            z3.Implies(p <= end, z3.And(SUBEND(c, s, p, end) >= p, SUBEND(c, s, p, end) <= end))]


def exp_rule(W, s, k, end):
    c = code(s, k)
    e2 = SUBEND(c, s, k + 1, end)
    sub = z3.Concat(z3.StrFromCode(c), STAKE(s, k + 1, e2 - k - 1))
    is_sub = z3.Or(c == DOLLAR, c == TICK)
    W2 = WOUT(W, sub)
    return [EXP(W, s, k, end) == z3.If(k >= end, sv(''), z3.If(is_sub, z3.Concat(OUT(W, sub), EXP(W2, s, e2, end)), z3.Concat(z3.StrFromCode(c), EXP(W, s, k + 1, end)))),
            WEXP(W, s, k, end) == z3.If(k >= end, W, z3.If(is_sub, WEXP(W2, s, e2, end), WEXP(W, s, k + 1, end)))]


def plain_rule(s, k, end):
    """no dollar sign and no back-quote at or after k"""
    c = code(s, k)
    return [PLAIN(s, k, end) == z3.Or(k >= end, z3.And(c != DOLLAR, c != TICK, PLAIN(s, k + 1, end)))]


RULES = [(PLAIN, plain_rule), (CLOSE, close_rule), (STAKE, stake_rule), (SUBEND, subend_rule), (EXP, exp_rule), (WEXP, exp_rule)]


def chars_at(e, st, ty, s, pos, end):
    """a cell that holds a character iterator"""
    fid = next(e.counter)
    st.frames[fid] = {0: Obj('iter', seq=s, pos=pos, end=end, n=z3.Length(s), what='chars')}
    return Ref(('L', fid, 0), (), ty)


def g_create(C):
    """create_subshell takes exactly the text of the substitution and leaves the iterator right behind it"""
    e = C.engine()
    fn = C.fn(e, AST + 'create_subshell')
    e.spec_unfold = e.spec_unfold + RULES
    st = State()
    s, p0, end = z3.Const('text', S), z3.Const('pos', INT), z3.Const('end', INT)
    c = z3.Const('opening', INT)
    st.assume(z3.And(p0 >= 1, p0 <= end, end <= z3.Length(s), z3.Or(c == DOLLAR, c == TICK), code(s, p0 - 1) == c))
    r = chars_at(e, st, e.ty[fn['locals'][2]]['e'], s, p0, end)
    e2 = SUBEND(c, s, p0, end)

    def cand(ctx):
        out = []
        it = e.read(ctx.st, r.root, r.path)
        k = it.pos
        out.append(('iterator', z3.And(k >= p0, k <= end, it.end == end)))
        for q in (SHUT, TICK):
            for a in (0, 1):
                out.append(('no %s so far, from %d' % (chr(q), a), CLOSE(s, I(q), k, end) == CLOSE(s, I(q), p0 + a, end)))
        for p, x in seqs(ctx, S):
            out.append(('%s: the text so far' % (p,), x == z3.Concat(z3.StrFromCode(c), STAKE(s, p0, k - p0))))
        return out
    e.cand = cand
    outs = e.run_fn(st, fn, [c, r])
    n = 0
    for k, o in no_panic(C, 'create_subshell', outs):
        n += 1
        it = e.read(o.state, r.root, r.path)
        C.ob('create_subshell: path %d: the text of the substitution, up to its closing character' % k, e, o.state, e.lower(o.value) == z3.Concat(z3.StrFromCode(c), STAKE(s, p0, e2 - p0)))
        C.ob('create_subshell: path %d: goes on behind it' % k, e, o.state, z3.And(it.pos == e2, it.end == end))
    C.covers('paths', n)


def sub_contracts(C, e, prop):
    C.fn(e, AST + 'create_subshell')
    C.fn(e, AST + 'eval_subshell')

    def create(eng, st, f, a):
        c = e.lower(a[0])
        it = e.read(st, a[1].root, a[1].path)
        e2 = SUBEND(c, it.seq, it.pos, it.end)
        st.assume(z3.And(e2 >= it.pos, e2 <= it.end))
        e.write(st, a[1].root, a[1].path, it.with_(pos=e2))
        return [Outcome('ret', st, z3.Concat(z3.StrFromCode(c), STAKE(it.seq, it.pos, e2 - it.pos)))]
    e.contracts[AST + 'create_subshell'] = create

    def sub(eng, st, f, a):
        t = term(eng, st, a[0])
        W = world(st)
        st.ghost['W'] = WOUT(W, t)
        return [Outcome('ret', st, OUT(W, t))]
    e.contracts[AST + 'eval_subshell'] = sub


def g_cut(C, prop):
    """cut_quotes: P16 the substitutions of the text are replaced, everything else stays; P17 without them the text stays as it is"""
    e = C.engine()
    fn = C.fn(e, AST + 'cut_quotes')
    e.spec_unfold = e.spec_unfold + RULES
    sub_contracts(C, e, prop)
    st = State()
    args, cells = fresh_args(e, st, fn)
    w = cells[0][1]
    W0 = world(st)
    end = z3.Length(w) - 1
    if prop == 'P17':
        st.assume(z3.Or(quoted(w, "'"), z3.And(quoted(w, '"'), PLAIN(w, I(1), end))))
    else:
        st.assume(quoted(w, '"'))

    def cand(ctx):
        out = []
        for p, o in ctx.iterators():
            if not (isinstance(o.d.get('pos'), z3.ExprRef) and o.seq.sort() == S):
                continue
            out.append(('iterator %s' % (p,), z3.And(o.end == end, o.pos >= 1)))
            W = world(ctx.st)
            if prop == 'P17':
                out.append(('no substitution ahead %s' % (p,), PLAIN(w, o.pos, end)))
            for q, x in seqs(ctx, S):
                if prop == 'P17':
                    out.append(('%s: the characters so far %s' % (q, p), x == STAKE(w, I(1), o.pos - 1)))
                else:
                    out.append(('%s: the text so far %s' % (q, p), z3.Concat(x, EXP(W, w, o.pos, o.end)) == EXP(W0, w, I(1), end)))
            out.append(('world %s' % (p,), W == W0 if prop == 'P17' else WEXP(W, w, o.pos, o.end) == WEXP(W0, w, I(1), end)))
        return out
    e.cand = cand
    outs = e.run_fn(st, fn, args)
    n = 0
    for k, o in no_panic(C, 'cut_quotes', outs):
        n += 1
        r = e.lower(e.read(o.state, args[0].root, args[0].path))
        if prop == 'P17':
            C.ob('cut_quotes: path %d: exactly the characters between the quotes' % k, e, o.state, r == inner(w))
            C.ob('cut_quotes: path %d: runs nothing' % k, e, o.state, world(o.state) == W0)
        else:
            C.ob('cut_quotes: path %d: each substitution is replaced by what it yields, in order, and every other character stays' % k, e, o.state, r == EXP(W0, w, I(1), end))
            C.ob('cut_quotes: path %d: each substitution runs once, in order, and nothing else' % k, e, o.state, world(o.state) == WEXP(W0, w, I(1), end))
    C.covers('paths', n)


def g_double(C, prop):
    """eval_double_quotes"""
    e = C.engine()
    fn = C.fn(e, AST + 'eval_double_quotes')
    C.fn(e, AST + 'cut_quotes')
    CUT, WCUT = z3.Function('text_in_quotes', World, S, S), z3.Function('after_quotes', World, S, World)

    def cut(eng, st, f, a):
        t = term(eng, st, a[0])
        W = world(st)
        st.ghost['W'] = WCUT(W, t)
        eng.write(st, a[0].root, a[0].path, CUT(W, t))
        return [Outcome('ret', st, Agg(f['ret'], None, ()))]
    e.contracts[AST + 'cut_quotes'] = cut
    st = State()
    args, cells = fresh_args(e, st, fn)
    w = cells[0][1]
    W0 = world(st)
    t = CUT(W0, w)
    if prop == 'P17':
        st.assume(z3.And(quoted(w, '"'), plain(w), z3.Not(z3.Contains(w, sv('$('))), t == inner(w), WCUT(W0, w) == W0))
    else:
        st.assume(z3.And(quoted(w, '"'), z3.Or(z3.Contains(w, sv('$(')), z3.Contains(w, sv('`')))))
    from mirv.strs import SPLITWS
    outs = e.run_fn(st, fn, args)
    n = 0
    for k, o in no_panic(C, 'eval_double_quotes', outs):
        n += 1
        r = e.lower(o.value)
        if prop == 'P17':
            C.ob('eval_double_quotes: path %d: one argument, the characters between the quotes' % k, e, o.state, r == z3.Unit(inner(w)))
            C.ob('eval_double_quotes: path %d: runs nothing' % k, e, o.state, world(o.state) == W0)
        else:
            C.ob('eval_double_quotes: path %d: the words of the text, split at blanks' % k, e, o.state, r == z3.If(t == sv(''), z3.Unit(t), SPLITWS(t)))
            C.ob('eval_double_quotes: path %d: the text is expanded once' % k, e, o.state, world(o.state) == WCUT(W0, w))
    C.covers('paths', n)


def parser_contracts(C, e):
    """the generated parser as a function of the text: PARSE(text) when PARSES(text), an error otherwise"""
    match = lambda r: [f for f in e.fns.values() if re.search(r, f['nname'])]
    lex, pn, ps = match(r'lexer::Lexer::(<.*>::)?new$'), match(r'CompleteCommandParser::new$'), match(r'CompleteCommandParser::parse(::<.*>)?$')
    if not lex or not ps or not pn:
        raise Unsupported('anchor not found: the parser')
    for f in lex:
        e.contracts[f['nname']] = lambda eng, st, f, a: [Outcome('ret', st, Obj('lexer', src=term(eng, st, a[0])))]
    for f in pn:
        e.contracts[f['nname']] = lambda eng, st, f, a: [Outcome('ret', st, Obj('parser'))]
    CC = e.ty.targs(ps[0]['ret'])[0]
    so = e.ty.sort(CC)
    PARSE = z3.Function('parsed', S, so)
    PARSES = z3.Function('is_a_command', S, z3.BoolSort())

    def parse(eng, st, f, a):
        t = term(eng, st, a[1])
        lx = a[2]
        src = lx.src if isinstance(lx, Obj) and lx.kind == 'lexer' else None
        out = []
        for s2, good in split(eng, st, PARSES(t)):
            s2.note('parse', t, src)
            if good:
                out.append(Outcome('ret', s2, Agg(f['ret'], 0, (PARSE(t),))))
            else:
                s2.note('syserr', 'not a command')
                out.append(Outcome('ret', s2, Agg(f['ret'], 1, (Obj('parseerror'),))))
        return out
    for f in ps:
        e.contracts[f['nname']] = parse
    return PARSE, PARSES


class Substitution:
    """eval_subshell, run once on an arbitrary text"""
    def __init__(self, C):
        self.C = C
        e = self.e = C.engine()
        fn = self.fn = C.fn(e, AST + 'eval_subshell')
        e.drop_hook = sysm.drop_hook
        ev = C.fn(e, 'rsh::eval::eval')
        self.PARSE, self.PARSES = parser_contracts(C, e)

        def evaluate(eng, st, f, a):
            t = term(eng, st, a[0])
            st.note('eval', t, sysm.g(eng, st, 'fd'), sysm.g(eng, st, 'child'), sysm.g(eng, st, 'env'))
            r = eng.fresh_ty(st, f['ret'], 'result_of_eval')
            st.ghost['W'] = eng.fresh('world_after_eval', World)
            return [Outcome('ret', st, r)]
        e.contracts['rsh::eval::eval'] = evaluate
        old = e.on_event
        st = State()
        args, cells = fresh_args(e, st, fn)
        self.t = cells[0][1]
        self.fd0 = sysm.g(e, st, 'fd')
        st.assume(z3.And([z3.Select(self.fd0, I(i)) != 0 for i in (0, 1, 2)]))
        st.assume(z3.Not(sysm.g(e, st, 'child')))
        self.K = z3.Const('any_descriptor', INT)
        st.assume(z3.And(sysm.g(e, st, 'nextdesc') > 0, z3.Select(self.fd0, self.K) < sysm.g(e, st, 'nextdesc')))     # open files made later are new
        self.W0 = world(st)
        self.g0 = {n: sysm.g(e, st, n) for n in ('env', 'cwd', 'mask', 'disp') if n in ('env', 'cwd', 'mask')}
        self.st0 = st.fork()
        self.outs = e.run_fn(st, fn, args)
        self.closed = [o.kind == 'exit' for o in self.outs]

    def text(self):
        """what is between the opening and the closing characters"""
        t = self.t
        n = z3.If(z3.PrefixOf(sv('$('), t), I(2), I(1))
        return z3.SubString(t, n, z3.Length(t) - n - 1)

    def is_sub(self):
        return z3.Or(z3.PrefixOf(sv('$('), self.t), z3.PrefixOf(sv('`'), self.t))


def g_subshell(C, prop):
    from mirv.strs import TRIM, without
    M = Substitution(C)
    e = M.e
    n = {'parent': 0, 'child': 0, 'other': 0}
    t0 = M.t
    K = M.K
    well = z3.Implies(M.is_sub(), z3.Length(t0) >= z3.If(z3.PrefixOf(sv('$('), t0), I(3), I(2)))
    for k, o in enumerate(M.outs):
        st = o.state
        notes = st.notes
        get = lambda x: [y for y in notes if y[0] == x]
        child = any(y[0] == 'child' for y in notes)
        err = [y for y in notes if y[0] in ('syserr', 'waitpid-error') and not (isinstance(y[1], str) and y[1] == 'not a command')] or any(re.search(r'io::Error|Errno', str(y)) for y in notes if y[0] == 'panic')
        nm = 'eval_subshell: path %d: ' % k
        fd = sysm.g(e, st, 'fd')
        evals = get('eval')
        if child:
            n['child'] += 1
            if prop in ('P16', 'P20'):
                C.claim(nm + 'the child ends, it never goes on as a second shell', o.kind in ('exit', 'panic'), o.kind)
                if o.kind == 'panic':
                    C.claim(nm + 'and stops early only when the system refuses', bool(err), str(notes[-3:]))
            C.claim(nm + 'the child evaluates the text at most once', len(evals) <= 1)
            if o.kind == 'exit' and not get('syserr'):
                C.claim(nm + 'the child evaluates the text', len(evals) == 1)
            for x in evals:
                if prop == 'P16':
                    C.ob(nm + 'the commands are those of the text', e, st, z3.Implies(well, x[1] == M.PARSE(M.text())))
                w = z3.Select(x[2], I(1))
                if prop in ('P16', 'P04'):
                    C.ob(nm + 'output and errors of the commands go to the pipe', e, st, z3.And(sysm.IS_PIPE_W(w), z3.Select(x[2], I(2)) == w))
                    C.ob(nm + 'their input is that of the shell', e, st, z3.Select(x[2], I(0)) == z3.Select(M.fd0, I(0)))
                if prop == 'P04':
                    C.ob(nm + 'they hold no other end of the pipe, and every other descriptor is as it was', e, st, z3.Implies(z3.And(K != 1, K != 2), z3.Select(x[2], K) == z3.Select(M.fd0, K)))
                if prop == 'P20':
                    C.ob(nm + 'runs in the child', e, st, x[3])
            continue
        C.claim(nm + 'the shell itself does not evaluate the text', not evals)
        if o.kind == 'panic':
            C.claim(nm + 'the shell stops only when the system refuses', bool(err), str(notes[-3:]))
            last = [str(y[1]) if y[0] == 'syserr' else y[0] for y in notes if y[0] in ('syserr', 'waitpid-error', 'readall')][-1:]
            if prop == 'P16':
                C.claim(nm + 'that no pipe or process can be made does not stop it', last not in (['pipe'], ['fork']), str(last))
            continue
        C.claim(nm + 'the shell goes on', o.kind == 'ret', o.kind)
        if o.kind != 'ret':
            continue
        r = e.lower(o.value)
        forks = get('forked')
        if prop == 'P16':
            C.ob(nm + 'variables, aliases, functions, environment and directory are as before', e, st, z3.And([sysm.g(e, st, x) == v for x, v in M.g0.items()] + [world(st) == M.W0]))
            C.claim(nm + 'nothing of the shell is written', not heaps_changed(M.st0, st), str(heaps_changed(M.st0, st)))
        if prop in ('P16', 'P04'):
            C.ob(nm + 'the shell holds exactly the descriptors it held', e, st, z3.Select(fd, K) == z3.Select(M.fd0, K))
        if forks:
            n['parent'] += 1
            reads, waits = get('readall'), get('waitpid')
            order = [y[0] for y in notes if y[0] in ('readall', 'waitpid', 'forked')]
            if prop == 'P16':
                C.ob(nm + 'only a substitution is run', e, st, M.is_sub())
                C.claim(nm + 'everything is read, then the child is waited for', order == ['forked', 'readall', 'waitpid'], str(order))
                if len(reads) == 1:
                    C.ob(nm + 'when it reads, the shell holds no write end of the pipe, so the reading ends', e, st, z3.Select(reads[0][3], K) != sysm.PEER(z3.Select(reads[0][3], reads[0][1])))
                    C.ob(nm + 'the result is the output without leading and trailing white space (and without NUL, which no argument can hold)', e, st, r == TRIM(without(reads[0][2], sv('\0'))))
        else:
            n['other'] += 1
            if prop == 'P16' and get('syserr'):
                C.ob(nm + 'a substitution that cannot be made is empty', e, st, z3.And(M.is_sub(), r == sv('')))
            elif prop == 'P16':
                C.ob(nm + 'a text that is no substitution stays as it is, one whose commands do not parse is empty, and nothing runs', e, st, z3.If(M.is_sub(), z3.And(z3.Implies(well, z3.Not(M.PARSES(M.text()))), r == sv('')), r == t0))
    for k in n:
        C.covers(k, n[k])


def heaps_changed(a, b):
    """what a path has written of the state of the shell"""
    out = []
    for n in ('heaps', 'statics'):
        x, y = getattr(a, n), getattr(b, n)
        for k in y:
            v, w = x.get(k), y[k]
            if v is w or (isinstance(v, z3.ExprRef) and isinstance(w, z3.ExprRef) and v.eq(w)):
                continue
            if v is None:
                if isinstance(w, z3.ExprRef) and w.decl().arity() == 0:
                    continue       # read for the first time
            out.append((n, k))
    return out


def mapped(cur, l, k, f):
    """the first k elements have been replaced by f of them, the others are as they were"""
    x = z3.Const('idx', INT)
    return [('length', length(cur) == length(l)), ('done', z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < k), at(cur, x) == f(at(l, x))))),
            ('to do', z3.ForAll([x], z3.Implies(z3.And(x >= k, x < length(l)), at(cur, x) == at(l, x))))]


def g_expand(C, prop):
    """expand_vars: a word that is $NAME becomes the value of NAME between single quotes, whatever the value holds, and any other word is itself"""
    e = C.engine()
    fn = C.fn(e, AST + 'expand_vars')
    ev = C.fn(e, 'rsh::shell::expand_var')
    OS = e.ty.sort(ev['ret'])
    VAR = z3.Function('variable', World, S, OS)
    e.contracts['rsh::shell::expand_var'] = lambda eng, st, f, a: [Outcome('ret', st, VAR(world(st), term(eng, st, a[0])))]
    st = State()
    args, cells = fresh_args(e, st, fn)
    CT, c, P = command(e, fn, cells)
    W = world(st)

    def var(w, other, quote=True):
        """a value stands between quotes, which are taken away like those of any other word (SimpleCommand::eval, Context::add_var, trim): so nothing of the value itself is taken for a quote"""
        v = VAR(W, z3.SubString(w, I(1), z3.Length(w) - 1))
        v1 = OS.accessor(1, 0)(v)
        return z3.If(z3.And(z3.PrefixOf(sv('$'), w), OS.recognizer(1)(v)), z3.Concat(sv("'"), v1, sv("'")) if quote else v1, other)

    word, assignment = z3.Function('expanded_word', S, S), z3.Function('expanded_assignment', S, S)

    def assigned(w):
        n, v = set_parts(w)
        return [assignment(w) == z3.If(z3.Contains(w, sv('$')), z3.Concat(n, sv('='), var(v, v)), w)]
    e.spec_unfold = e.spec_unfold + [(word, lambda w: [word(w) == var(w, w)]), (assignment, assigned)]
    v = z3.Const('any_value', S)
    C.ob('lemma: a value between quotes comes back as it is', e, st, z3.And([f(z3.Concat(sv("'"), v, sv("'"))) == v for f in (inner, trim_spec)]))
    pt = fty(e, CT, 'prefix')
    PF = e.ty.targs(pt)[0]
    hasp = lambda c: e.ty.sort(pt).recognizer(1)(fld(e, CT, 'prefix', c))
    pre = lambda c: e.ty.acc(pt, 1, 0, fld(e, CT, 'prefix', c))
    asg = lambda c: fld(e, PF, 'assignment', pre(c))
    rest = lambda c: [fld(e, PF, f[0], pre(c)) for f in e.ty[PF]['v'][0]['f'] if f[0] != 'assignment']
    x = z3.Const('idx', INT)
    st.assume(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < length(asg(c))), z3.Contains(at(asg(c), x), sv('=')))))
    now = lambda s2: Cmd(e, CT, e.lower(e.read(s2, args[0].root, args[0].path)))

    def cand(ctx):
        out = []
        Q = now(ctx.st)
        Z = now(ctx.entry)
        out += [('words', Q.has == P.has), ('redirections', z3.Implies(P.has, Q.redirs == P.redirs)), ('prefix', Q.prefix == Z.prefix), ('suffix', fld(e, CT, 'suffix', Q.c) == fld(e, CT, 'suffix', c)),
                ('name', Q.name == Z.name), ('has assignments', hasp(Q.c) == hasp(c))]
        out += [('rest of prefix %d' % i, a == b) for i, (a, b) in enumerate(zip(rest(Q.c), rest(c)))]
        for what, l, cur, f in (('words', P.list, Q.list, word), ('assignments', asg(c), asg(Q.c), assignment)):
            for q, k in positions(ctx, l):
                out.append(('%s in range %s' % (what, q), z3.And(k >= 0, k <= length(l))))
                out += [('%s %s %s' % (what, t, q), g) for t, g in mapped(cur, l, k, f)]
        out.append(('world', world(ctx.st) == W))
        return out
    e.cand = cand
    outs = e.run_fn(st, fn, args)
    n = 0
    for k, o in no_panic(C, 'expand_vars', outs):
        n += 1
        s2 = o.state
        t = 'expand_vars: path %d: ' % k
        Q = now(s2)
        C.ob(t + 'the name', e, s2, Q.name == var(P.name, P.name, False))
        C.ob(t + 'the redirections stay', e, s2, z3.And(Q.has == P.has, z3.Implies(P.has, Q.redirs == P.redirs)))
        C.ob(t + 'nothing else has happened', e, s2, world(s2) == W)
        for h, l, cur, f, what in ((P.has, P.list, Q.list, word, 'word'), (hasp(c), asg(c), asg(Q.c), assignment, 'assignment')):
            for i, (tt, g) in enumerate(mapped(cur, l, length(l), f)[:2]):
                C.ob(t + ('no %s is lost, added or split' % what, 'every %s with a variable has its complete value, every other is itself' % what)[i], e, s2, z3.Implies(h, g))
        C.ob(t + 'the other parts of the prefix stay', e, s2, z3.And(hasp(Q.c) == hasp(c), z3.Implies(hasp(c), z3.And([a == b for a, b in zip(rest(Q.c), rest(c))]))))
    C.covers('paths', n)


# ---- splitting outside quotes
QMODE = z3.Function('quote_after', S, INT, INT)
PSTART = z3.Function('start_of_piece', S, INT, INT)
PIECES = z3.Function('pieces_before', S, INT, SEQ)
BARE = z3.Function('nothing_to_split_before', S, INT, z3.BoolSort())


def split_rule(s, n):
    c = code(s, n - 1)
    q, p = QMODE(s, n - 1), PSTART(s, n - 1)
    cut = z3.And(q == 0, strs.WS(c), c != 34, c != 39)
    return [QMODE(s, n) == z3.If(n <= 0, 0, z3.If(q == 0, z3.If(c == 39, 1, z3.If(c == 34, 2, 0)), z3.If(z3.Or(z3.And(q == 1, c == 39), z3.And(q == 2, c == 34)), 0, q))),
            PSTART(s, n) == z3.If(n <= 0, 0, z3.If(cut, n, p)),
            PIECES(s, n) == z3.If(n <= 0, z3.Empty(SEQ), z3.If(cut, z3.Concat(PIECES(s, n - 1), z3.Unit(z3.SubString(s, p, n - 1 - p))), PIECES(s, n - 1)))]


def bare_rule(s, n):
    """no white space outside quotes among the first n characters"""
    c = code(s, n - 1)
    return [BARE(s, n) == z3.Or(n <= 0, z3.And(BARE(s, n - 1), z3.Or(QMODE(s, n - 1) != 0, z3.Not(strs.WS(c)))))]


def g_split(C):
    """a word is cut at the white space outside quotes; a word without any is one piece, itself"""
    e = C.engine()
    fn = C.fn(e, '<str as rsh::ast::SplitWhitespaceIgnoringQuotes>::split_whitespace_ig_qts')
    e.spec_unfold = e.spec_unfold + [(QMODE, split_rule), (PSTART, split_rule), (PIECES, split_rule), (BARE, bare_rule)]
    st = State()
    args, cells = fresh_args(e, st, fn)
    s = term(e, st, args[0])
    n = z3.Length(s)
    QT = [i for i in range(len(e.ty.t)) if e.ty.is_adt(i, 'QuoteType')]
    if not QT:
        raise Unsupported('anchor not found: QuoteType')
    QT = QT[0]
    no = [int({v['name']: v['disc'] for v in e.ty[QT]['v']}[x]) for x in ('None', 'Single', 'Double')]

    def cand(ctx):
        out = []
        for it, k in positions(ctx, s):
            out.append(('index in range %s' % it, z3.And(k >= 0, k <= n)))
            for p, v, t in ctx.leaves():
                if isinstance(v, z3.ExprRef) and v.sort() == INT:
                    out.append(('%s: the kind of quote %s' % (p, it), z3.And([(v == no[i]) == (QMODE(s, k) == i) for i in range(3)])))
            for p, x in ctx.ints():
                out.append(('%s: the start of the piece %s' % (p, it), z3.And(strs.CIDX(s, x) == PSTART(s, k), strs.BOFF(s, PSTART(s, k)) == x, PSTART(s, k) >= 0, PSTART(s, k) <= k, (x < strs.BOFF(s, k)) == (PSTART(s, k) < k))))
            for p, x in seqs(ctx):
                out.append(('%s: the pieces so far %s' % (p, it), x == PIECES(s, k)))
        return out
    e.cand = cand
    st.assume(z3.And(strs.BOFF(s, I(0)) == 0, strs.CIDX(s, I(0)) == 0))
    base = st.fork()
    outs = e.run_fn(st, fn, args)
    ps = PSTART(s, n)
    want = z3.If(ps < n, z3.Concat(PIECES(s, n), z3.Unit(z3.SubString(s, ps, n - ps))), PIECES(s, n))
    for k, o in no_panic(C, 'split_whitespace_ig_qts', outs):
        C.ob('split_whitespace_ig_qts: path %d: the pieces between the white space outside quotes, in order' % k, e, o.state, term(e, o.state, o.value) == want)
    C.covers('paths', len(outs))
    # a word without white space outside quotes is one piece (induction over the characters)
    m = z3.Const('m', INT)
    one = lambda x: z3.Implies(BARE(s, x), z3.And(PSTART(s, x) == 0, PIECES(s, x) == z3.Empty(SEQ)))
    C.ob('no white space outside quotes: no character, no piece', e, base, one(I(0)))
    C.ob('no white space outside quotes: one character more, still no piece', e, base, z3.Implies(z3.And(m > 0, m <= n, one(m - 1)), one(m)))
    hyp = base.fork()
    hyp.assume(one(n))
    C.ob('a word without white space outside quotes is one piece, itself', e, hyp, z3.Implies(z3.And(n > 0, BARE(s, n)), want == z3.Unit(s)))
