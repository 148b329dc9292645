"""contract of the scanner: Lexer::new and Lexer::next over all texts (used by P19)"""
from .common import *
from mirv.core import Agg
from mirv.models import split
from mirv.strs import BOFF, CIDX, U8LEN, WS, PARSE_OK, PARSE_I
S = z3.StringSort()
ASSUMES = ['char::is_whitespace is a fixed predicate that holds for the ASCII white space and for no other ASCII character above 32; str::parse::<i32> is a function of the text']
OPS1 = {'SemiColon': ';', 'Pipe': '|', 'Ampersand': '&', 'OpenParen': '(', 'CloseParen': ')', 'OpenBrace': '{', 'CloseBrace': '}', 'Greater': '>', 'Less': '<', 'Equals': '=', 'Bang': '!'}
OPS2 = {'Or': '||', 'And': '&&', 'DoubleGreater': '>>', 'GreaterAnd': '>&', 'DoubleLess': '<<', 'LessAnd': '<&'}
KEYWORDS = {'for': 'For', 'in': 'In', 'while': 'While', 'if': 'If', 'then': 'Then', 'else': 'Else', 'elif': 'Elif', 'fi': 'Fi', 'do': 'Do', 'done': 'Done', 'case': 'Case', 'esac': 'Esac'}
SPECIAL = ';&|(){}<>!$`*='
CH = z3.Function('char_at', S, INT, INT)
SLICE = z3.Function('slice', S, INT, INT, S)
UNTIL = z3.Function('next_such_char', S, INT, INT, INT)
LINES = z3.Function('end_of_newlines', S, INT, INT)
WEND = z3.Function('end_of_word', S, INT, INT)
PASS = z3.Function('next_token_starts', S, INT, INT)
o = ord


def wordc(c):
    return z3.And(z3.Not(WS(c)), *[c != o(x) for x in SPECIAL])


def blank(c):
    return z3.And(WS(c), c != 10)


def ch_rule(s, k):
    c = CH(s, k)
    return [z3.Implies(z3.And(c > 32, c < 127), z3.Not(WS(c))), z3.Implies(z3.Or(c == 32, z3.And(c >= 9, c <= 13)), WS(c))]


def scan(f, stop):
    """f(.., k): the first position from k on where stop holds, or the end"""
    def r(s, *a):
        k = a[-1]
        n = z3.Length(s)
        x = f(s, *a)
        return [z3.Implies(z3.And(k >= 0, k <= n), z3.And(x >= k, x <= n)), z3.Implies(k >= n, z3.Implies(k == n, x == n)),
                z3.Implies(z3.And(k >= 0, k < n), x == z3.If(stop(CH(s, k), *a[:-1]), k, f(s, *a[:-1], k + 1)))]
    return r


def pass_rule(s, k):
    n = z3.Length(s)
    c = CH(s, k)
    x = PASS(s, k)
    return [z3.Implies(z3.And(k >= 0, k <= n), z3.And(x >= k, x <= n)), z3.Implies(k == n, x == n),
            z3.Implies(z3.And(k >= 0, k < n), x == z3.If(c == o('#'), PASS(s, UNTIL(s, I(10), k + 1)), z3.If(blank(c), PASS(s, k + 1), k)))]


RULES = [(SLICE, lambda s, i, j: [z3.Implies(z3.And(i == 0, j == z3.Length(s)), SLICE(s, i, j) == s)]), (CH, ch_rule), (UNTIL, scan(UNTIL, lambda c, q: c == q)), (LINES, scan(LINES, lambda c: c != 10)), (WEND, scan(WEND, lambda c: z3.Not(wordc(c)))), (PASS, pass_rule)]


class Lex:
    def __init__(self, C):
        self.C, self.e = C, C.engine()
        e = self.e
        self.next = C.fn(e, "<rsh::lexer::Lexer<'_> as std::iter::Iterator>::next")
        self.T = e.ty[self.next['locals'][1]]['e']
        self.fields = [f[0] for f in e.ty[self.T]['v'][0]['f']]
        if sorted(self.fields) != ['chars', 'input', 'lookahead', 'send_eof']:
            raise Unsupported('the fields of Lexer are %s' % self.fields)
        self.la_t = fty(e, self.T, 'lookahead')
        self.RT = self.next['ret']                 # Option<Result<(usize, Token, usize), Error>>
        self.res_t = e.ty.targs(self.RT)[0]
        self.tup_t, self.err_t = e.ty.targs(self.res_t)
        self.tok_t = e.ty.field_types(self.tup_t, 0)[1]
        self.s = z3.Const('text', S)
        self.N = z3.Length(self.s)
        e.spec_unfold = e.spec_unfold + RULES
        e.opaque_text = (CH, SLICE)

    def lookahead(self, k):
        e, s = self.e, self.s
        tt = e.ty.targs(self.la_t)[0]
        tup = e.ty.cons(tt, 0, [BOFF(s, k), CH(s, k), BOFF(s, k + 1)])
        so = e.ty.sort(self.la_t)
        return z3.If(k < self.N, so.constructor(1)(tup), so.constructor(0)())

    def value(self, k, eof):
        """the scanner that has consumed the first k characters"""
        v = {'send_eof': eof, 'input': self.s, 'lookahead': self.lookahead(k),
             'chars': Obj('iter', seq=self.s, pos=z3.If(k < self.N, k + 1, self.N), end=self.N, n=self.N, what='charindices')}
        return Agg(self.T, 0, [v[f] for f in self.fields])

    def part(self, v, f):
        return v.fields[self.fields.index(f)]

    def facts(self, st, k):
        """what the byte offsets around position k are"""
        s = self.s
        st.assume(z3.And(BOFF(s, I(0)) == 0, CIDX(s, BOFF(s, k)) == k))
        c = CH(s, k)
        st.assume(z3.Implies(z3.And(k >= 0, k < self.N), z3.And(BOFF(s, k + 1) == BOFF(s, k) + U8LEN(c), U8LEN(c) >= 1, U8LEN(c) <= 4, CIDX(s, BOFF(s, k + 1)) == k + 1)))

    def tok(self, name, *fs):
        e = self.e
        return e.ty.cons(self.tok_t, vidx(e, self.tok_t, name), list(fs))

    def word(self, p, m):
        """the token of an unquoted word"""
        e, s = self.e, self.s
        t = SLICE(s, p, m)
        nx = CH(s, m)
        r = z3.If(z3.And(m < self.N, z3.Or(nx == o('<'), nx == o('>')), PARSE_OK(t)), self.tok('Number', PARSE_I(t)), self.tok('Word', t))
        for w, k in KEYWORDS.items():
            r = z3.If(t == sv(w), self.tok(k), r)
        return r

    def cases(self, p):
        """[(name, condition, end, token)]: the token that starts at p (p < N)"""
        s, N = self.s, self.N
        c = CH(s, p)
        nx = lambda x: z3.And(p + 1 < N, CH(s, p + 1) == o(x))
        out = []
        quoted = lambda q: z3.If(UNTIL(s, I(o(q)), p + 1) < N, UNTIL(s, I(o(q)), p + 1) + 1, N)
        text = lambda m: self.tok('Word', SLICE(s, p, m))
        for q, cl in (('"', '"'), ("'", "'"), ('`', '`')):
            out.append(('quoted by ' + q, c == o(q), quoted(cl), text(quoted(cl))))
        out.append(('substitution', z3.And(c == o('$'), nx('(')), quoted(')'), text(quoted(')'))))
        out.append(('dollar brace', z3.And(c == o('$'), nx('{')), p + 1, self.tok('Dollar')))
        m = WEND(s, p + 1)
        out.append(('word', z3.Or(z3.And(c == o('$'), z3.Not(nx('(')), z3.Not(nx('{'))), z3.And(wordc(c), c != o('"'), c != o("'"), c != o('#'))), m, self.word(p, m)))
        out.append(('newlines', c == 10, LINES(s, p + 1), self.tok('NewlineList')))
        for n, x in OPS2.items():
            out.append((x, z3.And(c == o(x[0]), nx(x[1])), p + 2, self.tok(n)))
        for n, x in OPS1.items():
            out.append((x, z3.And(c == o(x), *[z3.Not(nx(y[1])) for y in OPS2.values() if y[0] == x]), p + 1, self.tok(n)))
        return out

    def expected(self, k, eof):
        """(result, position afterwards, end marker sent) of next() at position k"""
        e, s, N = self.e, self.s, self.N
        p = PASS(s, k)
        RS, XS = e.ty.sort(self.RT), e.ty.sort(self.res_t)
        some = lambda m, t: RS.constructor(1)(XS.constructor(0)(e.ty.cons(self.tup_t, 0, [BOFF(s, p), t, BOFF(s, m)])))
        r = RS.constructor(1)(XS.constructor(1)(e.ty.cons(self.err_t, 0, [BOFF(s, p), CH(s, p), BOFF(s, p + 1)])))
        k2 = p + 1
        for n, c, m, t in self.cases(p):
            r, k2 = z3.If(c, some(m, t), r), z3.If(c, m, k2)
        fin = RS.constructor(1)(XS.constructor(0)(e.ty.cons(self.tup_t, 0, [I(0), self.tok('EOF'), I(0)])))
        at_end = p >= N
        return z3.If(at_end, z3.If(eof, RS.constructor(0)(), fin), r), z3.If(at_end, N, k2), z3.Or(eof, at_end)


    def start(self):
        """a scanner that has consumed k of the characters of the text"""
        e, N = self.e, self.N
        k, eof = z3.Const('position', INT), z3.Const('end_marker_sent', z3.BoolSort())
        st = State()
        st.assume(z3.And(k >= 0, k <= N))
        self.facts(st, k)
        fid = next(e.counter)
        st.frames[fid] = {0: self.value(k, eof)}
        return st, Ref(('L', fid, 0), (), self.T), k, eof

    def pos(self, v):
        la, ch = self.part(v, 'lookahead'), self.part(v, 'chars')
        if la.decl().kind() == z3.Z3_OP_ITE and la.arg(0).num_args() == 2 and la.eq(self.lookahead(la.arg(0).arg(0))):
            return la.arg(0).arg(0)
        return z3.If(la.sort().recognizer(1)(la), ch.pos - 1, ch.pos)

    def consistent(self, v, k):
        """v is the scanner that has consumed the first k characters"""
        w = self.value(k, self.part(v, 'send_eof'))
        a, b = self.part(v, 'chars'), self.part(w, 'chars')
        return z3.And(self.part(v, 'lookahead') == self.part(w, 'lookahead'), a.pos == b.pos, a.end == self.N, self.part(v, 'input') == self.s)

    def helpers(self, which):
        """contracts of the helper functions, each proved in g_helpers"""
        e = self.e
        names = {f['nname'] for f in e.fns.values()}
        if 'wc' in which:
            for nm in ('rsh::lexer::is_word_continue', 'rsh::lexer::is_word_start'):
                if nm in names:
                    e.contracts[nm] = lambda eng, st, f, a: [Outcome('ret', st, wordc(term(eng, st, a[0])))]
        adv = "rsh::lexer::Lexer::<'_>::advance"
        if 'advance' in which and adv in names:
            def advance(eng, st, f, a):
                q = a[0]
                v = eng.read(st, q.root, q.path)
                k = self.pos(v)
                self.facts(st, k)
                out = []
                for s2, good in split(eng, st, z3.And(k >= 0, k <= self.N, self.consistent(v, k))):
                    if not good:
                        s2.note('broken', 'P19', 'advance on a scanner that has lost its place')
                        out.append(Outcome('panic', s2, None))
                        continue
                    for s3, more in split(eng, s2, k < self.N):
                        if more:
                            self.facts(s3, k + 1)
                            eng.write(s3, q.root, q.path, self.value(k + 1, self.part(v, 'send_eof')))
                        out.append(Outcome('ret', s3, self.lookahead(k)))
                return out
            e.contracts[adv] = advance


def g_helpers(C):
    """advance hands out the next character with its place; the characters of words"""
    L = Lex(C)
    e, s, N = L.e, L.s, L.N
    for nm in ('rsh::lexer::is_word_continue', 'rsh::lexer::is_word_start'):
        fn = C.fn(e, nm)
        st = State()
        c = z3.Const('c', INT)
        st.assume(z3.And(c >= 0, c < 0x110000, z3.Implies(z3.And(c > 32, c < 127), z3.Not(WS(c)))))
        n = 0
        for k, oc in no_panic(C, nm, e.run_fn(st, fn, [c])):
            C.ob('%s: path %d: all but white space and the characters of operators' % (nm, k), e, oc.state, e.lower(oc.value) == wordc(c))
            n += 1
        C.covers(nm, n)
    fn = C.fn(e, "rsh::lexer::Lexer::<'_>::advance")
    st, r, k0, eof = L.start()
    st.assume(z3.And(*[x for i in (0, 1) for x in ch_rule(s, k0 + i)]))
    n = {}
    for k, oc in no_panic(C, 'advance', e.run_fn(st, fn, [r])):
        v = e.read(oc.state, r.root, r.path)
        C.ob('advance: path %d: the character handed out, and its place' % k, e, oc.state, e.lower(oc.value) == L.lookahead(k0))
        C.ob('advance: path %d: the scanner stands behind it' % k, e, oc.state, z3.And(L.consistent(v, z3.If(k0 < N, k0 + 1, k0)), L.part(v, 'send_eof') == eof))
        for y, f in (('a character', k0 < N), ('the end', k0 >= N)):
            n[y] = n.get(y, 0) + e.feasible(oc.state, f)
    fn = C.fn(e, "rsh::lexer::Lexer::<'_>::new")
    outs = e.run_fn(State(), fn, [s])
    for k, oc in no_panic(C, 'new', outs):
        L.facts(oc.state, I(0))
        v = oc.value
        C.ob('new: path %d: the scanner stands at the first character and has sent no end marker' % k, e, oc.state, z3.And(L.consistent(v, I(0)), z3.Not(L.part(v, 'send_eof'))))
    C.covers('new', len(outs))
    for y in n:
        C.covers(y, n[y])


def g_next(C):
    """next(): the token that starts at the next character that is neither blank nor comment"""
    L = Lex(C)
    e, s, N = L.e, L.s, L.N
    fn = L.next
    L.helpers(('wc', 'advance'))
    st, r, k0, eof0 = L.start()

    def again(eng, st2, f, a):
        """the scanner called again on what is left (induction on the number of characters left)"""
        q = a[0]
        v = eng.read(st2, q.root, q.path)
        k, eof = L.pos(v), L.part(v, 'send_eof')
        out = []
        for s3, good in split(eng, st2, z3.And(k > k0, k <= N, L.consistent(v, k))):
            if not good:
                s3.note('broken', 'P19', 'next calls itself without having consumed a character')
                out.append(Outcome('panic', s3, None))
                continue
            x, k2, eof2 = L.expected(k, eof)
            eng.write(s3, q.root, q.path, L.value(k2, eof2))
            out.append(Outcome('ret', s3, x))
        return out
    e.contracts[fn['nname']] = again

    def cand(ctx):
        v = e.read(ctx.st, r.root, r.path)
        v0 = e.read(ctx.entry, r.root, r.path)
        k, ke = L.pos(v), L.pos(v0)
        out = [('position', z3.And(k >= 0, k <= N, k >= ke)), ('state', L.consistent(v, k)), ('pass', PASS(s, k) == PASS(s, ke)), ('word', WEND(s, k) == WEND(s, ke)),
               ('newlines', LINES(s, k) == LINES(s, ke)), ('offset', CIDX(s, BOFF(s, k)) == k), ('marker', L.part(v, 'send_eof') == L.part(v0, 'send_eof'))]
        for q in ('"', "'", '`', ')', '\n'):
            out.append(('until %d' % o(q), UNTIL(s, I(o(q)), k) == UNTIL(s, I(o(q)), ke)))
        for p, x in ctx.ints():
            out.append(('offset %s' % (p,), x == BOFF(s, k)))
        return out
    e.cand = cand
    e.variant = lambda ctx: N - L.pos(e.read(ctx.st, r.root, r.path))
    outs = e.run_fn(st, fn, [r])
    x, k2, eof2 = L.expected(k0, eof0)
    p = PASS(s, k0)
    n = {}
    seen = set()
    for i, (f, h, b, m0, m1) in enumerate(e.variants):
        C.ob('next: loop %d: every iteration consumes a character' % i, e, b, z3.And(m1 < m0, m0 >= 0))
    for k, oc in no_panic(C, 'next', outs):
        nm = 'next: path %d: ' % k
        got = e.lower(oc.value)
        v = e.read(oc.state, r.root, r.path)
        L.facts(oc.state, p)
        C.ob(nm + 'the token, its text and its place', e, oc.state, got == x)
        C.ob(nm + 'the scanner stands right behind it', e, oc.state, z3.And(L.consistent(v, k2), L.part(v, 'send_eof') == eof2))
        for y, c, m, t in L.cases(p):
            n.setdefault(y, 0)
            if not n[y] and e.valid(oc.state, z3.Not(z3.And(p < N, c)))[0] != 'yes':
                n[y] = 1
    C.covers('loops', len(e.variants))
    for y in n:
        C.covers(y, n[y])


def g_places(C):
    """consequences of the contract: tokens are not empty and leave nothing out"""
    L = Lex(C)
    e, s, N = L.e, L.s, L.N
    k = z3.Const('position', INT)
    st = State()
    p = PASS(s, k)
    st.assume(z3.And(k >= 0, k <= N))
    for y, c, m, t in L.cases(p):
        C.ob(y + ': a token covers at least one character and ends inside the text', e, st, z3.Implies(z3.And(p < N, c), z3.And(m > p, m <= N)))
    # by induction on the number of characters left: what the positions found have
    found = lambda x, stop: z3.Implies(x < N, stop(CH(s, x)))
    def induct(name, f, stop, *rest):
        s2 = st.fork()
        s2.assume(k < N)
        for r in (k + 1,) + rest:
            s2.assume(found(f(r), stop))
        C.ob(name + ': the position found is such a one (induction step)', e, s2, found(f(k), stop))
        s3 = st.fork()
        s3.assume(k == N)
        C.ob(name + ': the position found is such a one (at the end)', e, s3, found(f(k), stop))
    q = z3.Const('q', INT)
    induct('next such character', lambda k: UNTIL(s, q, k), lambda c: c == q)
    induct('end of newlines', lambda k: LINES(s, k), lambda c: c != 10)
    induct('end of a word', lambda k: WEND(s, k), lambda c: z3.Not(wordc(c)))
    starts = lambda c: z3.And(z3.Not(blank(c)), c != o('#'))
    induct('next token', lambda k: PASS(s, k), starts, UNTIL(s, I(10), k + 1))
    cs = [c for _, c, _, _ in L.cases(p)]
    s2 = st.fork()
    s2.assume(found(p, starts))
    C.ob('a character that starts no token and is reported is *', e, s2, z3.Implies(z3.And(p < N, z3.Not(z3.Or(*cs))), CH(s, p) == o('*')))
    for i, a in enumerate(cs):
        C.ob('%s: the kinds of tokens exclude each other' % L.cases(p)[i][0], e, st, z3.Implies(z3.And(p < N, a), z3.Not(z3.Or(*(cs[:i] + cs[i + 1:])))))
    # what is passed over between two tokens
    j = z3.Const('j', INT)
    c = CH(s, j)
    st.assume(z3.And(j >= 0, j < N))
    C.ob('a character that is passed over alone is white space, and no line end', e, st, z3.Implies(z3.And(PASS(s, j) != j, c != o('#')), z3.And(WS(c), c != 10, PASS(s, j) == PASS(s, j + 1))))
    C.ob('a comment is passed over up to the end of its line', e, st, z3.Implies(c == o('#'), PASS(s, j) == PASS(s, UNTIL(s, I(10), j + 1))))
    C.covers('kinds', len(cs))
