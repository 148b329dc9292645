"""contracts of the functions that evaluate a text: eval, source, the command line, scripts (used by P02, P10)"""
from .common import *
from mirv import sysm
from mirv.core import nth_cases as at, length
from .words import parser_contracts, positions
from .variables import suffix
from mirv.models import unit
S = z3.StringSort()
ASSUMES = ['the generated parser is a function of the text it is given and of nothing else (the end-to-end suites compare what it makes of every text they use with what is executed)']


class Texts:
    """evaluation of a tree as an opaque change of the world with an opaque result"""
    def __init__(self, C, e):
        self.PARSE, self.PARSES = parser_contracts(C, e)
        ev = C.fn(e, 'rsh::eval::eval')
        self.so = self.PARSE.range()
        self.RS = e.ty.sort(ev['ret'])
        self.EW = z3.Function('world_after_commands', World, self.so, World)
        self.ER = z3.Function('result_of_commands', World, self.so, self.RS)

        def evaluate(eng, st, f, a):
            t = term(eng, st, a[0])
            W = world(st)
            st.note('eval', t, W)
            r = self.ER(W, t)
            st.ghost['W'] = self.EW(W, t)
            return [Outcome('ret', st, r)]
        e.contracts[ev['nname']] = evaluate


def same_source(C, nm, o):
    for p in [x for x in o.state.notes if x[0] == 'parse']:
        C.claim(nm + 'the tokens parsed are those of the same text', p[2] is not None and z3.is_expr(p[2]) and (p[2].eq(p[1])), str(p[2])[:200])


def g_eval_cmd(C):
    """eval TEXT: the commands of the text are evaluated once, and their failure is the failure of eval"""
    e = C.engine()
    T = Texts(C, e)
    fn = C.fn(e, 'rsh::builtins::eval_cmd')
    st = State()
    args, cells = fresh_args(e, st, fn)
    CT, cmd, has, words = suffix(e, fn, cells)
    W0 = world(st)
    some = z3.And(has, length(words) > 0)
    t = z3.Concat(at(words, I(0)), sv('\n'))
    p = T.PARSE(t)
    outs = e.run_fn(st, fn, args)
    n = {}
    for k, o in no_panic(C, 'eval_cmd', outs):
        nm = 'eval_cmd: path %d: ' % k
        W, r = world(o.state), e.lower(o.value)
        ok = r.sort().recognizer(0)(r)
        C.ob(nm + 'the commands of the text are evaluated exactly once, in the shell itself', e, o.state, W == z3.If(z3.And(some, T.PARSES(t)), T.EW(W0, p), W0))
        C.ob(nm + 'it fails exactly when there is no text, the text is no command, or its commands fail', e, o.state, ok == z3.And(some, T.PARSES(t), T.RS.recognizer(0)(T.ER(W0, p))))
        C.claim(nm + 'at most one evaluation', len([x for x in o.state.notes if x[0] == 'eval']) <= 1)
        same_source(C, nm, o)
        for x, f in (('commands', z3.And(some, T.PARSES(t))), ('not a command', z3.And(some, z3.Not(T.PARSES(t)))), ('no text', z3.Not(some))):
            n[x] = n.get(x, 0) + e.feasible(o.state, f)
    for x in ('commands', 'not a command', 'no text'):
        C.covers(x, n.get(x, 0))


def g_source(C, prop):
    """source FILE: the text of the file is evaluated once, in the shell itself; its arguments belong to the innermost scope"""
    e = C.engine()
    T = Texts(C, e)
    Sc = Scopes(C, e)
    SH = ShellAt(C, e)
    inner = e.contracts['rsh::eval::eval']

    def evaluate(eng, st, f, a):
        """the commands of the file may change anything of the shell, but not the stack of scopes, and hold no descriptor afterwards"""
        st.note('before', Sc.Hc(st), Sc.Hv(st), SH.val(st), sysm.g(eng, st, 'fd'), list(st.borrows) if not isinstance(st.borrows, dict) else dict(st.borrows))
        outs = inner(eng, st, f, a)
        for o in outs:
            for key in (Sc.kc, Sc.kv, SH.key):
                o.state.heaps[key] = eng.fresh('after_commands', eng.heap(o.state, key).sort())
        return outs
    e.contracts['rsh::eval::eval'] = evaluate
    lk = C.fn(e, 'rsh::shell::lookup_command')
    LS = e.ty.sort(lk['ret'])
    LOOKUP = z3.Function('found_in_path', S, LS)
    e.contracts['rsh::shell::lookup_command'] = lambda eng, st, f, a: [Outcome('ret', st, LOOKUP(term(eng, st, a[0])))]
    fn = C.fn(e, 'rsh::builtins::source')
    st = State()
    args, cells = fresh_args(e, st, fn)
    CT, cmd, has, words = suffix(e, fn, cells)
    W0 = world(st)
    fd0 = sysm.g(e, st, 'fd')
    cm = SH.f(st, 'context_manager')
    s = Sc.stack(cm)
    st.assume(z3.Length(s) >= 1)
    H0, Hv0, sh0, n0 = Sc.Hc(st), Sc.Hv(st), SH.val(st), e.next_addr(st, Sc.kv)
    top = s[z3.Length(s) - 1]
    some = z3.And(has, length(words) > 0)
    J, Q = z3.Const('J', INT), z3.Const('Q', S)
    NUM, DEC = e.decimal = z3.Function('number_written', S, INT), z3.Function('decimal', INT, S)
    pn = DEC(J + 1)
    st.assume(z3.And(J >= 0, NUM(pn) == J + 1, z3.Length(pn) > 0))
    # addresses in use have been allocated
    wf = lambda H, kv, q: z3.Implies(Sc.has(H, top, q), Sc.addr(H, top, q) < kv)
    st.assume(z3.And(wf(H0, n0, pn), wf(H0, n0, Q)))
    ro = z3.And(Sc.has(H0, top, pn), Sc.var(Hv0, Sc.addr(H0, top, pn), 'readonly'))
    param = lambda q, upto: z3.And(NUM(q) >= 1, NUM(q) <= upto, q == DEC(NUM(q)))
    w0 = at(words, I(0))
    path = z3.If(z3.Contains(w0, sv('/')), w0, z3.If(LS.recognizer(1)(LOOKUP(w0)), LS.accessor(1, 0)(LOOKUP(w0)), w0))

    y, x = z3.Const('anyvar', INT), z3.Const('anyscope', INT)

    def done(H, Hv, k):
        """$J has been given the value of word J, unless it is read-only"""
        a = Sc.addr(H, top, pn)
        return z3.And(z3.Implies(z3.And(J < k, z3.Not(ro)), z3.And(Sc.has(H, top, pn), Sc.var(Hv, a, 'value') == at(words, J + 1))),
                      z3.Implies(z3.Or(J >= k, ro), z3.And(Sc.opt(H, top, pn) == Sc.opt(H0, top, pn))))

    def frame(H, Hv, k):
        return [z3.Implies(x != top, z3.Select(H, x) == z3.Select(H0, x)), z3.Implies(y < n0, z3.Select(Hv, y) == z3.Select(Hv0, y)),
                z3.Implies(z3.Not(param(Q, k)), Sc.opt(H, top, Q) == Sc.opt(H0, top, Q)),
                z3.And(Sc.table(H, top, 'functions') == Sc.table(H0, top, 'functions'), Sc.table(H, top, 'readonly_functions') == Sc.table(H0, top, 'readonly_functions'))]

    def cand(ctx):
        out = []
        H, Hv = Sc.Hc(ctx.st), Sc.Hv(ctx.st)
        kv = e.next_addr(ctx.st, Sc.kv)
        its = [(p, o) for p, o in ctx.iterators() if isinstance(o.d.get('pos'), z3.ExprRef) and isinstance(o.d.get('seq'), z3.ExprRef) and o.seq.sort() == words.sort()]
        for p, o in its:
            for p2, o2 in ctx.iterators():
                if o2.kind == 'count':
                    out.append(('count %s %s' % (p, p2), o2.n == o.pos))
        ks = [(str(p), o.pos) for p, o in its] + [(str(p), v) for p, v in ctx.ints() if p[-1] != 'pos']
        for q, k in ks:
            out.append(('done %s' % q, done(H, Hv, k)))
            out.append(('old parameter %s' % q, z3.Implies(Sc.has(H0, top, pn), z3.Select(Hv, Sc.addr(H0, top, pn)) == z3.Select(Hv0, Sc.addr(H0, top, pn)))))
            out += [('frame %d %s' % (i, q), f) for i, f in enumerate(frame(H, Hv, k))]
            for p, v, t in ctx.leaves():
                if v.sort() == words.sort():
                    out.append(('words so far %s %s' % (p, q), z3.And(length(v) == k - 1, z3.Implies(J < k - 1, at(v, J) == at(words, J + 1)))))
            for p, v in ctx.ints():
                if str(p) != q:
                    out.append(('int %s %s' % (p, q), v == k))
        out += [('int %s positive' % (p,), z3.And(v >= 1, v <= length(words))) for p, v in ctx.ints()]
        out.append(('alloc', z3.And(kv >= n0, wf(H, kv, pn), wf(H, kv, Q))))
        return out
    e.cand = cand
    outs = e.run_fn(st, fn, args)
    n = {'evaluated': 0, 'not': 0}
    for k, o in enumerate(outs):
        nm = 'source: path %d: ' % k
        notes = o.state.notes
        get = lambda t: [q for q in notes if q[0] == t]
        if o.kind == 'panic':
            C.claim(nm + 'stops only when the file is no text', any('read' in str(q) for q in notes[-3:]), str(notes[-3:]))
            continue
        C.claim(nm + 'returns', o.kind == 'ret', o.kind)
        if o.kind != 'ret':
            continue
        r = e.lower(o.value)
        ok = r.sort().recognizer(0)(r)
        ev = get('eval')
        bad = get('syserr')
        C.claim(nm + 'at most one evaluation', len(ev) <= 1)
        if prop == 'P04':
            C.ob(nm + 'the shell holds the descriptors it held', e, o.state, z3.ForAll([x], z3.Select(sysm.g(e, o.state, 'fd'), x) == z3.Select(fd0, x)))
            n['evaluated' if ev else 'not'] += 1
            continue
        C.ob(nm + 'nothing is evaluated only without a file name, or when the file cannot be read or parsed', e, o.state, z3.Or(not not ev, not not bad, z3.Not(some)))
        if not ev:
            n['not'] += 1
            C.ob(nm + 'that is a failure, and no command has run', e, o.state, z3.And(z3.Not(ok), world(o.state) == W0))
            continue
        n['evaluated'] += 1
        if prop == 'P02':
            reads, opens = get('readall'), get('open')
            C.claim(nm + 'one file is read', len(reads) == 1 and len(opens) == 1, str((len(reads), len(opens))))
            if len(reads) != 1 or len(opens) != 1:
                continue
            C.ob(nm + 'it is the one named: a name with a slash is a path, any other is looked up first', e, o.state, opens[0][1] == path)
            C.ob(nm + 'it is the one read', e, o.state, z3.Select(reads[0][3], reads[0][1]) == opens[0][3])
            C.ob(nm + 'its whole text is evaluated exactly once, in the shell itself', e, o.state, z3.And(ev[0][1] == T.PARSE(reads[0][2]), ev[0][2] == W0, world(o.state) == T.EW(W0, ev[0][1])))
            C.ob(nm + 'and its failure is the failure of source', e, o.state, ok == T.RS.recognizer(0)(T.ER(W0, ev[0][1])))
            same_source(C, nm, o)
        if prop == 'P10':
            _, H, Hv, sh, fdb, br = get('before')[0]
            m = length(words) - 1
            C.ob(nm + '$J is the J-th argument of the script, unless it is read-only', e, o.state, done(H, Hv, m))
            for t, f in zip(('no other scope changes', 'no variable that was there changes', 'no other name changes', 'functions stay'), frame(H, Hv, m)):
                C.ob(nm + 'before the commands run, ' + t, e, o.state, f)
            C.ob(nm + 'the rest of the shell is as it was when the commands start', e, o.state, sh == sh0)
            C.claim(nm + 'the commands may use every scope', not br, str(br))
    C.covers('evaluated', n['evaluated'])
    C.covers('not evaluated', n['not'])


def g_line(C):
    """rsh -c TEXT: the text is evaluated once"""
    e = C.engine()
    T = Texts(C, e)
    fn = C.fn(e, 'rsh::read_from_args')
    st = State()
    args, cells = fresh_args(e, st, fn)
    W0 = world(st)
    t = args[0]
    outs = e.run_fn(st, fn, args)
    n = 0
    for k, o in enumerate(outs):
        nm = 'read_from_args: path %d: ' % k
        if o.kind == 'panic':
            C.ob(nm + 'stops only at a text that is no command, before anything has run', e, o.state, z3.And(z3.Not(T.PARSES(t)), world(o.state) == W0))
            continue
        n += 1
        C.claim(nm + 'returns', o.kind == 'ret', o.kind)
        C.ob(nm + 'the commands of the text are evaluated exactly once', e, o.state, world(o.state) == T.EW(W0, T.PARSE(t)))
        C.claim(nm + 'one evaluation', len([x for x in o.state.notes if x[0] == 'eval']) == 1)
        same_source(C, nm, o)
    C.covers('evaluated', n)


def g_context_file(C):
    """export context NS=FILE: the commands run in a new scope on top, which is removed again whether or not they succeed"""
    e = C.engine()
    T = Texts(C, e)
    Sc = Scopes(C, e)
    SH = ShellAt(C, e)
    inner = e.contracts['rsh::eval::eval']

    def evaluate(eng, st, f, a):
        cm = SH.f(st, 'context_manager')
        st.note('before', Sc.Hc(st), Sc.Hv(st), SH.val(st), Sc.stack(cm), list(st.borrows) if not isinstance(st.borrows, dict) else dict(st.borrows))
        outs = inner(eng, st, f, a)
        for o in outs:
            for key in (Sc.kc, Sc.kv, SH.key):
                o.state.heaps[key] = eng.fresh('after_commands', eng.heap(o.state, key).sort())
            o.state.assume(Sc.stack(SH.f(o.state, 'context_manager')) == Sc.stack(cm))
            o.state.note('after', Sc.Hc(o.state), Sc.Hv(o.state), SH.val(o.state))
        return outs
    e.contracts['rsh::eval::eval'] = evaluate
    fn = C.fn(e, 'rsh::builtins::create_context_from_file')
    st = State()
    args, cells = fresh_args(e, st, fn)
    W0 = world(st)
    cm = SH.f(st, 'context_manager')
    s = Sc.stack(cm)
    st.assume(z3.Length(s) >= 1)
    H0, Hv0, nc0, sh0 = Sc.Hc(st), Sc.Hv(st), e.next_addr(st, Sc.kc), SH.val(st)
    x, q = z3.Const('anyscope', INT), z3.Const('anyname', S)
    outs = e.run_fn(st, fn, args)
    n = {'evaluated': 0, 'failed': 0, 'not': 0}
    for k, o in no_panic(C, 'create_context_from_file', outs):
        nm = 'create_context_from_file: path %d: ' % k
        r = e.lower(o.value)
        ok = r.sort().recognizer(0)(r)
        C.ob(nm + 'the stack of scopes is the one before', e, o.state, Sc.stack(SH.f(o.state, 'context_manager')) == s)
        C.claim(nm + 'no borrow is left', not o.state.borrows, '')
        b, a, ev = [[y for y in o.state.notes if y[0] == t] for t in ('before', 'after', 'eval')]
        C.claim(nm + 'at most one evaluation', len(ev) <= 1)
        if not ev:
            n['not'] += 1
            C.ob(nm + 'nothing is evaluated only when the file cannot be read or parsed, and nothing changes', e, o.state, z3.And(z3.Not(ok), Sc.Hc(o.state) == H0, Sc.Hv(o.state) == Hv0))
            continue
        _, H, Hv, sh, stk, br = b[0]
        top = nth(stk, z3.Length(stk) - 1)
        C.claim(nm + 'the commands may use every scope', not br, str(br))
        C.ob(nm + 'the commands run in a new empty scope on top', e, o.state, z3.And(z3.Length(stk) == z3.Length(s) + 1, z3.SubSeq(stk, I(0), z3.Length(s)) == s, top >= nc0, z3.Not(Sc.has(H, top, q)), z3.Not(Sc.has(H, top, q, 'functions'))))
        C.ob(nm + 'no other scope changes before they run', e, o.state, z3.And(z3.Implies(x < nc0, z3.Select(H, x) == z3.Select(H0, x)), Hv == Hv0))
        C.ob(nm + 'nothing but the commands changes a variable', e, o.state, z3.And(Sc.Hc(o.state) == a[0][1], Sc.Hv(o.state) == a[0][2], SH.same_except(SH.val(o.state), a[0][3], 'context_manager')))
        C.ob(nm + 'the scope given is that of the commands, which have succeeded', e, o.state, z3.And(ok == T.RS.recognizer(0)(T.ER(W0, ev[0][1])), z3.Implies(ok, r.sort().accessor(0, 0)(r) == top)))
        n['evaluated'] += e.feasible(o.state, ok)
        n['failed'] += e.feasible(o.state, z3.Not(ok))
    for y in n:
        C.covers(y, n[y])


class Reading:
    """lines read one after the other: RK(k) how the k-th reading ends, LINE(k) what it yields; LW(k) the world after the first k of them, each evaluated once"""
    def __init__(self, C, e, T, W0, taken):
        self.e, self.T = e, T
        self.RK, self.LINE, self.LW = z3.Function('reading_ends', INT, INT), z3.Function('line_read', INT, S), z3.Function('world_after_lines', INT, World)

        def rule(k):
            p = k - 1
            t = self.LINE(p)
            return [z3.If(k <= 0, self.LW(k) == W0, self.LW(k) == z3.If(taken(self, p), T.EW(self.LW(p), T.PARSE(t)), self.LW(p)))]
        e.spec_unfold = e.spec_unfold + [(self.LW, rule)]

    def n(self, st):
        return st.ghost.setdefault('reads', I(0))

    def cand(self, ctx):
        n = self.n(ctx.st)
        out = [('every line read so far has been evaluated once, in order', world(ctx.st) == self.LW(n)), ('count', n >= 0)]
        return out


def g_script(C):
    """a script: its lines are read one after the other, and each one is evaluated once before the next one is read"""
    e = C.engine()
    T = Texts(C, e)
    fn = C.fn(e, 'rsh::script_loop')
    st = State()
    args, cells = fresh_args(e, st, fn)
    W0 = world(st)
    R = Reading(C, e, T, W0, lambda R, p: z3.BoolVal(True))
    st.ghost['reads'] = I(0)

    def read_line(eng, st, f, a):
        k = R.n(st)
        st.ghost['reads'] = k + 1
        old = term(eng, st, a[1])
        good, bad = st, st.fork()
        RT = f['ret']
        so = eng.ty.sort(RT)
        good.assume(R.RK(k) == 0)
        eng.write(good, a[1].root, a[1].path, z3.Concat(old, R.LINE(k)))
        good.note('line', k, world(good))
        bad.assume(R.RK(k) != 0)
        bad.note('syserr', 'read_line')
        return [Outcome('ret', good, so.constructor(0)(z3.Length(R.LINE(k)))), Outcome('ret', bad, so.constructor(1)(eng.fresh('error', so.accessor(1, 0).range())))]
    for f in e.fns.values():
        if re.search(r'BufRead>::read_line$', f['nname']):
            e.contracts[f['nname']] = read_line
        if re.search(r'^std::io::BufReader::<.*>::new$', f['nname']):
            e.contracts[f['nname']] = lambda eng, st, f, a: [Outcome('ret', st, Obj('buffered', file=a[0]))]
    e.cand = R.cand
    outs = e.run_fn(st, fn, args)
    n = m = 0
    for k, o in enumerate(outs):
        nm = 'script_loop: path %d: ' % k
        notes = o.state.notes
        opens = [q for q in notes if q[0] == 'open']
        C.claim(nm + 'the shell itself is not replaced', o.kind in ('panic', 'ret'), o.kind)
        if opens:
            C.ob(nm + 'the file read is the one named', e, o.state, opens[0][1] == args[0])
        lines = [q for q in notes if q[0] == 'line']
        r = R.n(o.state)
        if o.kind == 'ret':
            m += 1
            C.ob(nm + 'it ends at the end of the file, every line read has been evaluated once, in order', e, o.state, z3.And(r > 0, z3.Length(R.LINE(r - 1)) == 0, world(o.state) == R.LW(r - 1)))
            same_source(C, nm, o)
            continue
        if not lines:
            C.ob(nm + 'before that every line read has been evaluated once, in order', e, o.state, world(o.state) == R.LW(z3.If(r > 0, r - 1, I(0))))
            continue
        n += 1
        C.ob(nm + 'the line is no command, and every line before it has been evaluated once, in order', e, o.state, z3.And(z3.Not(T.PARSES(R.LINE(r - 1))), world(o.state) == R.LW(r - 1)))
        same_source(C, nm, o)
    C.covers('lines', n)
    C.covers('end of the file', m)
    for l in e.loop_log:
        C.claim('script_loop: the invariant of the loop is that every line read so far has been evaluated once, in order', any('every line read' in x for x in l['invariants']), str(l['invariants'])[:300])


def g_interactive(C):
    """commands typed or piped in: every line read is evaluated once, in order, before the next one is read"""
    e = C.engine()
    T = Texts(C, e)
    fn = C.fn(e, 'rsh::interactive_loop')
    st = State()
    args, cells = fresh_args(e, st, fn)
    W0 = world(st)
    R = Reading(C, e, T, W0, lambda R, p: z3.And(R.RK(p) == 0, z3.Length(R.LINE(p)) > 0, T.PARSES(R.LINE(p))))
    st.ghost['reads'] = I(0)
    ev = C.fn(e, 'rsh::shell::expand_var')
    prompt = z3.Function('prompt', World, e.ty.sort(ev['ret']))
    for f in e.fns.values():
        if re.match(r'rsh::shell::expand_var($|::<)', f['nname']):
            e.contracts[f['nname']] = lambda eng, st, f, a: [Outcome('ret', st, prompt(world(st)))]
    ed = [f['nname'] for f in e.fns.values() if re.search(r'^rustyline::Editor::<.*>::readline$', f['nname'])]
    hist = [f['nname'] for f in e.fns.values() if f['nname'] == 'rsh::shell::save_history']
    if not ed:
        raise Unsupported('anchor not found: Editor::readline')

    def readline(eng, st, f, a):
        k = R.n(st)
        st.ghost['reads'] = k + 1
        so = eng.ty.sort(f['ret'])
        out = []
        # 0: a line, 1: interrupted, 2: end of the input, 3: any other error
        for i in range(4):
            b = st.fork()
            b.assume(R.RK(k) == i)
            if i == 0:
                out.append(Outcome('ret', b, so.constructor(0)(R.LINE(k))))
            else:
                er = eng.fresh('error', so.accessor(1, 0).range())
                ET = eng.ty.targs(f['ret'])[1]
                vi, ve = vidx(eng, ET, 'Interrupted'), vidx(eng, ET, 'Eof')
                is_ = lambda j: eng.ty.sort(ET).recognizer(j)(er)
                b.assume(is_(vi) if i == 1 else is_(ve) if i == 2 else z3.And(z3.Not(is_(vi)), z3.Not(is_(ve))))
                out.append(Outcome('ret', b, so.constructor(1)(er)))
        return out
    for f in ed:
        e.contracts[f] = readline
    for f in hist:
        e.contracts[f] = lambda eng, st, f, a: [Outcome("ret", st, unit(eng, f["ret"]))]
    e.cand = R.cand
    outs = e.run_fn(st, fn, args)
    n = 0
    for k, o in enumerate(outs):
        nm = 'interactive_loop: path %d: ' % k
        r = R.n(o.state)
        if o.kind == 'panic':
            C.claim(nm + 'stops only without a prompt', any('unwrap' in str(q) or 'None' in str(q) for q in o.state.notes[-3:]), str(o.state.notes[-3:]))
            C.ob(nm + 'every line read has been evaluated once, in order', e, o.state, world(o.state) == R.LW(r))
            continue
        n += 1
        C.claim(nm + 'returns', o.kind == 'ret', o.kind)
        C.ob(nm + 'it ends at the end of the input or when it cannot be read, and not before', e, o.state, z3.And(r >= 1, z3.Or(R.RK(r - 1) == 2, R.RK(r - 1) == 3)))
        C.ob(nm + 'every line read has been evaluated exactly once, in order', e, o.state, world(o.state) == R.LW(r))
    C.covers('ends', n)
