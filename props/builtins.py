"""contracts of the dispatch of commands (used by P11, P17, P18)"""
from .common import *
from .frames import g_builtins, frame
from mirv.core import Obj

NAMES = {'cd': 'change_directory', 'exit': 'quit', 'return': 'return_cmd', 'jobs': 'jobs', 'fg': 'fgbg', 'bg': 'fgbg', 'alias': 'alias', 'unalias': 'unalias', 'export': 'export', 'eval': 'eval_cmd',
         'unset': 'unset', 'pwd': 'pwd', 'readonly': 'readonly', 'exec': 'exec_cmd', '.': 'source', 'source': 'source', '': 'assignment'}


def is_builtin(n):
    return z3.Or([n == sv(x) for x in NAMES])


def g_names(C):
    e = C.engine()
    fn = C.fn(e, 'rsh::eval::check_if_builtin')
    st = State()
    args, cells = fresh_args(e, st, fn)
    outs = e.run_fn(st, fn, args)
    n = [0, 0]
    for k, o in no_panic(C, 'check_if_builtin', outs):
        r = e.lower(o.value)
        C.ob('check_if_builtin: path %d: exactly the names of the builtins' % k, e, o.state, r == is_builtin(args[0]))
        n[0] += e.feasible(o.state, r)
        n[1] += e.feasible(o.state, z3.Not(r))
    C.covers('builtins', n[0])
    C.covers('other names', n[1])


def g_call(C):
    """each name runs its own builtin, once, on the command as it is"""
    e = C.engine()
    fn = C.fn(e, 'rsh::eval::call_builtin')

    def contract(b):
        def c(eng, st, f, args):
            st.note('builtin', b, [term(eng, st, a) for a in args])
            r = eng.fresh_ty(st, f['ret'], 'result_of_' + b)
            st.note('result', r)
            return [Outcome('ret', st, r)]
        return c
    for b in set(NAMES.values()):
        C.fn(e, 'rsh::builtins::' + b)
        e.contracts['rsh::builtins::' + b] = contract(b)
    st = State()
    args, cells = fresh_args(e, st, fn)
    cmd = cells[0][1]
    CT = e.ty[fn['locals'][1]]['e']
    name = fld(e, CT, 'name', cmd)
    st.assume(is_builtin(name))
    outs = e.run_fn(st, fn, args)
    seen = set()
    for k, o in no_panic(C, 'call_builtin', outs):
        calls = [x for x in o.state.notes if x[0] == 'builtin']
        C.claim('call_builtin: path %d: one builtin runs' % k, len(calls) == 1, str([x[1] for x in calls]))
        if len(calls) != 1:
            continue
        b = calls[0][1]
        seen.add(b)
        C.ob('call_builtin: path %d: %s runs for its own names only' % (k, b), e, o.state, z3.Or([name == sv(x) for x, y in NAMES.items() if y == b]))
        for a in calls[0][2]:
            C.ob('call_builtin: path %d: %s gets the command' % (k, b), e, o.state, a == cmd)
        r = e.lower(o.value)
        res = [x for x in o.state.notes if x[0] == 'result'][0][1]
        res = e.lower(res)
        C.ob('call_builtin: path %d: an error of %s is an error, anything else leaves no process to start' % (k, b), e, o.state,
             z3.And(r.sort().recognizer(1)(r) == res.sort().recognizer(1)(res), z3.Implies(r.sort().recognizer(0)(r), z3.Not(r.sort().accessor(0, 0)(r).sort().recognizer(1)(r.sort().accessor(0, 0)(r))))))
    for b in sorted(set(NAMES.values())):
        C.covers(b, b in seen)


def g_directory(C):
    """cd goes to its first argument, or home, and to nowhere else; pwd prints where the shell is; return records its number"""
    from mirv import sysm
    from mirv.core import nth_cases as at, length
    from mirv.strs import PARSE_OK, PARSE_I
    S = z3.StringSort()

    def command(e, fn, cells):
        cmd = cells[0][1]
        CT = e.ty[fn['locals'][1]]['e']
        so = fty(e, CT, 'suffix')
        sopt = fld(e, CT, 'suffix', cmd)
        words = fld(e, e.ty.targs(so)[0], 'word', e.ty.acc(so, 1, 0, sopt))
        return z3.And(e.ty.sort(so).recognizer(1)(sopt), length(words) > 0), at(words, I(0))

    def ok(e, o):
        r = e.lower(o.value)
        return r.sort().recognizer(0)(r)
    e = C.engine()
    fn = C.fn(e, 'rsh::builtins::change_directory')
    st = State()
    args, cells = fresh_args(e, st, fn)
    has, w = command(e, fn, cells)
    cwd, env = sysm.g(e, st, 'cwd'), sysm.g(e, st, 'env')
    opt = e.ty.opt(S)
    home = z3.Select(env, sv('HOME'))
    ends = {}
    for k, o in no_panic(C, 'change_directory', e.run_fn(st, fn, args)):
        nm = 'change_directory: path %d: ' % k
        moves = [x[1] for x in o.state.notes if x[0] == 'chdir']
        C.claim(nm + 'the directory is changed once at most', len(moves) <= 1, str(len(moves)))
        now = sysm.g(e, o.state, 'cwd')
        r = ok(e, o)
        if moves:
            C.ob(nm + 'to the first argument, or home without one', e, o.state, moves[0] == z3.If(has, w, opt.accessor(1, 0)(home)))
            C.ob(nm + 'home is the value of HOME', e, o.state, z3.Or(has, opt.recognizer(1)(home)))
            C.ob(nm + 'that is no error', e, o.state, r)
        else:
            C.ob(nm + 'when the directory was not changed the builtin fails', e, o.state, z3.Not(r))
            C.ob(nm + 'and the shell stays where it is', e, o.state, now == cwd)
            # a failure has a cause: the system refused, or there is no home
            refused = any(x[0] == 'syserr' for x in o.state.notes)
            C.ob(nm + 'only because the system refused or there is no home', e, o.state, z3.BoolVal(True) if refused else z3.And(z3.Not(has), opt.recognizer(0)(home)))
        C.ob(nm + 'the environment stays', e, o.state, sysm.g(e, o.state, 'env') == env)
        for x, f in (('moved to the argument', z3.And(r, has)), ('moved home', z3.And(r, z3.Not(has))), ('failed', z3.Not(r))):
            ends[x] = ends.get(x, 0) + e.feasible(o.state, f)
    for x in ('moved to the argument', 'moved home', 'failed'):
        C.covers(x, ends.get(x, 0))

    e = C.engine()
    e.prints = True
    fn = C.fn(e, 'rsh::builtins::pwd')
    st = State()
    cwd = sysm.g(e, st, 'cwd')
    n = {}
    for k, o in no_panic(C, 'pwd', e.run_fn(st, fn, [])):
        said = [x[1] for x in o.state.notes if x[0] == 'print']
        C.claim('pwd: path %d: prints once at most' % k, len(said) <= 1, str(len(said)))
        if said:
            C.ob('pwd: path %d: the directory the shell is in' % k, e, o.state, said[0] == z3.Concat(cwd, sv('\n')))
            C.ob('pwd: path %d: that is no error' % k, e, o.state, ok(e, o))
            n['said'] = 1
        else:
            C.ob('pwd: path %d: saying nothing is an error' % k, e, o.state, z3.Not(ok(e, o)))
            C.claim('pwd: path %d: only when the system does not know the directory' % k, any(x[0] == 'syserr' for x in o.state.notes), '')
        C.ob('pwd: path %d: the shell stays where it is' % k, e, o.state, sysm.g(e, o.state, 'cwd') == cwd)
    C.covers('pwd prints', n.get('said', 0))

    e = C.engine()
    fn = C.fn(e, 'rsh::builtins::return_cmd')
    st = State()
    args, cells = fresh_args(e, st, fn)
    has, w = command(e, fn, cells)
    key = [k for k in e.statics if k.endswith('EXIT_STATUS')]
    if not key:
        raise Unsupported('anchor not found: EXIT_STATUS')
    status = lambda s: e.lower(e.static(s, key[0]))
    s0 = status(st)
    ends = {}
    for k, o in no_panic(C, 'return_cmd', e.run_fn(st, fn, args)):
        nm = 'return_cmd: path %d: ' % k
        r = ok(e, o)
        C.ob(nm + 'with a number: the status is that number', e, o.state, z3.Implies(z3.And(has, PARSE_OK(w)), z3.And(r, status(o.state) == PARSE_I(w))))
        C.ob(nm + 'without one: the status stays', e, o.state, z3.Implies(z3.Not(has), z3.And(r, status(o.state) == s0)))
        C.ob(nm + 'another word is an error', e, o.state, z3.Implies(z3.And(has, z3.Not(PARSE_OK(w))), z3.Not(r)))
        for x, f in (('a number', z3.And(has, PARSE_OK(w))), ('nothing', z3.Not(has)), ('another word', z3.And(has, z3.Not(PARSE_OK(w))))):
            ends[x] = ends.get(x, 0) + e.feasible(o.state, f)
    for x in ('a number', 'nothing', 'another word'):
        C.covers('return: ' + x, ends.get(x, 0))

    # the text readonly -p lists for a variable
    e = C.engine()
    e.prints = True
    fn = C.fn(e, '<rsh::context::Var as std::fmt::Display>::fmt')
    st = State()
    VT = e.ty.strip(fn['locals'][1])
    v = z3.Const('any_variable', e.ty.sort(VT))
    n = 0
    for k, o in no_panic(C, 'text of a variable', e.run_fn(st, fn, [v, Obj('formatter')])):
        said = [x[1] for x in o.state.notes if x[0] == 'print']
        C.claim('text of a variable: path %d: written once' % k, len(said) == 1, str(len(said)))
        if said:
            C.ob('text of a variable: path %d: its name, an equal sign and its value' % k, e, o.state, said[0] == z3.Concat(fld(e, VT, 'name', v), sv('='), fld(e, VT, 'value', v)))
            n += 1
    C.covers('text of a variable', n)


class Simple:
    """eval_simple_command and eval_builtin over opaque expansions: alias_lookup, expand_vars, eval, argv, cmd"""
    def __init__(self, C, e):
        self.C, self.e = C, e
        self.fn = C.fn(e, 'rsh::eval::eval_simple_command')
        self.CT = e.ty[self.fn['locals'][1]]['e']
        so = self.so = e.ty.sort(self.CT)
        F = z3.Function
        self.f = {}
        for m in ('alias_lookup', 'expand_vars', 'eval'):
            C.fn(e, 'rsh::ast::SimpleCommand::' + m)
            self.f[m] = F(m, World, so, so)
            self.f['W' + m] = F('after_' + m, World, so, World)
            e.contracts['rsh::ast::SimpleCommand::' + m] = self.step(m)

    def step(self, m):
        def c(eng, st, f, args):
            x = term(eng, st, args[0])
            W = world(st)
            st.ghost['W'] = self.f['W' + m](W, x)
            eng.write(st, args[0].root, args[0].path, self.f[m](W, x))
            return [Outcome('ret', st, Agg(f['ret'], None, ()))]
        return c

    def expanded(self, W, x):
        """aliases first, then variables, then quotes and substitutions"""
        for m in ('alias_lookup', 'expand_vars', 'eval'):
            W, x = self.f['W' + m](W, x), self.f[m](W, x)
        return W, x


def g_simple(C, prop='P18'):
    e = C.engine()
    M = Simple(C, e)
    so = M.so
    argv = C.fn(e, 'rsh::ast::SimpleCommand::argv')
    ARGV = z3.Function('argv_of', so, e.ty.sort(argv['ret']))
    e.contracts['rsh::ast::SimpleCommand::argv'] = lambda eng, st, f, a: [Outcome('ret', st, ARGV(term(eng, st, a[0])))]
    cb = C.fn(e, 'rsh::eval::call_builtin')
    RES = z3.Function('result_of_builtin', World, so, e.ty.sort(cb['ret']))

    def call(eng, st, f, args):
        x = term(eng, st, args[0])
        st.note('builtin', world(st), x)
        r = RES(world(st), x)
        return [Outcome('ret', st, r)]
    e.contracts['rsh::eval::call_builtin'] = call
    C.fn(e, 'rsh::eval::check_if_builtin')
    e.contracts['rsh::eval::check_if_builtin'] = lambda eng, st, f, a: [Outcome('ret', st, is_builtin(term(eng, st, a[0])))]
    st = State()
    args, cells = fresh_args(e, st, M.fn)
    cmd = cells[0][1]
    name = fld(e, M.CT, 'name', cmd)
    W0 = world(st)
    Wx, x = M.expanded(W0, cmd)
    outs = e.run_fn(st, M.fn, args)
    n = {'builtin': 0, 'process': 0}
    for k, o in no_panic(C, 'eval_simple_command', outs):
        r = e.lower(o.value)
        rs = r.sort()
        calls = [y for y in o.state.notes if y[0] == 'builtin']
        opt = rs.accessor(0, 0)(r)
        starts = z3.And(rs.recognizer(0)(r), opt.sort().recognizer(1)(opt))
        nm = 'eval_simple_command: path %d: ' % k
        if calls:
            n['builtin'] += 1
            if prop == 'P18':
                C.ob(nm + 'run as a builtin only under the name of one', e, o.state, is_builtin(name))
                C.claim(nm + 'the builtin runs once', len(calls) == 1)
                C.ob(nm + 'a builtin leaves no process to start', e, o.state, z3.Not(starts))
                C.ob(nm + 'and its failure is reported', e, o.state, z3.Implies(RES(calls[0][1], calls[0][2]).sort().recognizer(1)(RES(calls[0][1], calls[0][2])), rs.recognizer(1)(r)))
            if prop == 'P17':
                C.ob(nm + 'the builtin gets the expanded command', e, o.state, z3.And(calls[0][2] == x, calls[0][1] == Wx))
        else:
            n['process'] += 1
            if prop == 'P18':
                C.ob(nm + 'a command with the name of a builtin is run by the shell itself', e, o.state, z3.Not(is_builtin(name)))
                C.ob(nm + 'any other command becomes a process or a function call', e, o.state, starts)
            elif prop in ('P17', 'P11'):
                pr = opt.sort().accessor(1, 0)(opt)
                p, c = [pr.sort().accessor(0, i)(pr) for i in (0, 1)]
                PT = e.ty.field_types(e.ty.targs(e.ty.targs(M.fn['ret'])[0])[0], None)[0]
                C.ob(nm + 'aliases, then variables, then quotes: each expansion once, in this order', e, o.state, z3.And(o.state.ghost['W'] == Wx, c == x))
                C.ob(nm + 'the process has the words of the expanded command as its arguments', e, o.state, fld(e, PT, 'argv', p) == ARGV(x))
                C.ob(nm + 'and its name as the program', e, o.state, fld(e, PT, 'argv0', p) == fld(e, M.CT, 'name', x))
    for k in n:
        C.covers(k, n[k])


def g_dispatch(C):
    """eval_command hands a simple command to eval_simple_command, once, and defines functions without starting anything"""
    e = C.engine()
    fn = C.fn(e, 'rsh::eval::eval_command')
    es = C.fn(e, 'rsh::eval::eval_simple_command')
    CT = e.ty[fn['locals'][1]]['e']
    SIMPLE = z3.Function('simple_command', World, e.ty.sort(e.ty[es['locals'][1]]['e']), e.ty.sort(es['ret']))

    def simple(eng, st, f, args):
        x = term(eng, st, args[0])
        st.note('simple', x)
        return [Outcome('ret', st, SIMPLE(world(st), x))]
    e.contracts['rsh::eval::eval_simple_command'] = simple
    C.fn(e, 'rsh::shell::add_function')

    def addf(eng, st, f, args):
        st.note('define', term(eng, st, args[0]), term(eng, st, args[1]))
        return [Outcome('ret', st, Agg(f['ret'], None, ()))]
    e.contracts['rsh::shell::add_function'] = addf
    st = State()
    args, cells = fresh_args(e, st, fn)
    c = cells[0][1]
    W0 = world(st)
    vs = {n: vidx(e, CT, n) for n in ('SimpleCommand', 'FunctionDefinition')}
    outs = e.run_fn(st, fn, args)
    n = dict.fromkeys(vs, 0)
    for k, o in no_panic(C, 'eval_command', outs):
        r = e.lower(o.value)
        rs = r.sort()
        calls = [y for y in o.state.notes if y[0] == 'simple']
        defs = [y for y in o.state.notes if y[0] == 'define']
        nm = 'eval_command: path %d: ' % k
        is_s, is_f = [e.ty.sort(CT).recognizer(vs[x])(c) for x in ('SimpleCommand', 'FunctionDefinition')]
        C.ob(nm + 'a simple command is evaluated exactly once, anything else not as one', e, o.state, is_s if len(calls) == 1 else z3.Not(is_s) if not calls else z3.BoolVal(False))
        C.ob(nm + 'a definition defines its function, once, and nothing else does', e, o.state, is_f if len(defs) == 1 else z3.Not(is_f) if not defs else z3.BoolVal(False))
        if calls:
            n['SimpleCommand'] += 1
            s0 = e.ty.acc(CT, vs['SimpleCommand'], 0, c)
            C.ob(nm + 'its result is that of the command', e, o.state, z3.And(r == SIMPLE(W0, calls[0][1]), calls[0][1] == s0))
        elif defs:
            n['FunctionDefinition'] += 1
            opt = rs.accessor(0, 0)(r)
            C.ob(nm + 'a definition starts nothing', e, o.state, z3.And(rs.recognizer(0)(r), z3.Not(opt.sort().recognizer(1)(opt))))
            FT = e.ty.field_types(CT, vs['FunctionDefinition'])[0]
            d = e.ty.acc(CT, vs['FunctionDefinition'], 0, c)
            C.ob(nm + 'the function has the name and the body of the definition', e, o.state, z3.And(defs[0][1] == fld(e, FT, 'name', d), defs[0][2] == fld(e, FT, 'function_body', d)))
        else:
            C.ob(nm + 'anything else is an error', e, o.state, rs.recognizer(1)(r))
    for k in n:
        C.covers(k, n[k])
