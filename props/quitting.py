"""contract of the exit builtin (used by P21)"""
from .common import *
from . import builtins
from mirv.core import nth_cases as at, length
from mirv.strs import PARSE_OK, PARSE_I
S = z3.StringSort()
ASSUMES = ['str::parse::<i32> reads the number a text stands for; std::process::exit ends the process at that point, and the system keeps the number modulo 256',
           'saving the history of the line editor (rustyline) returns']


def status(e, st):
    for k in e.statics:
        if k.endswith('EXIT_STATUS'):
            return e.lower(e.static(st, k))
    raise Unsupported('anchor not found: EXIT_STATUS')


def g_quit(C):
    e = C.engine()
    fn = C.fn(e, 'rsh::builtins::quit')
    CT = e.ty[fn['locals'][1]]['e']
    C.fn(e, 'rsh::shell::save_history')
    e.contracts['rsh::shell::save_history'] = lambda eng, st, f, a: [Outcome('ret', st, Agg(f['ret'], None, ()))]
    st = State()
    args, cells = fresh_args(e, st, fn)
    cmd = cells[0][1]
    so = fty(e, CT, 'suffix')
    sopt = fld(e, CT, 'suffix', cmd)
    words = fld(e, e.ty.targs(so)[0], 'word', e.ty.acc(so, 1, 0, sopt))
    has = z3.And(e.ty.sort(so).recognizer(1)(sopt), length(words) > 0)
    w = at(words, I(0))
    s0 = status(e, st)
    outs = e.run_fn(st, fn, args)
    n = {}
    for k, o in enumerate(outs):
        nm = 'quit: path %d: ' % k
        C.claim(nm + 'the shell ends here, whatever the arguments', o.kind == 'exit', o.kind)
        if o.kind != 'exit':
            continue
        c = e.lower(o.value)
        C.ob(nm + 'with the number given, or the status of the last foreground pipeline', e, o.state,
             z3.And(z3.Implies(z3.Not(has), c == s0), z3.Implies(z3.And(has, PARSE_OK(w)), c == PARSE_I(w))))
        C.ob(nm + 'a word that is not a number is a failure', e, o.state, z3.Implies(z3.And(has, z3.Not(PARSE_OK(w))), c % 256 != 0))
        for x, f in (('a number', z3.And(has, PARSE_OK(w))), ('no argument', z3.Not(has)), ('not a number', z3.And(has, z3.Not(PARSE_OK(w))))):
            n[x] = n.get(x, 0) + e.feasible(o.state, f)
    for x in ('a number', 'no argument', 'not a number'):
        C.covers(x, n.get(x, 0))


def g_status(C):
    """the status exit finds is the one recorded last"""
    e = C.engine()
    st = State()
    f = C.fn(e, 'rsh::eval::set_exit_status')
    args, cells = fresh_args(e, st, f)
    outs = e.run_fn(st, f, args)
    for k, o in no_panic(C, 'set_exit_status', outs):
        g = C.fn(e, 'rsh::eval::get_exit_code')
        for j, q in no_panic(C, 'get_exit_code', e.run_fn(o.state, g, [])):
            C.ob('get_exit_code: path %d.%d: what set_exit_status recorded last' % (k, j), e, q.state, e.lower(q.value) == e.lower(args[0]))
    C.covers('paths', len(outs))


PROOFS = [('quit', g_quit), ('exit status', g_status), ('call_builtin', builtins.g_call)]
