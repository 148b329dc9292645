"""contracts of the actions of the grammar: what tree each production makes of the trees of its parts

The generated parser calls one action per production it recognises, on the values of the parts in the order of the text; with the contract of every
action, induction over the derivation gives the tree of a whole text. Which action belongs to which production is read from the parser that was
generated for this very dump."""
import os, re
from .common import *
from mirv import build
from mirv.core import length
S = z3.StringSort()
NONE = ('none',)
ASSUMES = ['the parser generated by lalrpop calls the action of a production exactly when it has recognised it, with the values of its parts in the order of the text (the tables of the automaton are taken from the generator)']


def some(x):
    return ('some', x)


def var(n, *xs):
    return ('var', n, xs)


def cons(x=None, y=None):
    """a list followed by one element"""
    return ('cons', x, y)


def one(y):
    return ('cons', None, y)


def text(*parts):
    return ('text', parts)


# production -> (property, part of the result, what it has to be); numbers are the parts of the production, (n, field) a field of one of them
RULES = {
    'AndOr = Pipeline': [('P01', 'and_or', NONE), ('P01', 'conditional_exec', NONE), ('P01', 'pipeline', 0)],
    'List = AndOr': [('P02', '0', one(0))],
    'List = List, CmdSepOp, AndOr': [('P02', '0', cons((0, '0'), 2))],
    'Term = AndOr': [('P02', '0', one(0))],
    'Term = Term, Separator, AndOr': [('P02', '0', cons((0, '0'), 2))],
    'CompleteCommand = Separator, List': [('P02', 'list', some(1))],
    'CompleteCommand = List, Separator': [('P02', 'list', some(0))],
    'CompleteCommand = List': [('P02', 'list', some(0))],
    'CompleteCommand = Separator': [('P02', 'list', NONE)],
    '__CompleteCommand = CompleteCommand': [('P02', '', 0)],
    'CompoundList = Term': [('P02', '0', 0)],
    'CompoundList = "newline_list", Term': [('P02', '0', 1)],
    'CompoundList = Term, Separator': [('P02', '0', 0)],
    'CompoundList = "newline_list", Term, Separator': [('P02', '0', 1)],
    'BraceGroup = "{", CompoundList, "}"': [('P02', '0', 1)],
    'CompoundCommand = BraceGroup': [('P02', '', var('BraceGroup', 0))],
    'FunctionBody = CompoundCommand': [('P10', 'compound_command', 0)],
    'FunctionBody = CompoundCommand, RedirectList': [('P10', 'compound_command', 0)],
    'FunctionDefinition = FunctionName, "(", ")", FunctionBody': [('P10', 'name', 0), ('P10', 'function_body', 3)],
    'FunctionDefinition = FunctionName, "(", ")", "newline_list", FunctionBody': [('P10', 'name', 0), ('P10', 'function_body', 4)],
    'FunctionName = "Word"': [('P10', '', 0)],
    'Pipeline = PipelineSeq': [('P01', 'bang', False), ('P03', 'pipe_sequence', 0), ('P06', 'background', False)],
    'Pipeline = "bang", PipelineSeq': [('P01', 'bang', True), ('P03', 'pipe_sequence', 1), ('P06', 'background', False)],
    'Pipeline = PipelineSeq, CmdBackgroundOp': [('P01', 'bang', False), ('P03', 'pipe_sequence', 0), ('P06', 'background', True)],
    'Pipeline = "bang", PipelineSeq, CmdBackgroundOp': [('P01', 'bang', True), ('P03', 'pipe_sequence', 1), ('P06', 'background', True)],
    'PipelineSeq = Command': [('P03', '0', one(0))],
    'PipelineSeq = PipelineSeq, "pipe", Command': [('P03', '0', cons((0, '0'), 2))],
    'Command = SimpleCommand': [('P03', '', var('SimpleCommand', 0))],
    'Command = FunctionDefinition': [('P10', '', var('FunctionDefinition', 0))],
    'Command = CompoundCommand': [],
    'SimpleCommand = Prefix, CmdWord, Suffix': [('P05,P13', 'prefix', some(0)), ('P17,P11,P18', 'name', 1), ('P05,P17', 'suffix', some(2))],
    'SimpleCommand = Prefix, CmdWord': [('P05,P13', 'prefix', some(0)), ('P17,P11,P18', 'name', 1), ('P05,P17', 'suffix', NONE)],
    'SimpleCommand = CmdName, Suffix': [('P05,P13', 'prefix', NONE), ('P17,P11,P18', 'name', 0), ('P05,P17', 'suffix', some(1))],
    'SimpleCommand = CmdName': [('P05,P13', 'prefix', NONE), ('P17,P11,P18', 'name', 0), ('P05,P17', 'suffix', NONE)],
    'SimpleCommand = Prefix': [('P05,P08', 'prefix', some(0)), ('P08,P18', 'name', text()), ('P05', 'suffix', NONE)],
    'Prefix = IORedirect': [('P05', 'io_redirect', one(0)), ('P13,P08', 'assignment', cons())],
    'Prefix = Prefix, IORedirect': [('P05', 'io_redirect', cons((0, 'io_redirect'), 1)), ('P13,P08', 'assignment', (0, 'assignment'))],
    'Prefix = Assignment': [('P05', 'io_redirect', cons()), ('P13,P08', 'assignment', one(0))],
    'Prefix = Prefix, Assignment': [('P05', 'io_redirect', (0, 'io_redirect')), ('P13,P08', 'assignment', cons((0, 'assignment'), 1))],
    'Suffix = IORedirect': [('P05', 'io_redirect', one(0)), ('P17', 'word', cons())],
    'Suffix = Suffix, IORedirect': [('P05', 'io_redirect', cons((0, 'io_redirect'), 1)), ('P17', 'word', (0, 'word'))],
    'Suffix = "Word"': [('P05', 'io_redirect', cons()), ('P17', 'word', one(0))],
    'Suffix = Word': [('P05', 'io_redirect', cons()), ('P17', 'word', one(0))],
    'Suffix = Suffix, Word': [('P05', 'io_redirect', (0, 'io_redirect')), ('P17', 'word', cons((0, 'word'), 1))],
    'Suffix = Assignment': [('P05', 'io_redirect', cons()), ('P17', 'word', one(0))],
    'Suffix = Suffix, Assignment': [('P05', 'io_redirect', (0, 'io_redirect')), ('P17', 'word', cons((0, 'word'), 1))],
    'IORedirect = IOFile': [('P05', 'io_file', some(0))],
    'IORedirect = "Number", IOFile': [('P05', 'io_file', some(1))],
    'IOFile = "<", Word': [('P05', 'redirect_type', var('Input')), ('P05', 'filename', 1)],
    'IOFile = ">", Word': [('P05', 'redirect_type', var('Output')), ('P05', 'filename', 1)],
    'IOFile = ">>", Word': [('P05', 'redirect_type', var('Append')), ('P05', 'filename', 1)],
    'RedirectList = IORedirect': [], 'RedirectList = RedirectList, IORedirect': [],
    'Assignment = "Word", "=", Word': [('P13,P08,P17', '', text(0, '=', 2))],
    'CmdName = "Word"': [('P17,P11,P18', '', 0)], 'CmdName = Subshell': [('P17,P16', '', 0)],
    'CmdWord = "Word"': [('P17,P11,P18', '', 0)], 'CmdWord = Subshell': [('P17,P16', '', 0)],
    'Word = "Word"': [('P17,P05,P13,P08', '', 0)], 'Word = Subshell': [('P17,P16', '', 0)],
    'Subshell = "Subshell"': [('P17,P16', '', 0)],
}
for op, name in (('&&', 'And'), ('||', 'Or')):
    for nl in ('', '"newline_list", '):
        RULES['AndOr = AndOr, "%s", %sPipeline' % (op, nl)] = [('P01', 'and_or', some(0)), ('P01', 'conditional_exec', some(var(name))), ('P01', 'pipeline', 3 if nl else 2)]
# terminals and the tokens of the scanner they stand for
TOKENS = {'";"': ('SemiColon', 'P02'), '"newline_list"': ('NewlineList', 'P02'), '"pipe"': ('Pipe', 'P03'), '"&"': ('Ampersand', 'P06'), '"&&"': ('And', 'P01'), '"||"': ('Or', 'P01'),
          '"bang"': ('Bang', 'P01'), '"("': ('OpenParen', 'P10'), '")"': ('CloseParen', 'P10'), '"{"': ('OpenBrace', 'P02'), '"}"': ('CloseBrace', 'P02'),
          '">"': ('Greater', 'P05'), '"<"': ('Less', 'P05'), '">>"': ('DoubleGreater', 'P05'), '"="': ('Equals', 'P13'), '"Word"': ('Word', 'P17'), '"Subshell"': ('Subshell', 'P16'),
          '"Number"': ('Number', 'P05'), '"EOF"': ('EOF', 'P02')}


class Generated:
    def __init__(self):
        p = os.path.join(os.path.dirname(build.dump()), 'grammar.rs')
        if not os.path.exists(p):
            raise Unsupported('anchor not found: the generated parser')
        with open(p) as f:
            s = f.read()
        self.prods = {}
        for m in re.finditer(r'^ *// (\w+) = (.*) => ActionFn\((\d+)\);$', s, re.M):
            self.prods['%s = %s' % (m.group(1), m.group(2))] = int(m.group(3))
        for m in re.finditer(r'^ *// (\w+) =  => ActionFn\((\d+)\);$', s, re.M):
            self.prods['%s =' % m.group(1)] = int(m.group(2))
        names = re.search(r'const __TERMINAL: &\[&str\] = &\[(.*?)\];', s, re.S)
        self.terminals = re.findall(r'r###"(.*?)"###', names.group(1)) if names else []
        self.tokens = {}
        for m in re.finditer(r'lexer::Token::(\w+)(?:\(_\))? if true => Some\((\d+)\)', s):
            self.tokens[int(m.group(2))] = m.group(1)


def check(C, nm, e, st, T, v, spec, args):
    """obligations: the value is what the production makes of its parts"""
    if isinstance(spec, bool) or isinstance(spec, int) or (isinstance(spec, tuple) and isinstance(spec[0], int)):
        want = z3.BoolVal(spec) if isinstance(spec, bool) else part(e, args, spec)
        return C.ob(nm, e, st, v == want)
    k = spec[0]
    if k in ('some', 'none'):
        so = e.ty.sort(T)
        C.ob(nm + (' is there' if k == 'some' else ' is absent'), e, st, so.recognizer(1 if k == 'some' else 0)(v))
        if k == 'some':
            check(C, nm, e, st, e.ty.targs(T)[0], e.ty.acc(T, 1, 0, v), spec[1], args)
    elif k == 'var':
        i = vidx(e, T, spec[1])
        so = e.ty.sort(T)
        if so == INT:
            return C.ob(nm + ' is ' + spec[1], e, st, v == int(e.ty[T]['v'][i]['disc']))
        C.ob(nm + ' is ' + spec[1], e, st, so.recognizer(i)(v))
        for j, x in enumerate(spec[2]):
            C.ob(nm + ' holds its part', e, st, e.ty.acc(T, i, j, v) == part(e, args, x))
    elif k == 'cons':
        want = []
        if spec[1] is not None:
            want.append(part(e, args, spec[1]))
        if spec[2] is not None:
            want.append(z3.Unit(part(e, args, spec[2])))
        C.ob(nm, e, st, v == (z3.Concat(*want) if len(want) > 1 else want[0] if want else z3.Empty(v.sort())))
    elif k == 'text':
        ps = [sv(x) if isinstance(x, str) else part(e, args, x) for x in spec[1]]
        C.ob(nm, e, st, v == (z3.Concat(*ps) if len(ps) > 1 else ps[0] if ps else sv('')))
    else:
        raise Unsupported('rule ' + str(spec))


def part(e, args, x):
    n, f = x if isinstance(x, tuple) else (x, None)
    T, v = args[n]
    return v if f is None else fld(e, T, f, v)


def productions(pid, only=None):
    return {p: [r for r in rs if pid in r[0].split(',')] for p, rs in RULES.items() if [r for r in rs if pid in r[0].split(',')] and (only is None or only(p))}


def g_actions(C, pid):
    """every production that makes a part of the tree this property speaks of"""
    e = C.engine()
    G = Generated()
    mine = productions(pid)
    # productions that are not in the grammar any more are no concern; a production the rules do not know leaves the question open
    lhs = {p.split(' = ')[0] for p in mine}
    new = [p for p in G.prods if p.split(' =')[0] in lhs and p not in RULES]
    if new:
        raise Unsupported('anchor not found: no rule for the production ' + new[0])
    done = 0
    mods = [''] + [m for m in ('ast::', 'builtins::') if any(f['nname'].startswith('rsh::%sgrammar::__action' % m) for f in e.fns.values())]
    for p, rs in mine.items():
        if p not in G.prods:
            continue
        for m in mods:
            done += action(C, e, 'rsh::%sgrammar::__action%d' % (m, G.prods[p]), p, rs, m)
    C.covers('productions', done)
    seen = 0
    variants = {v['name'] for t in e.ty.t if t.get('k') == 'adt' and t['name'].endswith('lexer::Token') for v in t['v']}
    for i, t in enumerate(G.terminals):
        want = TOKENS.get(t.replace('\\"', '"'))
        if want and want[1] == pid and want[0] in variants and i in G.tokens:
            seen += 1
            C.claim('the terminal %s of the grammar is the token %s of the scanner' % (t, want[0]), G.tokens[i] == want[0], 'it is %s' % G.tokens[i], by='read from the generated parser')


def action(C, e, name, p, rs, mod):
    fn = C.fn(e, name)
    st = State()
    args, cells = fresh_args(e, st, fn)
    parts = []
    for i, (root, v) in enumerate(cells[1:]):
        T = fn['locals'][i + 2]
        parts.append((e.ty.field_types(T, None)[1], e.ty.acc(T, 0, 1, e.lower(v))))
    outs = e.run_fn(st, fn, args)
    n = 0
    where = '' if not mod else ' (as compiled into %s)' % mod.strip(':')
    for k, o in no_panic(C, p + where, outs):
        n += 1
        R = fn['ret']
        r = e.lower(o.value)
        for _, f, spec in rs:
            T, v = (R, r) if f == '' else (fty(e, R, f), fld(e, R, f, r))
            check(C, '%s: %s%s' % (p, f or 'the value', where), e, o.state, T, v, spec, parts)
    return n
