"""contracts used by several properties"""
import re, z3
from mirv.spec import *
from mirv.core import *


class Lists:
    """And-or lists and lists of them over an opaque pipeline evaluator.

    pw/pr/px/pp: world, result, EXIT_STATUS and mutated tree after evaluating a pipeline in a world"""
    def __init__(self, C, e):
        self.C, self.e = C, e
        ep = C.fn(e, 'rsh::eval::eval_pipeline')
        eao = C.fn(e, 'rsh::eval::eval_and_or')
        self.ep, self.eao = ep, eao
        self.PT = e.ty[ep['locals'][1]]['e']
        self.AT = e.ty[eao['locals'][1]]['e']
        self.RT = ep['ret']
        self.so_p, self.so_a, self.so_r = e.ty.sort(self.PT), e.ty.sort(self.AT), e.ty.sort(self.RT)
        F = z3.Function
        self.pw = F('pipeline_world', World, self.so_p, World)
        self.pr = F('pipeline_result', World, self.so_p, self.so_r)
        self.px = F('pipeline_exit_status', World, self.so_p, INT)
        self.pp = F('pipeline_tree', World, self.so_p, self.so_p)
        self.aw = F('andor_world', World, self.so_a, World)
        self.ar = F('andor_result', World, self.so_a, self.so_r)
        self.ax = F('andor_exit_status', World, INT, self.so_a, INT)
        self.aa = F('andor_tree', World, self.so_a, self.so_a)
        self.lw = F('list_world', World, z3.SeqSort(self.so_a), INT, World)
        self.ls = F('list_status', World, z3.SeqSort(self.so_a), INT, INT)
        self.lok = F('list_ok', World, z3.SeqSort(self.so_a), INT, z3.BoolSort())
        e.spec_unfold = e.spec_unfold + [(self.ar, self.rule_a), (self.aw, self.rule_a), (self.lw, self.rule_l), (self.ls, self.rule_l), (self.lok, self.rule_l)]

    def ok(self, r):
        return self.so_r.recognizer(0)(r)

    def okv(self, r):
        return self.e.ty.acc(self.RT, 0, 0, r)

    def mkok(self, v):
        return self.so_r.constructor(0)(v)

    # ---- specification of a negatable pipeline: (world, result, exit status)
    def np(self, W, p):
        r = self.pr(W, p)
        bang = fld(self.e, self.PT, 'bang', p)
        neg = z3.If(self.okv(r) == 0, I(1), I(0))
        return self.pw(W, p), z3.If(z3.And(self.ok(r), bang), self.mkok(neg), r), z3.If(z3.And(self.ok(r), bang), neg, self.px(W, p))

    def parts(self, a):
        e = self.e
        inner = fld(e, self.AT, 'and_or', a)
        it = fty(e, self.AT, 'and_or')
        iso = e.ty.sort(it)
        cond = fld(e, self.AT, 'conditional_exec', a)
        ct = fty(e, self.AT, 'conditional_exec')
        cso = e.ty.sort(ct)
        ce = e.ty.targs(ct)[0]
        cv = e.ty.acc(ct, 1, 0, cond)
        return dict(has=iso.recognizer(1)(inner), inner=e.ty.acc(it, 1, 0, inner), hascond=cso.recognizer(1)(cond),
                    isand=z3.And(cso.recognizer(1)(cond), cv == int(e.ty[ce]['v'][vidx(e, ce, 'And')]['disc'])),
                    isor=z3.And(cso.recognizer(1)(cond), cv == int(e.ty[ce]['v'][vidx(e, ce, 'Or')]['disc'])),
                    pipe=fld(e, self.AT, 'pipeline', a))

    def rule_a(self, W, a):
        """left-associative, short-circuiting: the specification of an and-or list"""
        p = self.parts(a)
        w1, r1, _ = self.np(W, p['pipe'])
        wi, ri = self.aw(W, p['inner']), self.ar(W, p['inner'])
        s = self.okv(ri)
        skip = z3.Or(z3.Not(self.ok(ri)), z3.And(p['isand'], s != 0), z3.And(p['isor'], s == 0))
        w2, r2, _ = self.np(wi, p['pipe'])
        return [self.aw(W, a) == z3.If(p['has'], z3.If(skip, wi, w2), w1),
                self.ar(W, a) == z3.If(p['has'], z3.If(skip, ri, r2), r1)]

    def wf(self, a):
        """trees the grammar builds: an inner list comes with an operator (checked on the parser's trees)"""
        p = self.parts(a)
        return z3.Implies(p['has'], p['hascond'])

    def rule_l(self, W, l, n):
        """the first n and-or lists of l evaluated in order, stopping at the first error"""
        p = n - 1
        w, ok = self.lw(W, l, p), self.lok(W, l, p)
        r = self.ar(w, l[p])
        return [z3.If(n <= 0, z3.And(self.lw(W, l, n) == W, self.ls(W, l, n) == -1, self.lok(W, l, n)),
                      z3.And(self.lok(W, l, n) == z3.And(ok, self.ok(r)),
                             self.lw(W, l, n) == z3.If(ok, self.aw(w, l[p]), w),
                             self.ls(W, l, n) == z3.If(z3.And(ok, self.ok(r)), self.okv(r), self.ls(W, l, p))))]

    # ---- contracts
    def pipeline_contract(self, eng, st, fn, args):
        """eval_pipeline: opaque effect; leaves the `bang` flag of the tree alone (checked separately)"""
        p = term(eng, st, args[0])
        W = world(st)
        st.ghost['W'] = self.pw(W, p)
        self.set_exit(st, self.px(W, p))
        np_ = self.pp(W, p)
        st.assume(fld(eng, self.PT, 'bang', np_) == fld(eng, self.PT, 'bang', p))
        if isinstance(args[0], Ref):
            eng.write(st, args[0].root, args[0].path, np_)
        return [Outcome('ret', st, self.pr(W, p))]

    def set_exit(self, st, v):
        for k in self.e.statics:
            if k.endswith('EXIT_STATUS'):
                st.statics[k] = v

    def get_exit(self, st):
        for k in self.e.statics:
            if k.endswith('EXIT_STATUS'):
                return self.e.lower(self.e.static(st, k))
        raise Unsupported('anchor not found: EXIT_STATUS')

    def andor_contract(self, eng, st, fn, args):
        a = term(eng, st, args[0])
        W = world(st)
        st.ghost['W'] = self.aw(W, a)
        self.set_exit(st, eng.fresh('exit_status', INT))
        st.note('andor', W, a)
        if isinstance(args[0], Ref):
            eng.write(st, args[0].root, args[0].path, self.aa(W, a))
        return [Outcome('ret', st, self.ar(W, a))]

    def list_contract(self, eng, st, fn, args):
        l = term(eng, st, args[0])
        W = world(st)
        n = z3.Length(l)
        st.ghost['W'] = self.lw(W, l, n)
        self.set_exit(st, eng.fresh('exit_status', INT))
        st.note('list', W, l)
        if isinstance(args[0], Ref):
            nl = eng.fresh('list_after', l.sort())
            st.assume(z3.Length(nl) == n)
            eng.write(st, args[0].root, args[0].path, nl)
        r = eng.fresh('list_result', self.so_r)
        st.assume(self.ok(r) == self.lok(W, l, n))
        st.assume(z3.Implies(self.ok(r), self.okv(r) == self.ls(W, l, n)))
        return [Outcome('ret', st, r)]


def sv(x):
    return z3.StringVal(x)


def trim_spec(s):
    """one pair of matching quotes around a value is cut off"""
    q = z3.Or(z3.And(z3.PrefixOf(sv('"'), s), z3.SuffixOf(sv('"'), s)), z3.And(z3.PrefixOf(sv("'"), s), z3.SuffixOf(sv("'"), s)))
    return z3.If(q, z3.SubString(s, I(1), z3.Length(s) - 2), s)


def set_parts(s):
    """name=value: the text before and after the first equal sign"""
    i = z3.IndexOf(s, sv('='), I(0))
    has = z3.Contains(s, sv('='))
    return z3.If(has, z3.SubString(s, I(0), i), s), z3.If(has, z3.SubString(s, i + 1, z3.Length(s) - i - 1), sv(''))


class Scopes:
    """the stack of scopes: contexts and variables live in heaps, addressed by the Rc that holds them"""
    def __init__(self, C, e):
        self.C, self.e = C, e
        self.gv = C.fn(e, 'rsh::context::ContextManager::get_var')
        self.CM = e.ty[self.gv['locals'][1]]['e']
        self.CT = e.ty[e.find('rsh::context::Context::get_var')['locals'][1]]['e']
        self.VT = e.find('rsh::context::Var::new')['ret']
        self.kc, self.kv = e.heap_key(self.CT), e.heap_key(self.VT)
        self.sc = z3.ArraySort(INT, e.ty.sort(self.CT))
        self.seq = z3.SeqSort(INT)
        S = z3.StringSort()
        self.find = z3.Function('innermost_scope', self.sc, self.seq, S, INT, INT)
        self.ffind = z3.Function('innermost_function_scope', self.sc, self.seq, S, INT, INT)
        e.spec_unfold = e.spec_unfold + [(self.find, self.rule(self.find, 'vars')), (self.ffind, self.rule(self.ffind, 'functions'))]
        self.names = []
        self.base = None
        e.cand = self.cand

    def rule(self, f, field):
        def r(H, s, nm, n):
            c = s[n - 1]
            return [z3.If(n <= 0, f(H, s, nm, n) == -1, f(H, s, nm, n) == z3.If(self.has(H, c, nm, field), n - 1, f(H, s, nm, n - 1))), f(H, s, nm, n) < z3.If(n <= 0, I(0), n), f(H, s, nm, n) >= -1]
        return r

    def cand(self, ctx):
        out = []
        if self.base is None:
            return out
        H, s = self.base
        vals = [(p, o.end) for p, o in ctx.iterators() if o.kind in ('iter', 'itermut') and same(o.d.get('seq'), s)]
        vals += ctx.ints()
        for p, t in vals:
            for nm in self.names:
                out.append(('innermost%s' % (p,), self.find(H, s, nm, t) == self.find(H, s, nm, z3.Length(s))))
                out.append(('innermostfn%s' % (p,), self.ffind(H, s, nm, t) == self.ffind(H, s, nm, z3.Length(s))))
        return out

    def Hc(self, st):
        return self.e.heap(st, self.kc)

    def Hv(self, st):
        return self.e.heap(st, self.kv)

    def table(self, H, c, field='vars'):
        return fld(self.e, self.CT, field, z3.Select(H, c))

    def opt(self, H, c, nm, field='vars'):
        return z3.Select(self.table(H, c, field), nm)

    def has(self, H, c, nm, field='vars'):
        o = self.opt(H, c, nm, field)
        return o.sort().recognizer(1)(o)

    def addr(self, H, c, nm, field='vars'):
        o = self.opt(H, c, nm, field)
        return o.sort().accessor(1, 0)(o)

    def var(self, Hv, a, f):
        return fld(self.e, self.VT, f, z3.Select(Hv, a))

    def stack(self, cm):
        return fld(self.e, self.CM, 'context_stack', cm)

    def start(self, fn, names=None):
        """fresh state and arguments; the stack is not empty and no cell is borrowed"""
        e, st = self.e, State()
        args, cells = fresh_args(e, st, fn)
        cm = cells[0][1]
        s = self.stack(cm)
        st.assume(z3.Length(s) >= 1)
        self.base = (self.Hc(st), s)
        return st, args, cells, cm, s

    def lookup(self, H, s, nm, field='vars'):
        """(defined, address) of the innermost definition"""
        i = (self.find if field == 'vars' else self.ffind)(H, s, nm, z3.Length(s))
        return i, self.addr(H, s[i], nm, field)

    def wf_addr(self, st, H, c, nm, field='vars'):
        """addresses in use have been allocated"""
        k = self.kv
        st.assume(z3.Implies(self.has(H, c, nm, field), self.addr(H, c, nm, field) < self.e.next_addr(st, k)))


class ShellAt:
    """the one Shell value behind SHELL"""
    def __init__(self, C, e):
        self.C, self.e = C, e
        f = C.fn(e, 'rsh::shell::Shell::lookup_alias')
        self.T = e.ty[f['locals'][1]]['e']
        self.key = e.heap_key(self.T)
        cell = [i for i in range(len(e.ty.t)) if e.ty.is_adt(i, 'RefCell') and e.ty.targs(i) == [self.T]]
        if not cell:
            raise Unsupported('anchor not found: SHELL')
        self.addr = z3.Const('lazy_' + re.sub(r'\W', '_', e.ty.canon(cell[0])), INT)

    def val(self, st):
        return z3.Select(self.e.heap(st, self.key), self.addr)

    def f(self, st, name):
        return fld(self.e, self.T, name, self.val(st))

    def same_except(self, a, b, *names):
        """two Shell values agree on every field but the named ones"""
        e = self.e
        return z3.And([e.ty.acc(self.T, 0, i, a) == e.ty.acc(self.T, 0, i, b) for i, fx in enumerate(e.ty[self.T]['v'][0]['f']) if fx[0] not in names])


def no_panic(C, name, outs):
    for i, o in enumerate(outs):
        C.claim('%s: path %d returns' % (name, i), o.kind == 'ret', str(o.state.notes[-3:]))
    return [(i, o) for i, o in enumerate(outs) if o.kind == 'ret']
