"""contracts of the scope stack (used by P08, P09, P10)"""
from .common import *
NS = sv('::')


def g_get(C):
    e = C.engine()
    S = Scopes(C, e)
    st, args, cells, cm, s = S.start(S.gv)
    nm = args[1]
    st.assume(z3.Not(z3.Contains(nm, NS)))
    S.names = [nm]
    H, Hv = S.Hc(st), S.Hv(st)
    i, a = S.lookup(H, s, nm)
    outs = e.run_fn(st, S.gv, args)
    for k, o in no_panic(C, 'get_var', outs):
        r = e.lower(o.value)
        so = r.sort()
        C.ob('get_var: path %d: found exactly when some scope defines the name' % k, e, o.state, so.recognizer(1)(r) == (i >= 0))
        C.ob('get_var: path %d: the variable of the innermost scope that defines it' % k, e, o.state, z3.Implies(i >= 0, so.accessor(1, 0)(r) == a))
        C.ob('get_var: path %d: no scope and no variable changed' % k, e, o.state, z3.And(S.Hc(o.state) == H, S.Hv(o.state) == Hv))
    for nmx, c in (('defined', i >= 0), ('undefined', i < 0)):
        C.covers(nmx, sum(e.feasible(o.state, c) for o in outs))


class Before:
    """the state of the scopes before a call"""
    def __init__(self, S, st, cm, s):
        self.H, self.Hv, self.cm, self.s, self.n0 = S.Hc(st), S.Hv(st), cm, s, S.e.next_addr(st, S.kv)


def frame(C, S, e, who, k, st, B, cm2, target, name):
    """nothing but `name` in the scope `target` changes"""
    H2, Hv2 = S.Hc(st), S.Hv(st)
    c, q, x = e.fresh('any_scope', INT), e.fresh('any_name', z3.StringSort()), e.fresh('any_var', INT)
    C.ob('%s: path %d: no other name and no other scope changes' % (who, k), e, st, z3.Implies(z3.Or(c != target, q != name), S.opt(H2, c, q) == S.opt(B.H, c, q)))
    C.ob('%s: path %d: functions stay' % (who, k), e, st, z3.And(S.table(H2, c, 'functions') == S.table(B.H, c, 'functions'), S.table(H2, c, 'readonly_functions') == S.table(B.H, c, 'readonly_functions')))
    C.ob('%s: path %d: the stack has the same scopes' % (who, k), e, st, S.stack(cm2) == B.s)
    return H2, Hv2, x


def assign_post(C, S, e, who, k, o, B, cm2, name, value, readonly=False, at=None):
    """the effect of an assignment, with frame"""
    st = o.state
    s = B.s
    i, a = S.lookup(B.H, s, name)
    target = z3.If(i >= 0, s[i], s[z3.Length(s) - 1]) if at is None else at
    ro = z3.And(S.has(B.H, target, name), S.var(B.Hv, S.addr(B.H, target, name), 'readonly'))
    H2, Hv2, x = frame(C, S, e, who, k, st, B, cm2, target, name)
    na = S.addr(H2, target, name)
    C.ob('%s: path %d: a read-only variable stays as it is' % (who, k), e, st, z3.Implies(ro, z3.And(H2 == B.H, z3.Select(Hv2, S.addr(B.H, target, name)) == z3.Select(B.Hv, S.addr(B.H, target, name)))))
    C.ob('%s: path %d: the innermost defining scope (or the innermost one) holds the new value' % (who, k), e, st, z3.Implies(z3.Not(ro), z3.And(S.has(H2, target, name), S.var(Hv2, na, 'value') == value, S.var(Hv2, na, 'name') == name, S.var(Hv2, na, 'readonly') == z3.BoolVal(readonly))))
    C.ob('%s: path %d: no existing variable changes' % (who, k), e, st, z3.Implies(x < B.n0, z3.Select(Hv2, x) == z3.Select(B.Hv, x)))


def remove_post(C, S, e, who, k, o, B, cm2, name):
    st = o.state
    s = B.s
    i, a = S.lookup(B.H, s, name)
    ro = S.var(B.Hv, a, 'readonly')
    H2, Hv2, x = frame(C, S, e, who, k, st, B, cm2, z3.If(i >= 0, s[i], I(-1)), name)
    C.ob('%s: path %d: removed from the scope a lookup finds it in' % (who, k), e, st, z3.Implies(z3.And(i >= 0, z3.Not(ro)), z3.Not(S.has(H2, s[i], name))))
    C.ob('%s: path %d: a read-only or undefined name stays as it is' % (who, k), e, st, z3.Implies(z3.Or(i < 0, ro), z3.And(H2 == B.H, Hv2 == B.Hv)))
    C.ob('%s: path %d: no variable changes its value' % (who, k), e, st, Hv2 == B.Hv)


def readonly_post(C, S, e, who, k, o, B, cm2, name):
    """readonly NAME: the variable found keeps its value and becomes read-only; an undefined one becomes an empty read-only one"""
    st = o.state
    s = B.s
    i, a = S.lookup(B.H, s, name)
    top = s[z3.Length(s) - 1]
    H2, Hv2 = S.Hc(st), S.Hv(st)
    target = z3.If(i >= 0, I(-1), top)
    dname, dvalue = set_parts(name)
    frame(C, S, e, who, k, st, B, cm2, target, dname)
    x = e.fresh('any_var', INT)
    C.ob('%s: path %d: a defined variable keeps its value and becomes read-only' % (who, k), e, st,
         z3.Implies(i >= 0, z3.And(H2 == B.H, S.var(Hv2, a, 'value') == S.var(B.Hv, a, 'value'), S.var(Hv2, a, 'name') == S.var(B.Hv, a, 'name'), S.var(Hv2, a, 'readonly'))))
    C.ob('%s: path %d: no other variable is affected' % (who, k), e, st, z3.Implies(z3.And(x != a, x < B.n0), z3.Select(Hv2, x) == z3.Select(B.Hv, x)))
    na = S.addr(H2, top, name)
    C.ob('%s: path %d: an undefined name becomes an empty read-only variable of the innermost scope' % (who, k), e, st,
         z3.Implies(z3.And(i < 0, z3.Not(z3.Contains(name, sv('=')))), z3.And(S.has(H2, top, name), S.var(Hv2, na, 'readonly'), S.var(Hv2, na, 'value') == sv(''))))


def covers2(C, e, outs, i):
    for nmx, c in (('defined', i >= 0), ('undefined', i < 0)):
        C.covers(nmx, sum(e.feasible(o.state, c) for o in outs))


def wf_vars(S, st, s, name, extra=()):
    """the addresses of the variables involved have been allocated"""
    H = S.Hc(st)
    i, _ = S.lookup(H, s, name)
    for c in [s[i], s[z3.Length(s) - 1]] + list(extra):
        S.wf_addr(st, H, c, name)


def cm_after(e, o, cells):
    return e.lower(e.read(o.state, cells[0][0], ())) if cells[0][0] is not None else cells[0][1]


def method(C, fname, no_ns=True):
    e = C.engine()
    S = Scopes(C, e)
    fn = C.fn(e, 'rsh::context::ContextManager::' + fname)
    st, args, cells, cm, s = S.start(fn)
    if no_ns:
        st.assume(z3.Not(z3.Contains(args[1], NS)))
    return e, S, fn, st, args, cells, cm, s


def g_assign(C):
    e, S, fn, st, args, cells, cm, s = method(C, 'add_var', False)
    name, value = set_parts(args[1])
    S.names = [name]
    B = Before(S, st, cm, s)
    outs = e.run_fn(st, fn, args)
    for k, o in no_panic(C, 'add_var', outs):
        assign_post(C, S, e, 'add_var', k, o, B, cm_after(e, o, cells), name, trim_spec(value))
    covers2(C, e, outs, S.lookup(B.H, s, name)[0])


def g_assign_ro(C):
    e, S, fn, st, args, cells, cm, s = method(C, 'add_var_readonly', False)
    name, value = set_parts(args[1])
    st.assume(z3.Not(z3.Contains(name, NS)))
    S.names = [name]
    B = Before(S, st, cm, s)
    outs = e.run_fn(st, fn, args)
    for k, o in no_panic(C, 'add_var_readonly', outs):
        assign_post(C, S, e, 'add_var_readonly', k, o, B, cm_after(e, o, cells), name, trim_spec(value), readonly=True)
    covers2(C, e, outs, S.lookup(B.H, s, name)[0])


def g_pos(C):
    e, S, fn, st, args, cells, cm, s = method(C, 'add_var_pos', False)
    name, value = set_parts(args[1])
    pos = args[2]
    st.assume(pos < z3.Length(s))
    S.names = [name]
    B = Before(S, st, cm, s)
    outs = e.run_fn(st, fn, args)
    for k, o in no_panic(C, 'add_var_pos', outs):
        assign_post(C, S, e, 'add_var_pos', k, o, B, cm_after(e, o, cells), name, trim_spec(value), at=s[pos])
    C.covers('paths', len(outs))


def g_remove(C):
    e, S, fn, st, args, cells, cm, s = method(C, 'remove_var')
    name = args[1]
    S.names = [name]
    B = Before(S, st, cm, s)
    outs = e.run_fn(st, fn, args)
    for k, o in no_panic(C, 'remove_var', outs):
        remove_post(C, S, e, 'remove_var', k, o, B, cm_after(e, o, cells), name)
    covers2(C, e, outs, S.lookup(B.H, s, name)[0])


def g_readonly(C):
    e, S, fn, st, args, cells, cm, s = method(C, 'set_var_readonly')
    name = args[1]
    S.names = [name]
    B = Before(S, st, cm, s)
    wf_vars(S, st, s, name)
    outs = e.run_fn(st, fn, args)
    for k, o in no_panic(C, 'set_var_readonly', outs):
        readonly_post(C, S, e, 'set_var_readonly', k, o, B, cm_after(e, o, cells), name)
    covers2(C, e, outs, S.lookup(B.H, s, name)[0])


def push_post(C, S, e, who, k, o, B, cm2, nc0):
    st = o.state
    H2 = S.Hc(st)
    s2 = S.stack(cm2)
    n = z3.Length(B.s)
    c, q = e.fresh('any_scope', INT), e.fresh('any_name', z3.StringSort())
    C.ob('%s: path %d: one scope is added on top of the others' % (who, k), e, st, z3.And(z3.Length(s2) == n + 1, z3.SubSeq(s2, I(0), n) == B.s))
    C.ob('%s: path %d: the new scope is empty' % (who, k), e, st, z3.And(z3.Not(S.has(H2, s2[n], q)), z3.Not(S.has(H2, s2[n], q, 'functions'))))
    C.ob('%s: path %d: the new scope is not one that was there before, and those are unchanged' % (who, k), e, st, z3.And(s2[n] >= nc0, z3.Implies(c < nc0, z3.Select(H2, c) == z3.Select(B.H, c)), S.Hv(st) == B.Hv))


def pop_post(C, S, e, who, k, o, B, cm2):
    st = o.state
    n = z3.Length(B.s)
    C.ob('%s: path %d: exactly the innermost scope is left' % (who, k), e, st, S.stack(cm2) == z3.SubSeq(B.s, I(0), n - 1))
    C.ob('%s: path %d: no scope and no variable changes' % (who, k), e, st, z3.And(S.Hc(st) == B.H, S.Hv(st) == B.Hv))


def g_pushpop(C):
    e = C.engine()
    S = Scopes(C, e)
    fn = C.fn(e, 'rsh::context::ContextManager::push_context_new')
    st, args, cells, cm, s = S.start(fn)
    nc0 = e.next_addr(st, S.kc)
    B = Before(S, st, cm, s)
    outs = e.run_fn(st, fn, args)
    for k, o in no_panic(C, 'push_context_new', outs):
        push_post(C, S, e, 'push_context_new', k, o, B, cm_after(e, o, cells), nc0)
    fn = C.fn(e, 'rsh::context::ContextManager::pop_context')
    st, args, cells, cm, s = S.start(fn)
    st.assume(z3.Length(s) >= 2)
    B = Before(S, st, cm, s)
    outs = e.run_fn(st, fn, args)
    for k, o in no_panic(C, 'pop_context', outs):
        pop_post(C, S, e, 'pop_context', k, o, B, cm_after(e, o, cells))


def g_lemmas(C):
    """what a lookup yields after the changes the contracts describe: induction over the depth of the stack"""
    e = C.engine()
    S = Scopes(C, e)
    st = State()
    H, H2 = S.Hc(st), z3.Const('scopes_after', S.sc)
    s, s2 = z3.Const('stack', S.seq), z3.Const('stack2', S.seq)
    nm, q, n = z3.Const('name', z3.StringSort()), z3.Const('other', z3.StringSort()), z3.Const('n', INT)

    def lemma(what, hyp, goal_at):
        a = State()
        a.assume(z3.And(n <= 0, *hyp))
        C.ob('lemma: %s: empty stack' % what, e, a, goal_at(n))
        b = State()
        b.assume(z3.And(n > 0, n <= z3.Length(s), *hyp))
        b.assume(goal_at(n - 1))
        C.ob('lemma: %s: one more scope' % what, e, b, goal_at(n))
    top = s[n - 1]
    lemma('a lookup depends only on which scopes define the name', [S.has(H2, top, nm) == S.has(H, top, nm)], lambda k: S.find(H2, s, nm, k) == S.find(H, s, nm, k))
    lemma('a lookup in the outer scopes does not see the inner one', [z3.Length(s2) <= z3.Length(s), s2[n - 1] == s[n - 1]], lambda k: S.find(H, s2, nm, k) == S.find(H, s, nm, k))
    t = State()
    t.assume(z3.Length(s) >= 1)
    top = s[z3.Length(s) - 1]
    t.assume(S.has(H2, top, nm))
    C.ob('lemma: a name the innermost scope defines is found there', e, t, S.find(H2, s, nm, z3.Length(s)) == z3.Length(s) - 1)
    lemma('the scope a lookup finds defines the name, and no inner one does', [], lambda k: z3.Implies(S.find(H, s, nm, k) >= 0, S.has(H, s[S.find(H, s, nm, k)], nm)))
    j = z3.Const('j', INT)
    lemma('no scope inside the one found defines the name', [], lambda k: z3.Implies(z3.And(S.find(H, s, nm, k) < j, 0 <= j, j < k), z3.Not(S.has(H, s[j], nm))))


WRAPPERS = (('add_var_context', 'assign'), ('remove_var', 'remove'), ('expand_var', 'get'), ('push_context_new', 'push'), ('pop_context', 'pop'))
RO_WRAPPERS = (('add_var_context', 'assign'), ('remove_var', 'remove'), ('add_var', 'pos'), ('set_readonly_var', 'readonly'), ('add_readonly_var', 'assign_ro'))


def wrapper(C, short):
    """a function of the shell module called on the one shell"""
    e = C.engine()
    S = Scopes(C, e)
    SH = ShellAt(C, e)
    fn = C.fn(e, 'rsh::shell::' + short)
    st = State()
    args, _ = fresh_args(e, st, fn)
    cm = SH.f(st, 'context_manager')
    s = S.stack(cm)
    st.assume(z3.Length(s) >= 1)
    S.base = (S.Hc(st), s)
    return e, S, SH, fn, st, args, cm, s


def wrapper_frame(C, short, k, o, e, SH, sh0):
    C.ob('%s: path %d: the rest of the shell is untouched' % (short, k), e, o.state, SH.same_except(SH.val(o.state), sh0, 'context_manager'))
    C.claim('%s: path %d: no borrow is left' % (short, k), not o.state.borrows, str(o.state.borrows))


def g_shell_wrappers(C, which=WRAPPERS):
    """the functions the evaluator and the builtins call act on the one scope stack of the shell and on nothing else of it"""
    for short, kind in which:
        e, S, SH, fn, st, args, cm, s = wrapper(C, short)
        sh0 = SH.val(st)
        if kind == 'pop':
            st.assume(z3.Length(s) >= 2)
        B = Before(S, st, cm, s)
        nc0 = e.next_addr(st, S.kc)
        name = value = None
        if kind in ('assign', 'assign_ro', 'pos'):
            name, value = set_parts(args[0])
            if kind == 'assign_ro':
                st.assume(z3.Not(z3.Contains(name, NS)))
            if kind == 'pos':
                st.assume(args[1] < z3.Length(s))
        elif args:
            name = args[0]
            st.assume(z3.Not(z3.Contains(name, NS)))
        S.names = [name] if name is not None else []
        if kind == 'readonly':
            wf_vars(S, st, s, name)
        outs = e.run_fn(st, fn, args)
        for k, o in no_panic(C, short, outs):
            cm2 = SH.f(o.state, 'context_manager')
            if kind == 'assign':
                assign_post(C, S, e, short, k, o, B, cm2, name, trim_spec(value))
            elif kind == 'assign_ro':
                assign_post(C, S, e, short, k, o, B, cm2, name, trim_spec(value), readonly=True)
            elif kind == 'pos':
                assign_post(C, S, e, short, k, o, B, cm2, name, trim_spec(value), at=s[args[1]])
            elif kind == 'readonly':
                readonly_post(C, S, e, short, k, o, B, cm2, name)
            elif kind == 'remove':
                remove_post(C, S, e, short, k, o, B, cm2, name)
            elif kind == 'push':
                push_post(C, S, e, short, k, o, B, cm2, nc0)
            elif kind == 'pop':
                pop_post(C, S, e, short, k, o, B, cm2)
            else:
                i, a = S.lookup(B.H, s, name)
                r = e.lower(o.value)
                so = r.sort()
                C.ob('%s: path %d: the value in the innermost defining scope' % (short, k), e, o.state, z3.And(so.recognizer(1)(r) == (i >= 0), z3.Implies(i >= 0, so.accessor(1, 0)(r) == S.var(B.Hv, a, 'value'))))
                C.ob('%s: path %d: nothing changes' % (short, k), e, o.state, z3.And(S.Hc(o.state) == B.H, S.Hv(o.state) == B.Hv, SH.val(o.state) == sh0))
            wrapper_frame(C, short, k, o, e, SH, sh0)


def g_functions(C):
    """definitions of functions: looked up, added and removed in the scopes, variables untouched"""
    for short in ('is_function', 'get_function', 'add_function', 'remove_function'):
        e, S, SH, fn, st, args, cm, s = wrapper(C, short)
        sh0 = SH.val(st)
        name = args[0]
        st.assume(z3.Not(z3.Contains(name, NS)))
        S.names = [name]
        H, Hv = S.Hc(st), S.Hv(st)
        i, a = S.lookup(H, s, name, 'functions')
        fb = C.fn(e, 'rsh::shell::add_function')['locals'][2]
        kf = e.heap_key(fb)
        n0 = e.next_addr(st, kf)
        F0 = e.heap(st, kf)
        outs = e.run_fn(st, fn, args)
        c, q, x = e.fresh('any_scope', INT), e.fresh('any_name', z3.StringSort()), e.fresh('any_body', INT)
        for k, o in no_panic(C, short, outs):
            H2 = S.Hc(o.state)
            t = '%s: path %d: ' % (short, k)
            f = lambda hp, cc, qq: S.opt(hp, cc, qq, 'functions')
            if short == 'is_function':
                C.ob(t + 'exactly the names some scope defines', e, o.state, e.lower(o.value) == (i >= 0))
            if short == 'get_function':
                r = e.lower(o.value)
                so = r.sort()
                C.ob(t + 'the function of the innermost scope that defines it', e, o.state, z3.And(so.recognizer(1)(r) == (i >= 0), z3.Implies(i >= 0, so.accessor(1, 0)(r) == a)))
            if short in ('is_function', 'get_function'):
                C.ob(t + 'nothing changes', e, o.state, z3.And(H2 == H, S.Hv(o.state) == Hv, SH.val(o.state) == sh0, e.heap(o.state, kf) == F0))
                continue
            target = z3.If(i >= 0, s[i], s[z3.Length(s) - 1] if short == 'add_function' else I(-1))
            ro = z3.Select(S.table(H, target, 'readonly_functions'), name) if short == 'add_function' else z3.BoolVal(False)
            if short == 'add_function':
                na = S.addr(H2, target, name, 'functions')
                C.ob(t + 'the innermost defining scope, or else the innermost one, holds the new body', e, o.state, z3.Implies(z3.Not(ro), z3.And(S.has(H2, target, name, 'functions'), z3.Select(e.heap(o.state, kf), na) == e.lower(args[1]))))
            else:
                C.ob(t + 'removed from the scope a lookup finds it in', e, o.state, z3.Implies(i >= 0, z3.Not(S.has(H2, s[i], name, 'functions'))))
            C.ob(t + 'no other name and no other scope changes', e, o.state, z3.Implies(z3.Or(c != target, q != name), f(H2, c, q) == f(H, c, q)))
            C.ob(t + 'variables stay', e, o.state, z3.And(S.table(H2, c) == S.table(H, c), S.Hv(o.state) == Hv))
            C.ob(t + 'no other function changes its body', e, o.state, z3.Implies(x < n0, z3.Select(e.heap(o.state, kf), x) == z3.Select(F0, x)))
            C.ob(t + 'the stack has the same scopes', e, o.state, S.stack(SH.f(o.state, 'context_manager')) == s)
            wrapper_frame(C, short, k, o, e, SH, sh0)
        for nmx, cc in (('defined', i >= 0), ('undefined', i < 0)):
            C.covers(short + ': ' + nmx, sum(e.feasible(o.state, cc) for o in outs))
