"""contracts of fg and bg (used by P06, P07, P02): what they let go on is exactly the job named, and fg waits for it"""
from .waits import *
from mirv.strs import PARSE_OK, PARSE_I

SIGCONT = 18


def kill_history(e, J):
    """ghost: the processes that have been sent a signal to go on; such a process has to be reported anew"""
    def event(kind, st, *d):
        if kind == 'kill':
            pid, sig = d
            sig = z3.If(sig.sort().recognizer(1)(sig), sig.sort().accessor(1, 0)(sig), I(0)) if isinstance(sig.sort(), z3.DatatypeSortRef) else sig
            C0 = continued(e, J, st)
            st.ghost['continued'] = z3.If(sig == SIGCONT, z3.Store(C0, pid, z3.BoolVal(True)), C0)
            st.ghost['other_kill'] = z3.Or(st.ghost.get('other_kill', z3.BoolVal(False)), sig != SIGCONT)
    e.on_event = event


def continued(e, J, st):
    if 'continued' not in st.ghost:
        st.ghost['continued'] = z3.Const('g_continued', z3.ArraySort(e.ty.sort(J.pid_ty), z3.BoolSort()))
    return st.ghost['continued']


def ended(J, s):
    return z3.And(J.isopt(s), z3.Or(J.ws('Exited', J.optv(s)), J.ws('Signaled', J.optv(s))))


def g_continue(C):
    e = C.engine()
    J = Jobs(C, e)
    W = Waits(C, e, J)
    kill_history(e, J)
    fn = C.fn(e, 'rsh::builtins::continue_processes')
    st = State()
    args, cells = fresh_args(e, st, fn)
    a = e.lower(args[0])
    H0 = J.hj(st)
    C0 = continued(e, J, st)
    st.ghost['other_kill'] = z3.BoolVal(False)
    P = J.j(H0, a, 'processes')
    n = z3.Length(P)
    X = z3.Const('proc_x', INT)
    q = z3.Const('any_pid', e.ty.sort(J.pid_ty))
    inr = lambda x, m=n: z3.And(x >= 0, x < m)
    sx = lambda i: fld(e, J.PT, 'status', P[i])
    px = lambda i: fld(e, J.PT, 'pid', P[i])
    none = e.ty.sort(J.SO).constructor(0)()
    # the processes that go on: named by a function over prefixes
    F = z3.Function('goes_on', J.so_procs, e.ty.sort(J.pid_ty), INT, z3.BoolSort())
    e.spec_unfold = e.spec_unfold + [(F, lambda ps, x, m: [z3.If(m <= 0, z3.Not(F(ps, x, m)), F(ps, x, m) == z3.Or(F(ps, x, m - 1), z3.And(z3.Not(ended(J, fld(e, J.PT, 'status', ps[m - 1]))), fld(e, J.PT, 'pid', ps[m - 1]) == x)))])]
    A = z3.Function('some_alive', J.so_procs, INT, z3.BoolSort())
    e.spec_unfold = e.spec_unfold + [(A, lambda ps, m: [z3.If(m <= 0, z3.Not(A(ps, m)), A(ps, m) == z3.Or(A(ps, m - 1), z3.Not(ended(J, fld(e, J.PT, 'status', ps[m - 1])))))])]

    def cand(ctx):
        out = []
        its = [o for p, o in ctx.iterators() if o.kind in ('itermut', 'iter') and o.seq.sort() == J.so_procs]
        if not its:
            return out
        m = its[0].pos
        H = e.heap(ctx.st, J.kj)
        cur = J.j(H, a, 'processes')
        out.append(('len', z3.Length(cur) == n))
        out.append(('prefix', z3.Implies(inr(X), cur[X] == z3.If(z3.And(X < m, z3.Not(ended(J, sx(X)))), setstatus(e, J, P[X], none), P[X]))))
        out.append(('pos', z3.And(m >= 0, m <= n)))
        out.append(('seq', its[0].seq == P))
        y = z3.Const('other_addr', INT)
        out.append(('others', z3.Implies(y != a, z3.Select(H, y) == z3.Select(H0, y))))
        out.append(('rest', J.same_job_except(z3.Select(H, a), z3.Select(H0, a), 'processes', 'stop_status')))
        out.append(('still', J.ws('StillAlive', J.j(H, a, 'stop_status'))))
        out.append(('continued', z3.Select(continued(e, J, ctx.st), q) == z3.Or(z3.Select(C0, q), F(P, q, m))))
        out.append(('kills', z3.Not(ctx.st.ghost['other_kill'])))
        for p, v, t in ctx.leaves():
            if v.sort() == z3.BoolSort():
                out.append(('alive%s' % (p,), v == A(P, m)))
        return out
    e.cand = cand
    outs = e.run_fn(st, fn, args)
    y = z3.Const('other_addr', INT)
    refused = 0
    for k, o in enumerate(outs):
        s = o.state
        if any(x[:2] == ('syserr', 'kill') for x in s.notes):
            refused += 1
            continue
        C.claim('continue_processes: path %d: returns' % k, o.kind == 'ret', str(s.notes[-3:]))
        if o.kind != 'ret':
            continue
        H = J.hj(s)
        cur = J.j(H, a, 'processes')
        C.ob('continue_processes: path %d: exactly the processes that have not ended wait to be reported again' % k, e, s, z3.And(z3.Length(cur) == n, z3.Implies(inr(X), cur[X] == z3.If(ended(J, sx(X)), P[X], setstatus(e, J, P[X], none)))))
        C.ob('continue_processes: path %d: exactly the processes that have not ended are sent SIGCONT' % k, e, s, z3.And(z3.Select(continued(e, J, s), q) == z3.Or(z3.Select(C0, q), F(P, q, n)), z3.Not(s.ghost['other_kill'])))
        C.ob('continue_processes: path %d: nothing else of the job changes but its status, which is none' % k, e, s, z3.And(J.same_job_except(z3.Select(H, a), z3.Select(H0, a), 'processes', 'stop_status'), J.ws('StillAlive', J.j(H, a, 'stop_status'))))
        C.ob('continue_processes: path %d: no other job changes' % k, e, s, z3.Implies(y != a, z3.Select(H, y) == z3.Select(H0, y)))
        C.ob('continue_processes: path %d: it tells whether a process goes on' % k, e, s, e.lower(o.value) == A(P, n))
        C.claim('continue_processes: path %d: no borrow is left' % k, not s.borrows, '')
    C.covers('paths', len(outs) - refused)


def resume(C, which):
    """fg or bg"""
    e = C.engine()
    J = Jobs(C, e)
    W = Waits(C, e, J)
    SH = ShellAt(C, e)
    fn = C.fn(e, 'rsh::builtins::' + which)
    for x in ('rsh::builtins::continue_processes', 'rsh::jobs::wait_for_job', 'rsh::jobs::wait_for_job_sigchld'):
        C.fn(e, x)
    st = State()
    args, cells = fresh_args(e, st, fn)
    B = JB(J, st, SH.f(st, 'job_control'))
    st.assume(B.inv(J))
    X = z3.Const('proc_x', INT)
    idt, kind = e.lower(args[0]), e.lower(args[1])
    st.assume(idt >= 0)
    IT = fn['locals'][2]
    jid = kind == int(e.ty[IT]['v'][vidx(e, IT, 'Jid')]['disc'])
    bypid = z3.Select(B.p2j, J.mkpid(idt))
    st.assume(idt < 2**31)
    key = z3.If(jid, idt, J.optv(bypid))
    present = z3.If(jid, J.has(B.T, idt), z3.And(J.isopt(bypid), J.has(B.T, J.optv(bypid))))
    a = J.addr(B.T, key)
    H0 = B.H
    P = J.j(H0, a, 'processes')
    # the invariant of jobs (P06)
    st.assume(z3.Implies(present, W.ji(H0, W.R(st), a, X)))
    alive = z3.Function('some_alive', J.so_procs, INT, z3.BoolSort())
    none = e.ty.sort(J.SO).constructor(0)()
    inr = z3.And(X >= 0, X < z3.Length(P))

    def cont(eng, s, f, x):
        b = eng.lower(x[0])
        H = J.hj(s)
        s.note('continued', b, z3.Select(H, b))
        ps = J.j(H, b, 'processes')
        H1 = eng.fresh('jobs_after_continue', H.sort())
        y = z3.Const('other_addr2', INT)
        s.assume(z3.ForAll([y], z3.Implies(y != b, z3.Select(H1, y) == z3.Select(H, y))))
        cur = J.j(H1, b, 'processes')
        s.assume(z3.Length(cur) == z3.Length(ps))
        s.assume(z3.Implies(z3.And(X >= 0, X < z3.Length(ps)), cur[X] == z3.If(ended(J, fld(e, J.PT, 'status', ps[X])), ps[X], setstatus(e, J, ps[X], none))))
        s.assume(J.same_job_except(z3.Select(H1, b), z3.Select(H, b), 'processes', 'stop_status'))
        s.assume(J.ws('StillAlive', J.j(H1, b, 'stop_status')))
        s.heaps[J.kj] = H1
        return [Outcome('ret', s, alive(ps, z3.Length(ps)))]

    def waits(name):
        def c(eng, s, f, x):
            j = eng.lower(x[0])
            H = J.hj(s)
            b = J.optv(j)
            pre = z3.And(J.isopt(j), W.ji(H, W.R(s), b, X)) if name == 'wait_for_job' else z3.BoolVal(True)
            s.note(name, j, H, eng.valid(s, pre)[0] == 'yes', e.lower(x[1]) if len(x) > 1 else None)
            s.heaps[J.kj] = eng.fresh('jobs_after_wait', H.sort())
            return [Outcome('ret', s, eng.fresh_ty(s, eng.dest_ty, 'status'))]
        return c
    e.contracts['rsh::builtins::continue_processes'] = cont
    e.contracts['rsh::jobs::wait_for_job'] = waits('wait_for_job')
    e.contracts['rsh::jobs::wait_for_job_sigchld'] = waits('wait_for_job_sigchld')
    # its text is printed, nothing else depends on it
    for f in e.fns.values():
        if f['nname'] == '<rsh::jobs::Job as std::fmt::Display>::fmt':
            e.contracts[f['nname']] = lambda eng, s, f, x: [Outcome('ret', s, eng.fresh_ty(s, eng.dest_ty, 'written'))]
    outs = e.run_fn(st, fn, args)
    rt = e.ty.sort(fn['ret'])
    here = 0
    nm = which
    for k, o in no_panic(C, nm, outs):
        s, r = o.state, e.lower(o.value)
        get = lambda n: [x for x in s.notes if x[0] == n]
        cs, wj, ws = get('continued'), get('wait_for_job'), get('wait_for_job_sigchld')
        ok = rt.recognizer(0)(r)
        C.ob('%s: path %d: an error when there is no such job, or none of its processes goes on' % (nm, k), e, s, ok == z3.And(present, alive(P, z3.Length(P))))
        C.claim('%s: path %d: no borrow is left' % (nm, k), not s.borrows, '')
        if not cs:
            C.ob('%s: path %d: nothing goes on only because there is no such job' % (nm, k), e, s, z3.And(z3.Not(present), J.hj(s) == H0, z3.BoolVal(not wj and not ws)))
            continue
        here += 1
        j0 = cs[0][2]
        C.ob('%s: path %d: the processes of this job go on, once' % (nm, k), e, s, z3.And(present, cs[0][1] == a, z3.BoolVal(len(cs) == 1)))
        C.ob('%s: path %d: the job runs, in the %s' % (nm, k, 'foreground' if which == 'fg' else 'background'), e, s, z3.And(J.state_is(fld(e, J.JT, 'state', j0), 'Running'), fld(e, J.JT, 'background', j0) == z3.BoolVal(which == 'bg'), J.same_job_except(j0, z3.Select(H0, a), 'state', 'background')))
        if which == 'fg':
            C.ob('fg: path %d: it waits for this job exactly when a process of it goes on' % k, e, s, z3.BoolVal(len(wj) == 1) == alive(P, z3.Length(P)))
            if wj:
                C.ob('fg: path %d: for this job, as it runs' % k, e, s, z3.And(wj[0][1] == wj[0][1].sort().constructor(1)(a), J.state_is(J.j(wj[0][2], a, 'state'), 'Running')))
                C.claim('fg: path %d: the job it waits for is consistent' % k, wj[0][3], 'precondition of wait_for_job')
        else:
            C.claim('bg: path %d: it does not wait' % k, not wj)
        C.ob('%s: path %d: a job of which nothing goes on is finished' % (nm, k), e, s, z3.BoolVal(len(ws) == 1) == z3.Not(alive(P, z3.Length(P))))
        if ws:
            C.ob('%s: path %d: it is this job' % (nm, k), e, s, ws[0][1] == ws[0][1].sort().constructor(1)(a))
        if not wj and not ws:
            y = z3.Const('other_addr', INT)
            C.ob('%s: path %d: no other job changes' % (nm, k), e, s, z3.Implies(y != a, z3.Select(J.hj(s), y) == z3.Select(H0, y)))
    C.covers('jobs that go on', here)


def g_fg(C):
    resume(C, 'fg')


def g_bg(C):
    resume(C, 'bg')


def g_fgbg(C):
    """the argument names a job by `%identifier' or by one of its processes; anything else is an error, never a crash"""
    e = C.engine()
    fn = C.fn(e, 'rsh::builtins::fgbg')
    fg = C.fn(e, "rsh::builtins::fg")
    C.fn(e, "rsh::builtins::bg")
    IT = fg['locals'][2]
    disc = lambda n: int(e.ty[IT]['v'][vidx(e, IT, n)]['disc'])

    def target(name):
        def c(eng, s, f, x):
            s.note('resume', name, eng.lower(x[0]), eng.lower(x[1]))
            return [Outcome('ret', s, eng.fresh_ty(s, eng.dest_ty, 'result'))]
        return c
    e.contracts['rsh::builtins::fg'] = target('fg')
    e.contracts['rsh::builtins::bg'] = target('bg')
    st = State()
    args, cells = fresh_args(e, st, fn)
    c = cells[0][1]
    SC = e.ty[fn['locals'][1]]['e']
    suf = fld(e, SC, 'suffix', c)
    SO = fty(e, SC, 'suffix')
    ST = e.ty.targs(SO)[0]
    has = e.ty.sort(SO).recognizer(1)(suf)
    words = fld(e, ST, 'word', e.ty.acc(SO, 1, 0, suf))
    given = z3.And(has, z3.Length(words) > 0)
    w = words[0]
    jid = z3.PrefixOf(e.strval('%'), w)
    num = z3.If(jid, z3.SubString(w, 1, z3.Length(w) - 1), w)
    good = z3.And(given, PARSE_OK(num), PARSE_I(num) >= 0)
    outs = e.run_fn(st, fn, args)
    rt = e.ty.sort(fn['ret'])
    named = 0
    for k, o in no_panic(C, 'fgbg', outs):
        s, r = o.state, e.lower(o.value)
        rs = [x for x in s.notes if x[0] == 'resume']
        C.ob('fgbg: path %d: a job is asked for exactly when the argument names one' % k, e, s, z3.BoolVal(len(rs) == 1) == good)
        if not rs:
            C.ob('fgbg: path %d: otherwise it is an error' % k, e, s, rt.recognizer(1)(r))
            continue
        named += 1
        C.ob('fgbg: path %d: the number is the identifier of a job after %%, that of a process without it' % k, e, s, z3.And(rs[0][2] == PARSE_I(num), rs[0][3] == z3.If(jid, disc('Jid'), disc('Pid'))))
        C.ob('fgbg: path %d: fg brings to the foreground, bg lets go on in the background' % k, e, s, z3.BoolVal(rs[0][1] == 'fg') == (fld(e, SC, 'name', c) == e.strval('fg')))
    C.covers('jobs named', named)
