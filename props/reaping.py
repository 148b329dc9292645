"""contracts of the reaping of children between commands (used by P07): only the child that changed, and only its job"""
from .waits import *


def setup(C, name):
    e = C.engine()
    J = Jobs(C, e)
    SH = ShellAt(C, e)
    fn = C.fn(e, name)
    st = State()
    args, cells = fresh_args(e, st, fn)
    B = JB(J, st, SH.f(st, 'job_control'))
    st.assume(B.inv(J))
    # the text of a job is printed, nothing else depends on it
    for f in e.fns.values():
        if f['nname'] == '<rsh::jobs::Job as std::fmt::Display>::fmt':
            e.contracts[f['nname']] = lambda eng, s, f, x: [Outcome('ret', s, eng.fresh_ty(s, eng.dest_ty, 'written'))]
    return e, J, SH, fn, st, args, cells, B


def g_finish(C):
    """wait_for_job_sigchld: a job is taken away when no process of it runs any more, with the status of its last process or of its first stopped one"""
    e, J, SH, fn, st, args, cells, B = setup(C, 'rsh::jobs::wait_for_job_sigchld')
    C.fn(e, 'rsh::shell::delete_job')

    def delete(eng, s, f, x):
        C_ok = not s.borrows
        s.note('delete', eng.lower(x[0]), J.hj(s), C_ok)
        s.heaps[J.kj] = eng.fresh('jobs_after_delete', J.hj(s).sort())
        return [Outcome('ret', s, Agg(f['ret'], None, ()))]
    for f in e.fns.values():
        if f['nname'].startswith('rsh::shell::delete_job'):
            e.contracts[f['nname']] = delete
    job, w = e.lower(args[0]), e.lower(args[1])
    a = J.optv(job)
    H0 = B.H
    st.assume(z3.Implies(J.isopt(job), z3.And(a >= 0, a < B.na)))
    P = J.j(H0, a, 'processes')
    n = z3.Length(P)
    X, i = z3.Const('proc_x', INT), z3.Const('proc_i', INT)
    s_ = lambda k: fld(e, J.PT, 'status', P[k])
    inr = lambda k: z3.And(k >= 0, k < n)
    stop = lambda k: z3.And(J.isopt(s_(k)), J.ws('Stopped', J.optv(s_(k))))
    done = z3.ForAll([i], z3.Implies(inr(i), J.isopt(s_(i))))
    nostop = z3.ForAll([i], z3.Implies(inr(i), z3.Not(stop(i))))
    y = z3.Const('other_addr', INT)
    took = kept = 0
    for k, o in no_panic(C, 'wait_for_job_sigchld', e.run_fn(st, fn, args)):
        s, r = o.state, e.lower(o.value)
        nm = 'wait_for_job_sigchld: path %d: ' % k
        d = [x for x in s.notes if x[0] == 'delete']
        C.claim(nm + 'a job is taken away once at most', len(d) <= 1, str(len(d)))
        C.claim(nm + 'no borrow is left', not s.borrows, '')
        if not d:
            kept += 1
            C.ob(nm + 'without a job, or with a process that runs, nothing changes', e, s, z3.And(J.hj(s) == H0, r == w, z3.Or(z3.Not(J.isopt(job)), z3.Not(done))))
            continue
        took += 1
        H1 = d[0][2]
        ss = J.j(H1, a, 'stop_status')
        C.ob(nm + 'only when every process has changed state', e, s, z3.And(J.isopt(job), z3.Implies(inr(X), J.isopt(s_(X)))))
        C.ob(nm + 'it is this job', e, s, d[0][1] == J.j(H0, a, 'job_id'))
        C.ob(nm + 'its status is the one of its first stopped process', e, s, z3.Implies(z3.And(inr(X), stop(X), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < X), z3.Not(stop(i))))), ss == J.optv(s_(X))))
        C.ob(nm + 'or of its last process', e, s, z3.Implies(z3.And(nostop, n > 0), ss == J.optv(s_(n - 1))))
        C.ob(nm + 'nothing else of the job changes but that it is finished', e, s, z3.And(J.state_is(J.j(H1, a, 'state'), 'Finished'), J.same_job_except(z3.Select(H1, a), z3.Select(H0, a), 'state', 'stop_status')))
        C.ob(nm + 'no other job changes', e, s, z3.Implies(y != a, z3.Select(H1, y) == z3.Select(H0, y)))
        C.claim(nm + 'the table is free when the job is taken away', d[0][3], 'a borrow is held')
        C.ob(nm + 'that status is yielded', e, s, r == ss)
    C.covers('jobs taken away', took)
    C.covers('jobs kept', kept)


def g_reaped(C):
    """sig_chld: one child, without waiting"""
    e, J, SH, fn, st, args, cells, B = setup(C, 'rsh::trap::sig_chld')
    W = Waits(C, e, J)
    C.fn(e, 'rsh::jobs::wait_for_job_sigchld')

    def finish(eng, s, f, x):
        s.note('finish', eng.lower(x[0]), eng.lower(x[1]), J.hj(s), not s.borrows)
        return [Outcome('ret', s, eng.fresh_ty(s, eng.dest_ty, 'status'))]
    e.contracts['rsh::jobs::wait_for_job_sigchld'] = finish
    H0 = B.H
    X, i = z3.Const('proc_x', INT), z3.Const('proc_i', INT)
    y = z3.Const('other_addr', INT)

    def cand(ctx):
        out = []
        its = [o for p, o in ctx.iterators() if o.kind in ('itermut', 'iter') and o.seq.sort() == J.so_procs]
        reps = [x[3] for x in ctx.st.notes if x[0] == 'waitpid']
        if not its or not reps:
            return out
        q = W.w_pid(e.lower(reps[-1]))
        o = its[0]
        out.append(('seq', o.seq == e.lower(o.seq)))
        out.append(('pos', z3.And(o.pos >= 0, o.pos <= z3.Length(o.seq))))
        out.append(('heap', e.heap(ctx.st, J.kj) == e.heap(ctx.entry, J.kj)))
        out.append(('not yet', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < o.pos), fld(e, J.PT, 'pid', o.seq[i]) != q))))
        return out
    e.cand = cand
    hits = 0
    outs = [o for o in e.run_fn(st, fn, args) if not any(x[0] == 'unwritable' for x in o.state.notes)]
    for k, o in no_panic(C, 'sig_chld', outs):
        s, r = o.state, e.lower(o.value)
        nm = 'sig_chld: path %d: ' % k
        wp = [x for x in s.notes if x[0] in ('waitpid', 'waitpid-error')]
        C.claim(nm + 'asks the system once', len(wp) == 1, str(len(wp)))
        C.claim(nm + 'no borrow is left', not s.borrows, '')
        if len(wp) != 1:
            continue
        fin = [x for x in s.notes if x[0] == 'finish']
        H1 = fin[0][3] if fin else J.hj(s)
        A = JB(J, s, SH.f(s, 'job_control'))
        C.ob(nm + 'jobs keep their identifiers and processes', e, s, z3.And(A.T == B.T, A.p2j == B.p2j, A.bg == B.bg, A.nxt == B.nxt, A.cur == B.cur))
        if wp[0][0] == 'waitpid-error':
            C.ob(nm + 'without children there is none to reap', e, s, z3.And(z3.Not(r), H1 == H0, z3.BoolVal(not fin)))
            continue
        w = e.lower(wp[0][3])
        q = W.w_pid(w)
        alive = z3.Not(W.w_is(w, 'Exited', 'Signaled', 'Stopped'))
        C.ob(nm + 'for any child', e, s, J.rawpid(e.lower(wp[0][1])) == -1)
        C.ob(nm + 'none was reaped when none has changed', e, s, z3.And(r == z3.Not(alive), z3.Implies(alive, z3.And(H1 == H0, z3.BoolVal(not fin)))))
        id = z3.Select(B.p2j, q)
        hit = z3.And(z3.Not(alive), J.isopt(id), J.has(B.T, J.optv(id)))
        a = J.addr(B.T, J.optv(id))
        C.ob(nm + 'a child of no job changes nothing', e, s, z3.Implies(z3.Not(hit), z3.And(H1 == H0, z3.BoolVal(not fin))))
        P, P1 = J.j(H0, a, 'processes'), J.j(H1, a, 'processes')
        n = z3.Length(P)
        px = lambda k: fld(e, J.PT, 'pid', P[k])
        inr = z3.And(X >= 0, X < n)
        C.ob(nm + 'the process that changed gets the status', e, s, z3.Implies(z3.And(hit, inr, px(X) == q, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < X), px(i) != q))), P1[X] == setstatus(e, J, P[X], W.some(w))))
        C.ob(nm + 'every other process of the job stays', e, s, z3.Implies(hit, z3.And(z3.Length(P1) == n, z3.Implies(z3.And(inr, px(X) != q), P1[X] == P[X]))))
        C.ob(nm + 'nothing else of the job changes', e, s, z3.Implies(hit, J.same_job_except(z3.Select(H1, a), z3.Select(H0, a), 'processes')))
        C.ob(nm + 'no other job changes', e, s, z3.Implies(z3.Or(z3.Not(hit), y != a), z3.Select(H1, y) == z3.Select(H0, y)))
        C.ob(nm + 'the job is looked at exactly when it is in the background', e, s, z3.Implies(hit, z3.BoolVal(len(fin) == 1) == J.j(H0, a, 'background')))
        if fin:
            C.ob(nm + 'it is this job, with this status', e, s, z3.And(fin[0][1] == fin[0][1].sort().constructor(1)(a), fin[0][2] == w))
            C.claim(nm + 'the job is free then', fin[0][4], 'a borrow is held')
        hits += bool(e.feasible(s, hit))
    C.covers('children of jobs', hits)


def g_reap(C):
    """reap_children: when a child has changed state, all that have are reaped, and a change that comes meanwhile is not lost"""
    e = C.engine()
    SH = ShellAt(C, e)
    fn = C.fn(e, 'rsh::trap::reap_children')
    C.fn(e, 'rsh::trap::sig_chld')
    st = State()
    got = z3.Const('got_sigchld', z3.BoolSort())
    st.ghost['flag'] = got
    st.ghost['calls'] = I(0)
    st.ghost['more'] = z3.BoolVal(True)
    st.ghost['early'] = z3.BoolVal(False)

    def read(eng, s, f, x):
        return [Outcome('ret', s, s.ghost['flag'])]

    def write(eng, s, f, x):
        s.ghost['flag'] = eng.lower(x[0])
        s.ghost['early'] = z3.Or(s.ghost['early'], s.ghost['calls'] > 0)
        return [Outcome('ret', s, Agg(f['ret'], None, ()))]

    def one(eng, s, f, x):
        r = eng.fresh('reaped', z3.BoolSort())
        s.ghost['calls'] = s.ghost['calls'] + 1
        s.ghost['more'] = r
        # a signal may arrive at any time: the flag can only become set
        fl = eng.fresh('flag_after', z3.BoolSort())
        s.assume(z3.Implies(s.ghost['flag'], fl))
        s.ghost['flag'] = fl
        return [Outcome('ret', s, r)]
    for n, c in (('rsh::trap::got_sigchld', read), ('rsh::trap::set_got_sigchld', write), ('rsh::trap::sig_chld', one)):
        C.fn(e, n)
        e.contracts[n] = c
    args, cells = fresh_args(e, st, fn)


    def cand(ctx):
        g = ctx.st.ghost
        return [('calls', g['calls'] >= 0), ('not early', z3.Not(g['early'])), ('flag', z3.Implies(g['calls'] == 0, z3.Not(g['flag'])))]
    e.cand = cand
    n = [0, 0]
    rs = [x for x in e.run_fn(st, C.fn(e, 'rsh::shell::get_forked'), []) if x.kind == 'ret']
    if len(rs) != 1:
        raise Unsupported('get_forked')
    st, fk = rs[0].state, e.lower(rs[0].value)
    for k, o in no_panic(C, 'reap_children', e.run_fn(st, fn, args)):
        s = o.state
        g = s.ghost
        ran = g['calls'] > 0
        C.ob('reap_children: path %d: in the shell itself, once a child has changed state, and only then' % k, e, s, ran == z3.And(z3.Not(fk), got))
        C.ob('reap_children: path %d: it goes on until there is none left' % k, e, s, z3.Implies(ran, z3.Not(g['more'])))
        C.ob('reap_children: path %d: the change is taken note of before the first child is reaped, not later' % k, e, s, z3.Not(g['early']))
        n[0] += bool(e.feasible(s, ran))
        n[1] += bool(e.feasible(s, z3.Not(ran)))
    C.covers('children are reaped', n[0])
    C.covers('nothing to do', n[1])


PROOFS = [('a background job that ends', g_finish), ('a child that changed state', g_reaped), ('reaping between commands', g_reap)]
