"""contracts of the functions that wait (used by P06, P07)"""
from .jobs import *


class Waits:
    """wpid/alldone/anystop/sstat: a job's processes after the reported status w of process q has been recorded"""
    def __init__(self, C, e, J):
        self.C, self.e, self.J = C, e, J
        so_p, so_q, so_w = J.so_procs, e.ty.sort(J.pid_ty), e.ty.sort(J.WS)
        F = z3.Function
        B = z3.BoolSort()
        self.alldone = F('all_reported', so_p, so_q, so_w, INT, B)
        self.anystop = F('some_stopped', so_p, so_q, so_w, INT, B)
        self.wit = F('unreported', so_p, so_q, so_w, INT, INT)
        self.sstat = F('job_status', so_p, so_q, so_w, INT, so_w)
        e.spec_unfold = e.spec_unfold + [(self.alldone, self.rule), (self.anystop, self.rule), (self.sstat, self.rule), (self.wit, self.rule)]
        self.some = e.ty.sort(J.SO).constructor(1)

    def st(self, ps, q, w, i):
        """status of process i once w has been recorded for q"""
        p = ps[i]
        return z3.If(fld(self.e, self.J.PT, 'pid', p) == q, self.some(w), fld(self.e, self.J.PT, 'status', p))

    def rule(self, ps, q, w, n):
        s = self.st(ps, q, w, n - 1)
        J = self.J
        return [z3.If(n <= 0, z3.And(self.alldone(ps, q, w, n), z3.Not(self.anystop(ps, q, w, n))),
                      z3.And(self.alldone(ps, q, w, n) == z3.And(self.alldone(ps, q, w, n - 1), J.isopt(s)),
                             self.wit(ps, q, w, n) == z3.If(self.alldone(ps, q, w, n - 1), n - 1, self.wit(ps, q, w, n - 1)),
                             self.anystop(ps, q, w, n) == z3.Or(self.anystop(ps, q, w, n - 1), z3.And(J.isopt(s), J.ws('Stopped', J.optv(s)))),
                             self.sstat(ps, q, w, n) == z3.If(self.anystop(ps, q, w, n - 1), self.sstat(ps, q, w, n - 1), J.optv(s))))]

    def w_is(self, w, *names):
        return z3.Or([self.J.ws(n, w) for n in names])

    def w_pid(self, w):
        e, J = self.e, self.J
        ps = [(n, e.ty.acc(J.WS, vidx(e, J.WS, n), 0, w)) for n in ('Exited', 'Signaled', 'Stopped')]
        return z3.If(J.ws('Exited', w), ps[0][1], z3.If(J.ws('Signaled', w), ps[1][1], ps[2][1]))

    def reported(self, w, block):
        """what wait_process may yield: a change of a child, or nothing when it was not to wait"""
        return z3.And(self.w_is(w, 'Exited', 'Signaled', 'Stopped', 'StillAlive'), z3.Implies(block == 1, z3.Not(self.J.ws('StillAlive', w))),
                      z3.Implies(z3.Not(self.J.ws('StillAlive', w)), self.J.rawpid(self.w_pid(w)) > 0))

    def wait_process(self, eng, st, fn, args):
        dt = eng.dest_ty
        okt, errt = eng.ty.targs(dt)
        w = eng.fresh_ty(st, okt, 'reported')
        bad = st.fork()
        st.assume(self.reported(w, eng.lower(args[0])))
        st.note('reported', w)
        st.ghost['reported'] = z3.If(self.J.ws('StillAlive', w), self.R(st), z3.Store(self.R(st), self.w_pid(w), self.some(w)))
        x = eng.fresh_ty(bad, errt, 'err')
        bad.assume(eng.lower(x) == 10)
        bad.note('nochild')
        return [Outcome('ret', st, Agg(dt, 0, [w])), Outcome('ret', bad, Agg(dt, 1, [x]))]


    # ---- ghost: what the system has reported for each process, and the invariant of jobs that rests on it
    def R(self, st):
        if 'reported' not in st.ghost:
            so = e_sort(self)
            st.ghost['reported'] = z3.Const('g_reported', so)
        return st.ghost['reported']

    def rep(self, R, q):
        return self.J.isopt(z3.Select(R, q))

    def ji(self, H, R, a, X):
        """a job that is not running: every process of it has been reported; its status is the last process's, or that of a stopped one"""
        J, e = self.J, self.e
        ps = J.j(H, a, 'processes')
        n = z3.Length(ps)
        p = ps[X]
        s = fld(e, J.PT, 'status', p)
        q = fld(e, J.PT, 'pid', p)
        state, ss = J.j(H, a, 'state'), J.j(H, a, 'stop_status')
        inr = z3.And(X >= 0, X < n)
        return z3.And(z3.Implies(inr, z3.And(z3.Implies(J.isopt(s), self.rep(R, q)), z3.Implies(z3.Not(J.state_is(state, 'Running')), J.isopt(s)))),
                      z3.Implies(z3.And(J.state_is(state, 'Finished'), n > 0), J.some(J.SO, ss) == fld(e, J.PT, 'status', ps[n - 1])),
                      z3.Implies(J.state_is(state, 'Stopped'), z3.Implies(n > 0, J.ws('Stopped', ss))))

    def lemma_done(self, ps, q, w, n, X):
        return z3.Implies(z3.And(self.alldone(ps, q, w, n), X >= 0, X < n), self.J.isopt(self.st(ps, q, w, X)))

    def lemma_wit(self, ps, q, w, n):
        x = self.wit(ps, q, w, n)
        return z3.Implies(z3.Not(self.alldone(ps, q, w, n)), z3.And(x >= 0, x < n, z3.Not(self.J.isopt(self.st(ps, q, w, x)))))

    def lemma_stop(self, ps, q, w, n):
        """the status of a job with a stopped process is a stopped one"""
        return z3.Implies(self.anystop(ps, q, w, n), self.J.ws('Stopped', self.sstat(ps, q, w, n)))


def e_sort(W):
    e, J = W.e, W.J
    return z3.ArraySort(e.ty.sort(J.pid_ty), e.ty.sort(J.SO))


def g_lemmas(C):
    e = C.engine()
    J = Jobs(C, e)
    W = Waits(C, e, J)
    st = State()
    ps, q, w, n, X = z3.Const('ps', J.so_procs), z3.Const('q', e.ty.sort(J.pid_ty)), z3.Const('w', e.ty.sort(J.WS)), z3.Int('n'), z3.Int('X')
    st.assume(z3.And(n >= 0, n <= z3.Length(ps)))
    C.ob('all reported: no process is left without a status (induction)', e, st, z3.Implies(z3.Implies(n > 0, W.lemma_done(ps, q, w, n - 1, X)), W.lemma_done(ps, q, w, n, X)))
    C.ob('not all reported: there is a process without a status (induction)', e, st, z3.Implies(z3.Implies(n > 0, W.lemma_wit(ps, q, w, n - 1)), W.lemma_wit(ps, q, w, n)))
    C.ob('a job with a stopped process has a stopped status (induction)', e, st, z3.Implies(z3.Implies(n > 0, W.lemma_stop(ps, q, w, n - 1)), W.lemma_stop(ps, q, w, n)))


def g_wait_process(C):
    e = C.engine()
    J = Jobs(C, e)
    W = Waits(C, e, J)
    fn = C.fn(e, 'rsh::jobs::wait_process')
    st = State()
    args, cells = fresh_args(e, st, fn)
    outs = e.run_fn(st, fn, args)
    rt = e.ty.sort(fn['ret'])
    n = 0
    for k, o in no_panic(C, 'wait_process', outs):
        s, r = o.state, e.lower(o.value)
        last = [x for x in s.notes if x[0] in ('waitpid', 'waitpid-error')][-1:]
        C.claim('wait_process: path %d: asks the system' % k, len(last) == 1)
        if not last:
            continue
        n += 1
        if last[0][0] == 'waitpid':
            w = last[0][3]
            C.ob('wait_process: path %d: yields the status the system reported' % k, e, s, z3.And(rt.recognizer(0)(r), e.ty.acc(fn['ret'], 0, 0, r) == w))
            C.ob('wait_process: path %d: a blocking wait yields a change of a child' % k, e, s, W.reported(w, args[0]))
            C.ob('wait_process: path %d: it waits for any child' % k, e, s, J.rawpid(e.lower(last[0][1])) == -1)
        else:
            C.ob('wait_process: path %d: an interrupted wait is taken up again; it fails only without children' % k, e, s, z3.And(rt.recognizer(1)(r), last[0][1] == 10))
    C.covers('paths', n)


def start_wait(C, name):
    e = C.engine()
    J = Jobs(C, e)
    W = Waits(C, e, J)
    SH = ShellAt(C, e)
    fn = C.fn(e, name)
    st = State()
    args, cells = fresh_args(e, st, fn)
    e.contracts['rsh::jobs::wait_process'] = W.wait_process
    # reports only: its text is printed, nothing else depends on it
    e.contracts['rsh::jobs::format_status'] = lambda eng, st, fn, args: [Outcome('ret', st, eng.fresh_ty(st, eng.dest_ty, 'text'))]
    jc = SH.f(st, 'job_control')
    B = JB(J, st, jc)
    st.assume(B.inv(J))
    return e, J, W, SH, fn, st, args, cells, B


def wait_cand(J, W, B, K, X):
    """loops of wait_one"""
    e = J.e

    def cand(ctx):
        out = []
        its = [(p, o) for p, o in ctx.iterators() if o.kind == 'itermut' and o.seq.sort() == J.so_procs and o.ref.root[0] == 'H']
        reps = [n[1] for n in ctx.st.notes if n[0] == 'reported']
        if not reps:
            return out
        w = reps[-1]
        q = W.w_pid(w)
        jopt = [(p, v) for p, v, t in ctx.leaves() if v.sort() != INT and isinstance(v.sort(), z3.DatatypeSortRef) and t is not None and e.ty.is_adt(t, 'Option') and e.ty.sort(e.ty.targs(t)[0]) == INT]
        H, H0 = e.heap(ctx.st, J.kj), e.heap(ctx.entry, J.kj)
        if its:
            p, o = its[0]
            P, n, a = o.seq, o.pos, o.ref.root[2]
            cur = J.j(H, a, 'processes')
            mem = J.member(P, q, n)
            out.append(('len', z3.Length(cur) == z3.Length(P)))
            for nm, Y in (('at', X), ('at last', z3.Length(P) - 1)):
                out.append((nm, z3.Implies(z3.And(Y >= 0, Y < z3.Length(P)), cur[Y] == z3.If(z3.And(Y < n, fld(e, J.PT, 'pid', P[Y]) == q), setstatus(e, J, P[Y], W.some(w)), P[Y]))))
            out.append(('same', z3.Implies(z3.Not(mem), H == H0)))
            y = J.addr(B.T, K)
            out.append(('others', z3.Implies(y != a, z3.Select(H, y) == z3.Select(H0, y))))
            out.append(('rest', J.same_job_except(z3.Select(H, a), z3.Select(H0, a), 'processes')))
            al, an = W.alldone(P, q, w, n), W.anystop(P, q, w, n)
            for pp, v in jopt:
                ent = ctx.entry_leaf(pp)
                if ent is not None and ent is not POISON:
                    out.append(('this%s' % (pp,), v == z3.If(mem, v.sort().constructor(1)(a), e.lower(ent))))
            for pp, v, t in ctx.leaves():
                if v.sort() == INT and t is not None and e.ty.kind(t) == 'adt':
                    for r, s in ((al, an),):
                        out.append(('state%s' % (pp,), z3.And(J.state_is(v, 'Running') == z3.Not(al), J.state_is(v, 'Stopped') == z3.And(al, an), J.state_is(v, 'Finished') == z3.And(al, z3.Not(an)))))
                if v.sort() == z3.BoolSort():
                    out.append(('flag%s' % (pp,), z3.Implies(al, v == an)))
                if v.sort() == e.ty.sort(J.SO):
                    out.append(('stop%s' % (pp,), z3.Implies(al, v == z3.If(n == 0, v.sort().constructor(0)(), W.some(W.sstat(P, q, w, n))))))
        for p, o in ctx.iterators_all():
            if o.kind == 'mapiter' and o.m.sort().domain() == INT and not its:
                P = J.j(B.H, J.addr(B.T, K), 'processes')
                out.append(('heap', H == H0))
                out.append(('seen', z3.Implies(z3.Select(o.seen, K), z3.Or(z3.Not(J.has(B.T, K)), J.state_is(J.j(B.H, J.addr(B.T, K), 'state'), 'Finished'), z3.Not(J.member(P, q, z3.Length(P)))))))
                for pp, v in jopt:
                    out.append(('none%s' % (pp,), z3.Not(J.isopt(v))))
        return out
    return cand


def setstatus(e, J, p, so):
    so_ = e.ty.sort(J.PT)
    return so_.constructor(0)(*[so if fx[0] == 'status' else e.ty.acc(J.PT, 0, i, p) for i, fx in enumerate(e.ty[J.PT]['v'][0]['f'])])


def g_wait_one(kind):
    return lambda C: wait_one(C, kind)


def wait_one(C, kind):
    e, J, W, SH, fn, st, args, cells, B = start_wait(C, 'rsh::jobs::wait_one')
    jopt = args[1] if not isinstance(args[1], Ref) else None
    job = e.lower(cells[1][1])
    st.assume(J.isopt(job))
    K, X = z3.Const('job_k', INT), z3.Const('proc_x', INT)
    st.assume(X >= 0)
    # the invariant of the table (P07) at the reported process: unfinished jobs have their processes under their identifier
    kk = z3.Const('kk', INT)

    def own(q, k):
        P = J.j(B.H, J.addr(B.T, k), 'processes')
        return z3.Implies(z3.And(J.has(B.T, k), z3.Not(J.state_is(J.j(B.H, J.addr(B.T, k), 'state'), 'Finished')), J.member(P, q, z3.Length(P))), z3.Select(B.p2j, q) == z3.Select(B.p2j, q).sort().constructor(1)(k))
    qq = z3.Const('qq', e.ty.sort(J.pid_ty))
    k2 = z3.Const('k2', INT)
    st.assume(z3.ForAll([k2], z3.Implies(z3.And(J.has(B.T, k2), J.has(B.T, K), J.addr(B.T, k2) == J.addr(B.T, K)), k2 == K)))
    e.cand = wait_cand(J, W, B, K, X)
    R0 = W.R(st)
    st.assume(W.ji(B.H, R0, J.addr(B.T, K), X))
    base = W.wait_process

    def wp(eng, s, f, a):
        outs = base(eng, s, f, a)
        w = outs[0].state.notes[-1][1]
        s0 = outs[0].state
        s0.assume(z3.ForAll([kk], own(W.w_pid(w), kk)))
        s0.assume(J.ws(kind, w))
        P = J.j(B.H, J.addr(B.T, K), 'processes')
        s0.assume(W.lemma_done(P, W.w_pid(w), w, z3.Length(P), X))
        s0.assume(W.lemma_stop(P, W.w_pid(w), w, z3.Length(P)))
        s0.assume(W.lemma_wit(P, W.w_pid(w), w, z3.Length(P)))
        s0.assume(W.ji(B.H, R0, J.addr(B.T, K), W.wit(P, W.w_pid(w), w, z3.Length(P))))
        s0.assume(W.lemma_done(P, W.w_pid(w), w, z3.Length(P), z3.Length(P) - 1))
        return outs if kind == 'StillAlive' else outs[:1]
    e.contracts['rsh::jobs::wait_process'] = wp
    outs = e.run_fn(st, fn, args)
    rt = fn['ret']
    seen = 0
    aK = J.addr(B.T, K)
    P = J.j(B.H, aK, 'processes')
    n = z3.Length(P)
    for k, o in no_panic(C, 'wait_one', outs):
        s, r = o.state, e.lower(o.value)
        rep = [x[1] for x in s.notes if x[0] == 'reported']
        R1 = W.R(s)
        A = JB(J, s, SH.f(s, 'job_control'))
        okv = e.ty.acc(rt, 0, 0, r)
        isok = e.ty.sort(rt).recognizer(0)(r)
        C.ob('wait_one: path %d: jobs keep their identifiers' % k, e, s, z3.And(A.T == B.T, A.p2j == B.p2j, A.bg == B.bg, A.nxt == B.nxt))
        if not rep:
            C.ob('wait_one: path %d: without children an error, and no job changes' % k, e, s, z3.And(z3.Not(isok), A.H == B.H))
            continue
        w = rep[-1]
        q = W.w_pid(w)
        alive = J.ws('StillAlive', w)
        C.ob('wait_one: path %d: yields the process that changed, or none' % k, e, s, z3.And(isok, J.isopt(okv) == z3.Not(alive), z3.Implies(z3.Not(alive), J.optv(okv) == q)))
        hit = z3.And(J.has(B.T, K), z3.Not(alive), z3.Not(J.state_is(J.j(B.H, aK, 'state'), 'Finished')), J.member(P, q, n))
        Pa = J.j(A.H, aK, 'processes')
        C.ob('wait_one: path %d: any other job is untouched' % k, e, s, z3.Implies(z3.And(J.has(B.T, K), z3.Not(hit)), z3.Select(A.H, aK) == z3.Select(B.H, aK)))
        C.ob('wait_one: path %d: the job keeps its processes' % k, e, s, z3.Implies(hit, z3.Length(Pa) == n))
        C.ob('wait_one: path %d: exactly the reported process gets the status' % k, e, s, z3.Implies(z3.And(hit, X < n), Pa[X] == z3.If(fld(e, J.PT, 'pid', P[X]) == q, setstatus(e, J, P[X], W.some(w)), P[X])))
        al, an = W.alldone(P, q, w, n), W.anystop(P, q, w, n)
        stt, ss = J.j(A.H, aK, 'state'), J.j(A.H, aK, 'stop_status')
        C.ob('wait_one: path %d: a job of which a process has not been reported goes on' % k, e, s, z3.Implies(z3.And(hit, z3.Not(al)), J.same_job_except(z3.Select(A.H, aK), z3.Select(B.H, aK), 'processes')))
        C.ob('wait_one: path %d: a job is finished when all its processes have ended, stopped when one has stopped' % k, e, s, z3.Implies(z3.And(hit, al), z3.And(J.state_is(stt, 'Stopped') == an, J.state_is(stt, 'Finished') == z3.Not(an))))
        C.ob('wait_one: path %d: the status of a job is its last process\'s, or its first stopped one\'s' % k, e, s, z3.Implies(z3.And(hit, al), ss == W.sstat(P, q, w, n)))
        C.ob('wait_one: path %d: nothing else of the job changes' % k, e, s, z3.Implies(z3.And(hit, al), J.same_job_except(z3.Select(A.H, aK), z3.Select(B.H, aK), 'processes', 'state', 'stop_status', 'changed')))
        C.ob('wait_one: path %d: a job that is not running has only processes the system has reported, and their status' % k, e, s, z3.Implies(J.has(B.T, K), W.ji(A.H, R1, aK, X)))
        C.ob('wait_one: path %d: the current job changes only to a stopped job of the table' % k, e, s, z3.Or(A.cur == B.cur, z3.And(J.isopt(A.cur), J.has(A.T, J.optv(A.cur)))))
        seen += bool(e.feasible(s, hit))
    if kind != 'StillAlive':
        C.covers('statuses recorded', seen)


def job_at(J, W, B, st, K, X):
    """the job waited for: in the table, consistent"""
    a = J.addr(B.T, K)
    st.assume(z3.And(J.has(B.T, K), X >= 0, a >= 0))
    st.assume(W.ji(B.H, W.R(st), a, X))
    return a


def step_rel(J, W, H0, H1, a):
    """what reaping one child may do to a job"""
    e = J.e
    p0, p1 = J.j(H0, a, 'processes'), J.j(H1, a, 'processes')
    return z3.And(z3.Implies(z3.Not(J.state_is(J.j(H0, a, 'state'), 'Running')), z3.Not(J.state_is(J.j(H1, a, 'state'), 'Running'))),
                  z3.Length(p0) == z3.Length(p1), J.same_job_except(z3.Select(H0, a), z3.Select(H1, a), 'processes', 'state', 'stop_status', 'changed'))


def havoc_jobs(J, W, SH, eng, st, a, X):
    """job heap, reports and the current job after children have been reaped"""
    H0 = J.hj(st)
    H1 = eng.fresh('jobs_after', H0.sort())
    st.heaps[J.kj] = H1
    st.ghost['reported'] = eng.fresh('reported_after', e_sort(W))
    st.assume(step_rel(J, W, H0, H1, a))
    st.assume(W.ji(H1, W.R(st), a, X))
    sv0 = SH.val(st)
    s1 = eng.fresh('shell_after', sv0.sort())
    j0, j1 = fld(eng, SH.T, 'job_control', sv0), fld(eng, SH.T, 'job_control', s1)
    st.assume(SH.same_except(s1, sv0, 'job_control'))
    st.assume(z3.And([eng.ty.acc(J.JC, 0, i, j1) == eng.ty.acc(J.JC, 0, i, j0) for i, fx in enumerate(eng.ty[J.JC]['v'][0]['f']) if fx[0] != 'current_job']))
    st.heaps[SH.key] = z3.Store(eng.heap(st, SH.key), SH.addr, s1)


def wait_one_contract(C, J, W, SH, a, X, first):
    def c(eng, st, fn, args):
        dt = eng.dest_ty
        okt, errt = eng.ty.targs(dt)
        block = eng.lower(args[0])
        pre = z3.And(W.ji(J.hj(st), W.R(st), a, X), z3.Implies(z3.And(first == 1, block == 1), J.state_is(J.j(J.hj(st), a, 'state'), 'Running')))
        if eng.valid(st, pre)[0] != 'yes':
            st.note('wait_one: called although the job does not run')
            return [Outcome('panic', st)]
        bad, none = st.fork(), st.fork()
        none.assume(block != 1)
        none.note('nothing reported')
        havoc_jobs(J, W, SH, eng, st, a, X)
        q = eng.fresh('pid', eng.ty.sort(J.pid_ty))
        o = eng.ty.sort(okt)
        x = eng.fresh_ty(bad, errt, 'err')
        bad.assume(eng.lower(x) == 10)
        bad.note('nochild')
        out = [Outcome('ret', st, Agg(dt, 0, [o.constructor(1)(q)])), Outcome('ret', bad, Agg(dt, 1, [x]))]
        if eng.feasible(none):
            out.append(Outcome('ret', none, Agg(dt, 0, [o.constructor(0)()])))
        return out
    return c


def g_do_wait(C):
    e, J, W, SH, fn, st, args, cells, B = start_wait(C, 'rsh::jobs::do_wait')
    K, X = z3.Const('job_k', INT), z3.Const('proc_x', INT)
    a = job_at(J, W, B, st, K, X)
    job = e.lower(cells[1][1])
    st.assume(job == job.sort().constructor(1)(a))
    e.contracts['rsh::jobs::wait_one'] = wait_one_contract(C, J, W, SH, a, X, args[0])
    C.fn(e, 'rsh::jobs::wait_one')
    running = lambda H: J.state_is(J.j(H, a, 'state'), 'Running')

    def cand(ctx):
        H, H0 = e.heap(ctx.st, J.kj), e.heap(ctx.entry, J.kj)
        out = [('ji', W.ji(H, W.R(ctx.st), a, X)), ('step', step_rel(J, W, H0, H, a))]
        for p, v in ctx.ints():
            out.append(('blocking%s' % (p,), z3.Implies(args[0] == 1, z3.And(z3.Or(v == 0, v == 1), z3.Implies(v != 1, z3.Not(running(H))), z3.Implies(v == 1, running(H))))))
        return out
    e.cand = cand
    outs = e.run_fn(st, fn, args)
    nb = 0
    for k, o in no_panic(C, 'do_wait', outs):
        s = o.state
        H = J.hj(s)
        nochild = any(n[0] == 'nochild' for n in s.notes)
        C.ob('do_wait: path %d: a blocking wait for a job ends only when the job no longer runs, or no child is left' % k, e, s, z3.Implies(args[0] == 1, z3.Or(z3.BoolVal(nochild), z3.Not(running(H)))))
        C.ob('do_wait: path %d: a job that is not running has only processes the system has reported' % k, e, s, W.ji(H, W.R(s), a, X))
        C.ob('do_wait: path %d: the job stays the job it was' % k, e, s, step_rel(J, W, B.H, H, a))
        C.ob('do_wait: path %d: a job that is not running is not waited for again' % k, e, s, z3.Implies(z3.Not(running(B.H)), z3.Not(running(H))))
        nb += bool(e.feasible(s, z3.And(args[0] == 1, running(B.H))))
    C.covers('blocking waits', nb)


def do_wait_contract(C, J, W, SH, a, X):
    def c(eng, st, fn, args):
        block = eng.lower(args[0])
        st.note('do_wait', block)
        st.ghost['nochild'] = eng.fresh('no_child_left', z3.BoolSort())
        run0 = J.state_is(J.j(J.hj(st), a, 'state'), 'Running')
        havoc_jobs(J, W, SH, eng, st, a, X)
        st.assume(z3.Implies(block == 1, z3.Or(st.ghost['nochild'], z3.Not(J.state_is(J.j(J.hj(st), a, 'state'), 'Running')))))
        return [Outcome('ret', st, eng.fresh_ty(st, eng.dest_ty, 'pid'))]
    return c


def g_wait_for_job(C):
    e, J, W, SH, fn, st, args, cells, B = start_wait(C, 'rsh::jobs::wait_for_job')
    K, X = z3.Const('job_k', INT), z3.Const('proc_x', INT)
    a = job_at(J, W, B, st, K, X)
    job = e.lower(args[0])
    st.assume(job == job.sort().constructor(1)(a))
    C.fn(e, 'rsh::jobs::do_wait')
    C.fn(e, 'rsh::shell::delete_job')
    e.contracts['rsh::jobs::do_wait'] = do_wait_contract(C, J, W, SH, a, X)

    def dj(eng, st, fn, args_):
        st.note('delete_job', eng.lower(args_[0]), J.hj(st))
        H1 = eng.fresh('jobs_after_delete', J.hj(st).sort())
        st.heaps[J.kj] = H1
        return [Outcome('ret', st, Agg(eng.dest_ty, None, []))]
    e.contracts['rsh::shell::delete_job'] = dj
    outs = e.run_fn(st, fn, args)
    for k, o in no_panic(C, 'wait_for_job', outs):
        s = o.state
        waits = [n for n in s.notes if n[0] == 'do_wait']
        dels = [n for n in s.notes if n[0] == 'delete_job']
        C.claim('wait_for_job: path %d: waits once' % k, len(waits) == 1)
        if len(waits) != 1:
            continue
        C.ob('wait_for_job: path %d: it waits for the job, blocking' % k, e, s, waits[0][1] == 1)
        H = dels[0][2] if dels else J.hj(s)
        stt, ss = J.j(H, a, 'state'), J.j(H, a, 'stop_status')
        ps = J.j(H, a, 'processes')
        p = ps[X]
        nc = s.ghost['nochild']
        C.ob('wait_for_job: path %d: when it returns every process of the job has been reported' % k, e, s, z3.Implies(z3.And(z3.Not(nc), X < z3.Length(ps)), W.rep(W.R(s), fld(e, J.PT, 'pid', p))))
        C.ob('wait_for_job: path %d: yields the status of the job' % k, e, s, e.lower(o.value) == ss)
        C.ob('wait_for_job: path %d: which is that of the last process when no process has stopped' % k, e, s, z3.Implies(z3.And(J.state_is(stt, 'Finished'), z3.Length(ps) > 0), J.some(J.SO, e.lower(o.value)) == fld(e, J.PT, 'status', ps[z3.Length(ps) - 1])))
        C.ob('wait_for_job: path %d: a finished job is removed from the table' % k, e, s, z3.Implies(J.state_is(stt, 'Finished'), dels[0][1] == J.j(H, a, 'job_id') if dels else z3.BoolVal(False)))
        C.ob('wait_for_job: path %d: a stopped job is not' % k, e, s, z3.Implies(z3.And(J.state_is(stt, 'Stopped'), z3.Length(ps) > 0), z3.BoolVal(not dels)))
    C.covers('paths', len(outs))


def g_sigchld(C):
    e, J, W, SH, fn, st, args, cells, B = start_wait(C, 'rsh::jobs::wait_for_job_sigchld')
    C.fn(e, 'rsh::shell::delete_job')

    def dj(eng, s, f, a_):
        s.note('delete_job', eng.lower(a_[0]), J.hj(s))
        return [Outcome('ret', s, Agg(eng.dest_ty, None, []))]
    e.contracts['rsh::shell::delete_job'] = dj
    X, Y = z3.Const('proc_x', INT), z3.Const('other_addr', INT)
    job, status = e.lower(args[0]), e.lower(args[1])
    a = J.optv(job)
    ps = J.j(B.H, a, 'processes')
    n = z3.Length(ps)
    stt = lambda i: fld(e, J.PT, 'status', ps[i])
    stp = lambda i: z3.And(J.isopt(stt(i)), J.ws('Stopped', J.optv(stt(i))))
    outs = e.run_fn(st, fn, args)
    ds = 0
    for k, o in no_panic(C, 'wait_for_job_sigchld', outs):
        s = o.state
        dels = [x for x in s.notes if x[0] == 'delete_job']
        H = J.hj(s)
        inr = z3.And(X >= 0, X < n)
        C.ob('wait_for_job_sigchld: path %d: no other job changes' % k, e, s, z3.Implies(z3.Not(z3.And(J.isopt(job), Y == a)), z3.Select(H, Y) == z3.Select(B.H, Y)))
        if dels:
            ds += 1
            C.ob('wait_for_job_sigchld: path %d: a job is removed only when all its processes have been reported' % k, e, s, z3.And(J.isopt(job), z3.Implies(inr, J.isopt(stt(X)))))
            C.ob('wait_for_job_sigchld: path %d: it is this job' % k, e, s, z3.And(z3.BoolVal(len(dels) == 1), dels[0][1] == J.j(B.H, a, 'job_id')))
            C.ob('wait_for_job_sigchld: path %d: it is finished, with its processes' % k, e, s, z3.And(J.state_is(J.j(H, a, 'state'), 'Finished'), J.same_job_except(z3.Select(H, a), z3.Select(B.H, a), 'state', 'stop_status')))
            r = e.lower(o.value)
            C.ob('wait_for_job_sigchld: path %d: its status is that of a stopped process or else of the last one' % k, e, s, z3.And(J.j(H, a, 'stop_status') == r, z3.Implies(z3.And(n > 0, inr, stp(X)), J.ws('Stopped', r)), z3.Implies(z3.And(n > 0, z3.Not(J.ws('Stopped', r))), J.some(J.SO, r) == stt(n - 1))))
        else:
            C.ob('wait_for_job_sigchld: path %d: nothing changes' % k, e, s, z3.And(H == B.H, e.lower(o.value) == status))
            h = s.fork()
            q = z3.Int('qi')
            h.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), J.isopt(stt(q)))))
            C.ob('wait_for_job_sigchld: path %d: only because a process has not been reported' % k, e, h, z3.Not(J.isopt(job)))
    C.covers('removed jobs', ds)


def g_report(C):
    """format_status: makes a text for a report; the table of jobs, the shell and the signals stay as they are"""
    e = C.engine()
    J = Jobs(C, e)
    SH = ShellAt(C, e)
    fn = C.fn(e, 'rsh::jobs::format_status')
    st = State()
    args, cells = fresh_args(e, st, fn)
    jc = SH.f(st, 'job_control')
    B = JB(J, st, jc)
    st.assume(B.inv(J))
    sh0 = SH.val(st)
    n = 0
    for k, o in no_panic(C, 'format_status', e.run_fn(st, fn, args)):
        s = o.state
        A = JB(J, s, SH.f(s, 'job_control'))
        C.ob('format_status: path %d: the shell and its jobs stay as they are' % k, e, s, z3.And(SH.val(s) == sh0, A.T == B.T, A.H == B.H))
        C.claim('format_status: path %d: nothing is done in the system' % k, not [x for x in s.notes if isinstance(x[0], str) and x[0] in ('kill', 'waitpid', 'exec', 'forked', 'child', 'setpgid', 'syserr')], '')
        C.claim('format_status: path %d: no borrow is left' % k, not s.borrows, '')
        n += 1
    C.covers('paths', n)
