"""contracts of the job table (used by P06, P07)"""
from .common import *


class Jobs:
    def __init__(self, C, e):
        self.C, self.e = C, e
        f = C.fn(e, 'rsh::jobs::JobControl::create_job')
        self.JC = e.ty[f['locals'][1]]['e']
        self.procs_ty = f['locals'][2]
        self.PT = e.ty.elem(self.procs_ty)
        jn = C.fn(e, 'rsh::jobs::Job::new')
        self.JT = jn['ret']
        cell = e.ty.strip(fty(e, self.JC, 'job_table'))
        self.kt, self.kj = e.heap_key(e.ty.targs(cell)[0]), e.heap_key(self.JT)
        self.WS = fty(e, self.JT, 'stop_status')
        self.SO = fty(e, self.PT, 'status')
        self.so_procs = e.ty.sort(self.procs_ty)
        self.member = z3.Function('process_of_job', self.so_procs, e.ty.sort(fty(e, self.PT, 'pid')), INT, z3.BoolSort())
        self.pid_ty = fty(e, self.PT, 'pid')
        e.spec_unfold = e.spec_unfold + [(self.member, self.rule)]

    def rule(self, ps, q, n):
        return [z3.If(n <= 0, z3.Not(self.member(ps, q, n)), self.member(ps, q, n) == z3.Or(self.member(ps, q, n - 1), fld(self.e, self.PT, 'pid', ps[n - 1]) == q))]

    def mkpid(self, x):
        return self.e.ty.cons(self.pid_ty, 0, [x])

    def rawpid(self, p):
        return self.e.ty.acc(self.pid_ty, 0, 0, p)

    def f(self, jc, name):
        return fld(self.e, self.JC, name, jc)

    def table(self, st, jc):
        return z3.Select(self.e.heap(st, self.kt), self.f(jc, 'job_table'))

    def has(self, T, k):
        o = z3.Select(T, k)
        return o.sort().recognizer(1)(o)

    def addr(self, T, k):
        o = z3.Select(T, k)
        return o.sort().accessor(1, 0)(o)

    def hj(self, st):
        return self.e.heap(st, self.kj)

    def j(self, H, a, name):
        return fld(self.e, self.JT, name, z3.Select(H, a))

    def some(self, ty, v):
        return self.e.ty.sort(ty).constructor(1)(v)

    def isopt(self, o):
        return o.sort().recognizer(1)(o)

    def optv(self, o):
        return o.sort().accessor(1, 0)(o)

    def ws(self, name, w):
        return self.e.ty.sort(self.WS).recognizer(vidx(self.e, self.WS, name))(w)

    def inv(self, T, H, nxt, cur, na, k=None):
        """the invariant of the table; with k: at this key only"""
        kk = z3.Const('qk', INT) if k is None else k
        body = z3.Implies(self.has(T, kk), z3.And(kk >= 1, kk < nxt, self.j(H, self.addr(T, kk), 'job_id') == kk, self.addr(T, kk) < na))
        return z3.And(nxt >= 1, z3.Implies(self.isopt(cur), self.has(T, self.optv(cur))), z3.ForAll([kk], body) if k is None else body)

    def stopped(self, H, a):
        """the job counts as stopped: it was marked so, or its first process is"""
        ps = self.j(H, a, 'processes')
        s0 = fld(self.e, self.PT, 'status', ps[0])
        return z3.And(z3.Length(ps) > 0, z3.Or(self.ws('Stopped', self.j(H, a, 'stop_status')), z3.And(self.isopt(s0), self.ws('Stopped', self.optv(s0)))))

    def state_is(self, s, name):
        t = fty(self.e, self.JT, 'state')
        return s == int(self.e.ty[t]['v'][vidx(self.e, t, name)]['disc'])

    def same_job_except(self, a, b, *names):
        e = self.e
        return z3.And([e.ty.acc(self.JT, 0, i, a) == e.ty.acc(self.JT, 0, i, b) for i, fx in enumerate(e.ty[self.JT]['v'][0]['f']) if fx[0] not in names])


class JB:
    """snapshot of the job table"""
    def __init__(self, J, st, jc):
        self.jc = jc
        self.T, self.H = J.table(st, jc), J.hj(st)
        self.p2j, self.bg, self.cur, self.nxt = J.f(jc, 'pid_to_job'), J.f(jc, 'background_jobs'), J.f(jc, 'current_job'), J.f(jc, 'next_job_id')
        self.na = J.e.next_addr(st, J.kj)

    def inv(self, J, k=None):
        return J.inv(self.T, self.H, self.nxt, self.cur, self.na, k)


def start_jobs(C, name, keys=lambda args, B: []):
    e = C.engine()
    J = Jobs(C, e)
    fn = C.fn(e, name)
    st = State()
    args, cells = fresh_args(e, st, fn)
    B = JB(J, st, cells[0][1])
    st.assume(B.inv(J))
    return e, J, fn, st, args, cells, B


def pid_cand(J, q, B, f):
    """the loop over the processes of a job has handled a prefix of them"""
    def cand(ctx):
        out = []
        for p, o in ctx.iterators():
            if o.kind in ('iter', 'itermut') and isinstance(o.d.get('pos'), z3.ExprRef) and o.seq.sort() == J.so_procs:
                for pp, v, t in ctx.leaves():
                    if isinstance(v, z3.ExprRef) and v.sort() == B.p2j.sort():
                        out.append(('pids %s %s' % (p, pp), z3.Select(v, q) == f(J.member(o.seq, q, o.pos), z3.Select(B.p2j, q))))
                    elif isinstance(v, z3.ExprRef) and v.sort() == J.e.ty.sort(J.JC):
                        p2 = J.f(v, 'pid_to_job')
                        out.append(('pids in %s %s' % (p, pp), z3.And(z3.Select(p2, q) == f(J.member(o.seq, q, o.pos), z3.Select(B.p2j, q)),
                                                                     *[J.e.ty.acc(J.JC, 0, i, v) == J.e.ty.acc(J.JC, 0, i, J.e.lower(ctx.entry_leaf(pp))) for i, fx in enumerate(J.e.ty[J.JC]['v'][0]['f']) if fx[0] != 'pid_to_job'])))
        return out
    return cand


def table_frame(C, J, e, who, k, st, B, A, but):
    """every entry of the table but one, and every other job, is as it was"""
    kk, x = z3.Const('other_job', INT), z3.Const('other_addr', INT)
    C.ob('%s: path %d: all other jobs stay in the table under their identifiers' % (who, k), e, st, z3.Implies(kk != but, z3.Select(A.T, kk) == z3.Select(B.T, kk)))
    C.ob('%s: path %d: no other job changes' % (who, k), e, st, z3.Implies(z3.And(x != J.addr(B.T, but), x < B.na), z3.Select(A.H, x) == z3.Select(B.H, x)))


def g_create(C):
    e, J, fn, st, args, cells, B = start_jobs(C, 'rsh::jobs::JobControl::create_job')
    procs, bg = args[1], args[2]
    q = z3.Const('any_pid', e.ty.sort(J.pid_ty))
    e.cand = pid_cand(J, q, B, lambda m, old: z3.If(m, old.sort().constructor(1)(B.nxt), old))
    outs = e.run_fn(st, fn, args)
    for k, o in no_panic(C, 'create_job', outs):
        s = o.state
        A = JB(J, s, e.lower(e.read(s, cells[0][0], ())))
        a = e.lower(o.value)
        C.ob('create_job: path %d: the new identifier was free' % k, e, s, z3.Not(J.has(B.T, B.nxt)))
        C.ob('create_job: path %d: the new job is in the table under it' % k, e, s, z3.And(J.has(A.T, B.nxt), J.addr(A.T, B.nxt) == a, J.j(A.H, a, 'job_id') == B.nxt, J.j(A.H, a, 'processes') == procs, J.j(A.H, a, 'background') == bg, J.state_is(J.j(A.H, a, 'state'), 'Running'), J.ws('StillAlive', J.j(A.H, a, 'stop_status'))))
        C.ob('create_job: path %d: it is a new job' % k, e, s, a >= B.na)
        table_frame(C, J, e, 'create_job', k, s, B, A, B.nxt)
        C.ob('create_job: path %d: its processes are found under it, all others where they were' % k, e, s, z3.Select(A.p2j, q) == z3.If(J.member(procs, q, z3.Length(procs)), z3.Select(B.p2j, q).sort().constructor(1)(B.nxt), z3.Select(B.p2j, q)))
        C.ob('create_job: path %d: it is the current job' % k, e, s, A.cur == A.cur.sort().constructor(1)(B.nxt))
        C.ob('create_job: path %d: it is a background job exactly when asked for' % k, e, s, z3.And(z3.Implies(bg, J.isopt(z3.Select(A.bg, B.nxt))), z3.Implies(z3.Not(bg), A.bg == B.bg)))
        C.ob('create_job: path %d: the table is consistent' % k, e, s, A.inv(J, z3.Const('kk', INT)))
        C.claim('create_job: path %d: no borrow is left' % k, not s.borrows, '')
    C.covers('paths', len(outs))


def delete_post(C, J, e, who, k, s, B, A, idt, q, present):
    T = z3.BoolVal(True)
    a = J.addr(B.T, idt)
    stop = J.stopped(B.H, a)
    procs = J.j(B.H, a, 'processes')
    gone = z3.And(present, z3.Not(stop))
    C.ob('%s: path %d: an identifier that is not in the table changes nothing' % (who, k), e, s, z3.Implies(z3.Not(present), z3.And(A.jc == B.jc, A.T == B.T, A.H == B.H)))
    C.ob('%s: path %d: a job that has not stopped is removed' % (who, k), e, s, z3.Implies(gone, z3.Not(J.has(A.T, idt))))
    C.ob('%s: path %d: a stopped job is kept and marked stopped' % (who, k), e, s, z3.Implies(z3.And(present, stop), z3.And(z3.Select(A.T, idt) == z3.Select(B.T, idt), J.state_is(J.j(A.H, a, 'state'), 'Stopped'), J.j(A.H, a, 'processes') == procs, J.j(A.H, a, 'job_id') == idt, A.cur == B.cur)))
    kk, x = z3.Const('other_job', INT), z3.Const('other_addr', INT)
    C.ob('%s: path %d: all other jobs stay in the table under their identifiers' % (who, k), e, s, z3.Implies(kk != idt, z3.Select(A.T, kk) == z3.Select(B.T, kk)))
    C.ob('%s: path %d: no other job changes' % (who, k), e, s, z3.Implies(z3.Or(x != a, z3.Not(present)), z3.Select(A.H, x) == z3.Select(B.H, x)))
    old = z3.Select(B.p2j, q)
    C.ob('%s: path %d: exactly the processes of a removed job are forgotten' % (who, k), e, s, z3.Select(A.p2j, q) == z3.If(z3.And(gone, J.member(procs, q, z3.Length(procs))), old.sort().constructor(0)(), old))
    C.ob('%s: path %d: the current job stays unless it is the one removed' % (who, k), e, s, z3.Implies(z3.Not(z3.And(gone, B.cur == B.cur.sort().constructor(1)(idt))), A.cur == B.cur))
    C.ob('%s: path %d: another job of the table becomes current when there is one' % (who, k), e, s, z3.Implies(z3.And(gone, B.cur == B.cur.sort().constructor(1)(idt), J.has(A.T, kk)), J.isopt(A.cur)))
    C.ob('%s: path %d: background jobs: only a removed job is forgotten' % (who, k), e, s, z3.Select(A.bg, kk) == z3.If(z3.And(gone, kk == idt), z3.Select(B.bg, kk).sort().constructor(0)(), z3.Select(B.bg, kk)))
    C.ob('%s: path %d: the table is consistent' % (who, k), e, s, A.inv(J, z3.Const('kk', INT)))
    # every process of a live job is found under it
    k2 = z3.Const('live_job', INT)
    own = lambda st_, kx: z3.Implies(z3.And(J.has(st_.T, kx), J.member(J.j(st_.H, J.addr(st_.T, kx), 'processes'), q, z3.Length(J.j(st_.H, J.addr(st_.T, kx), 'processes')))), z3.Select(st_.p2j, q) == old.sort().constructor(1)(kx))
    h = s.fork()
    h.assume(own(B, k2))
    h.assume(own(B, idt))
    C.ob('%s: path %d: every process of a job of the table is still found under it' % (who, k), e, h, own(A, k2))
    C.claim('%s: path %d: no borrow is left' % (who, k), not s.borrows, '')


def g_delete_id(C):
    e, J, fn, st, args, cells, B = start_jobs(C, '<rsh::jobs::JobControl as rsh::jobs::JobUtils<usize>>::delete_job', lambda a, B: [a[1]])
    idt = args[1]
    q = z3.Const('any_pid', e.ty.sort(J.pid_ty))
    e.cand = pid_cand(J, q, B, lambda m, old: z3.If(m, old.sort().constructor(0)(), old))
    outs = e.run_fn(st, fn, args)
    for k, o in no_panic(C, 'delete_job(id)', outs):
        A = JB(J, o.state, e.lower(e.read(o.state, cells[0][0], ())))
        delete_post(C, J, e, 'delete_job(id)', k, o.state, B, A, idt, q, J.has(B.T, idt))
    C.covers('removals', sum(e.feasible(o.state, J.has(B.T, idt)) for o in outs))


def g_delete_pid(C):
    e, J, fn, st, args, cells, B = start_jobs(C, '<rsh::jobs::JobControl as rsh::jobs::JobUtils<nix::unistd::Pid>>::delete_job', lambda a, B: [z3.Select(B.p2j, a[1]).sort().accessor(1, 0)(z3.Select(B.p2j, a[1]))])
    pid = args[1]
    q = z3.Const('any_pid', e.ty.sort(J.pid_ty))
    o0 = z3.Select(B.p2j, pid)
    idt = J.optv(o0)
    present = z3.And(J.isopt(o0), J.has(B.T, idt))
    # a job that is found by a process has processes
    st.assume(z3.Implies(present, z3.Length(J.j(B.H, J.addr(B.T, idt), 'processes')) > 0))
    e.cand = pid_cand(J, q, B, lambda m, old: z3.If(m, old.sort().constructor(0)(), old))
    outs = e.run_fn(st, fn, args)
    for k, o in no_panic(C, 'delete_job(pid)', outs):
        A = JB(J, o.state, e.lower(e.read(o.state, cells[0][0], ())))
        delete_post(C, J, e, 'delete_job(pid)', k, o.state, B, A, idt, q, present)
    C.covers('removals', sum(e.feasible(o.state, present) for o in outs))


def g_lookup(C):
    for name, key in (('<rsh::jobs::JobControl as rsh::jobs::JobUtils<usize>>::get_job', 'id'), ('<rsh::jobs::JobControl as rsh::jobs::JobUtils<nix::unistd::Pid>>::get_job', 'pid'),
                      ('rsh::jobs::JobControl::get_current_job', 'current'), ('rsh::jobs::JobControl::update_pid_table', 'map')):
        e, J, fn, st, args, cells, B = start_jobs(C, name)
        outs = e.run_fn(st, fn, args)
        for k, o in no_panic(C, name, outs):
            s = o.state
            jc2 = e.lower(e.read(s, cells[0][0], ())) if cells[0][0] is not None else B.jc
            A = JB(J, s, jc2)
            if key == 'map':
                q = z3.Const('any_pid', e.ty.sort(J.pid_ty))
                old = z3.Select(B.p2j, q)
                C.ob('update_pid_table: path %d: this process belongs to this job, all others stay' % k, e, s, z3.Select(A.p2j, q) == z3.If(q == args[2], old.sort().constructor(1)(args[1]), old))
                C.ob('update_pid_table: path %d: nothing else changes' % k, e, s, z3.And(A.T == B.T, A.H == B.H, A.cur == B.cur, A.nxt == B.nxt, A.bg == B.bg))
                continue
            r = e.lower(o.value)
            idt = args[1] if key == 'id' else J.optv(z3.Select(B.p2j, args[1])) if key == 'pid' else J.optv(B.cur)
            pres = J.has(B.T, idt) if key == 'id' else z3.And(J.isopt(z3.Select(B.p2j, args[1])), J.has(B.T, idt)) if key == 'pid' else J.isopt(B.cur)
            C.ob('get_job(%s): path %d: the job of the table, or none' % (key, k), e, s, z3.And(J.isopt(r) == pres, z3.Implies(pres, J.optv(r) == J.addr(B.T, idt))))
            C.ob('get_job(%s): path %d: nothing changes' % (key, k), e, s, z3.And(A.T == B.T, A.H == B.H, A.jc == B.jc))
        C.covers(key, len(outs))
