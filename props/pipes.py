"""eval_pipeline: descriptors, processes, signals and status (used by P03, P04, P05, P06, P13, P14, P20)"""
from .jobs import *
from .signals import Sig
from mirv import sysm
from mirv.core import nth_cases as at, length

NO = z3.Function('pipe_number', INT, INT)
BOOL = z3.BoolSort()


ASSUMES = ['eval_pipeline: eval_command, reap_children and function calls may do anything to variables, tables and the exit status, may unblock signals, and leave the descriptors of the shell as they were (proved for eval_pipeline itself, so by induction over the nesting of commands)',
           'eval_pipeline: processes of different commands are told apart (their values are moved, never compared)',
           'eval_pipeline: whether a name is that of a function does not change while the pipeline is set up',
           'the shell holds descriptors 0, 1 and 2; a new pipe gets two free descriptors']


class Pipes:
    """contracts of what eval_pipeline calls; ghost: npipe pipes made, nfork processes started"""
    def __init__(self, C):
        self.C = C
        e = self.e = C.engine()
        e.feas_timeout = 300
        e.seq_weak = True
        e.len_candidates = False
        e.smt_timeout = 2500
        self.J = Jobs(C, e)
        self.S = Sig(C, e)
        self.SH = ShellAt(C, e)
        self.fn = C.fn(e, 'rsh::eval::eval_pipeline')
        ec = C.fn(e, 'rsh::eval::eval_command')
        self.CmdT = e.ty[ec['locals'][1]]['e']
        ot = e.ty.targs(ec['ret'])[0]
        self.pair = e.ty.targs(ot)[0]
        self.SCT = e.ty.field_types(self.pair, None if e.ty.kind(self.pair) == 'tuple' else 0)[1] if False else self.tuple_types(self.pair)[1]
        self.so_c = e.ty.sort(self.SCT)
        self.so_p = e.ty.sort(self.J.PT)
        self.CMD = z3.Function('command_of_process', self.so_p, self.so_c)
        self.POS = z3.Function('place_of_process', self.so_p, INT)
        ISF = self.ISF = z3.Function('is_function', z3.StringSort(), BOOL)
        c = e.contracts
        for n in ('rsh::trap::reap_children', 'rsh::eval::eval_command', 'rsh::eval::eval_function', 'rsh::shell::is_function', 'rsh::shell::create_job', 'rsh::shell::update_pid_table', 'rsh::jobs::wait_for_job',
                  'rsh::shell::delete_job', 'rsh::eval::temp_fork', 'rsh::eval::temp_exec', 'rsh::eval::eval_prefix_suffix', 'rsh::trap::interrupts_off', 'rsh::trap::interrupts_on'):
            self.anchor(n)
        c['rsh::trap::reap_children'] = self.reap
        c['rsh::eval::eval_command'] = self.command
        c['rsh::eval::eval_function'] = self.function
        c['rsh::shell::is_function'] = lambda eng, s, f, a: [Outcome('ret', s, ISF(term(eng, s, a[0])))]
        c['rsh::shell::create_job'] = self.create
        c['rsh::shell::update_pid_table'] = self.register
        c['rsh::jobs::wait_for_job'] = self.wait
        c['rsh::shell::delete_job'] = self.delete
        c['rsh::eval::temp_fork'] = self.fork
        c['rsh::eval::temp_exec'] = self.exec_
        c['rsh::eval::eval_prefix_suffix'] = self.redirect
        c['nix::unistd::pipe'] = self.pipe
        c['std::vec::Vec::<T, A>::remove'] = self.remove

    def tuple_types(self, t):
        return self.e.ty.field_types(t, None)

    def anchor(self, n):
        try:
            self.C.fn(self.e, n)
        except Unsupported:
            pass

    # ---- ghost state
    def g(self, st, n):
        return st.ghost.setdefault(n, z3.Const('g0_' + n, INT))

    def fd(self, st):
        return sysm.g(self.e, st, 'fd')

    def child(self, st):
        return sysm.g(self.e, st, 'child')

    def in_child(self, st):
        return any(n[0] == 'child' for n in st.notes)

    def arbitrary(self, st):
        """commands may change anything of the shell but its descriptors"""
        st.heaps[self.SH.key] = self.e.fresh('shell_after', self.e.heap(st, self.SH.key).sort())
        sysm.setg(st, 'env', self.e.fresh('env_after', sysm.g(self.e, st, 'env').sort()))
        for k in self.e.statics:
            if k.endswith('EXIT_STATUS'):
                self.e.static(st, k)
                st.statics[k] = self.e.fresh('exit_status', INT)

    def status(self, st):
        return [self.e.lower(self.e.static(st, k)) for k in self.e.statics if k.endswith('EXIT_STATUS')][0]

    def mask_on(self, st):
        sysm.setg(st, 'mask', z3.K(INT, z3.BoolVal(False)))

    def mask_any(self, st):
        """the same as before, or nothing blocked"""
        b = self.e.fresh('unblocked', BOOL)
        sysm.setg(st, 'mask', z3.If(b, z3.K(INT, z3.BoolVal(False)), self.S.mask(st)))

    def unit(self, eng):
        return Agg(eng.dest_ty, None, [])

    def broken(self, st, prop, what):
        st.note('broken', prop, what)
        return [Outcome('panic', st)]

    def isf(self, p):
        return self.ISF(fld(self.e, self.SCT, 'name', self.CMD(p)))

    # ---- contracts
    def remove(self, eng, st, fn, args):
        from mirv import models
        v = eng.lower(models.val(eng, st, args[0]))
        i = eng.lower(args[1])
        if v.sort() == z3.SeqSort(self.so_p) and eng.valid(st, z3.Implies(z3.And(i >= 0, i < z3.Length(v)), self.isf(v[i])))[0] != 'yes':
            return self.broken(st, 'P03', 'a command that is not a function is taken out of the pipeline')
        return [x if isinstance(x, Outcome) else Outcome('ret', *x) for x in models.m_vecremove(eng, st, fn, args)]

    def reap(self, eng, st, fn, args):
        self.arbitrary(st)
        self.mask_any(st)
        st.note('reap')
        return [Outcome('ret', st, self.unit(eng))]

    def command(self, eng, st, fn, args):
        """a command: nothing to start, a process for it, or an error"""
        self.arbitrary(st)
        self.mask_any(st)
        dt = eng.dest_ty
        r = eng.fresh_ty(st, dt, 'command_result')
        if isinstance(args[0], Ref):
            eng.write(st, args[0].root, args[0].path, eng.fresh_ty(st, self.CmdT, 'command_after'))
        so = eng.ty.sort(dt)
        opt = eng.ty.acc(dt, 0, 0, r)
        pr = opt.sort().accessor(1, 0)(opt)
        p, c = [pr.sort().accessor(0, i)(pr) for i in (0, 1)]
        at = [x[1] for x in args[0].path if x[0] == 'i'] if isinstance(args[0], Ref) else []
        if not at:
            raise Unsupported('eval_command on something that is not an element of the pipeline')
        st.assume(z3.Implies(z3.And(so.recognizer(0)(r), opt.sort().recognizer(1)(opt)), z3.And(self.CMD(p) == c, self.POS(p) == at[-1])))
        return [Outcome('ret', st, r)]

    def function(self, eng, st, fn, args):
        nm = fld(eng, self.SCT, 'name', term(eng, st, args[0]))
        st.note('function', args[0], self.fd(st))
        self.arbitrary(st)
        bad = st.fork()
        st.assume(self.ISF(nm))
        bad.assume(z3.Not(self.ISF(nm)))
        self.mask_on(st)
        dt = eng.dest_ty
        if isinstance(args[0], Ref):
            eng.write(st, args[0].root, args[0].path, term(eng, st, args[0]))
        out = [Outcome('ret', s, Agg(dt, v, [eng.fresh_ty(s, eng.ty.targs(dt)[v], 'function_result')])) for s, v in ((st, 0), (bad, 1)) if eng.feasible(s)]
        return out

    def create(self, eng, st, fn, args):
        J = self.J
        ps = eng.lower(args[0])
        x = z3.Const('idx', INT)
        if eng.valid(st, z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < z3.Length(ps) - 1), self.POS(ps[x]) < self.POS(ps[x + 1]))))[0] != 'yes':
            return self.broken(st, 'P03', 'the processes of the job are not in the order of the commands')
        a = eng.next_addr(st, J.kj)
        st.alloc[J.kj] = a + 1
        j = eng.fresh('job', eng.ty.sort(J.JT))
        H = z3.Store(J.hj(st), a, j)
        st.heaps[J.kj] = H
        st.assume(z3.And(J.j(H, a, 'processes') == ps, J.j(H, a, 'background') == eng.lower(args[1]), J.j(H, a, 'job_id') >= 1, J.state_is(J.j(H, a, 'state'), 'Running')))
        st.note('job', a, ps, eng.lower(args[1]), J.j(H, a, 'job_id'), self.S.off(st), self.status(st))
        st.ghost['nfork'] = I(0)
        st.ghost['npipe'] = I(0)
        st.ghost['registered'] = I(0)
        st.ghost['lastfork'] = I(0)
        return [Outcome('ret', st, a)]

    def pipe(self, eng, st, fn, args):
        outs = sysm.m_pipe(eng, st, fn, args)
        res = []
        for s, v in outs:
            if isinstance(v, Agg) and v.variant == 1 or any(n[:2] == ('syserr', 'pipe') for n in s.notes[-1:]):
                res.append(Outcome('ret', s, v))
                continue
            n = self.g(s, 'npipe')
            x = eng.lower(v)
            tt = eng.ty.targs(eng.dest_ty)[0]
            pr = x.sort().accessor(0, 0)(x)
            for i in (0, 1):
                s.assume(NO(z3.Select(self.fd(s), z3.simplify(pr.sort().accessor(0, i)(pr)))) == n)
            s.ghost['npipe'] = n + 1
            res.append(Outcome('ret', s, v))
        return res

    def fork(self, eng, st, fn, args):
        """temp_fork (its own contract is checked separately)"""
        J = self.J
        dt = eng.dest_ty
        if eng.valid(st, self.S.off(st))[0] != 'yes':
            return self.broken(st, 'P14', 'a process is started while signals are not blocked')
        job = [n for n in st.notes if n[0] == 'job']
        k = self.g(st, 'nfork')
        if not job or eng.valid(st, z3.And(k < z3.Length(job[-1][2]), term(eng, st, args[0]) == job[-1][2][k]))[0] != 'yes':
            return self.broken(st, 'P03', 'the process started is not the next process of the job')
        ch, bad = st.fork(), st.fork()
        r = args[0]
        pid = eng.fresh('childpid', INT)
        st.assume(pid > 0)
        p = term(eng, st, r)
        so = p.sort()
        np_ = so.constructor(0)(*[J.mkpid(pid) if fx[0] == 'pid' else eng.ty.acc(J.PT, 0, i, p) for i, fx in enumerate(eng.ty[J.PT]['v'][0]['f'])])
        eng.write(st, r.root, r.path, np_)
        st.ghost['nfork'] = self.g(st, 'nfork') + 1
        st.ghost['lastfork'] = pid
        self.child(ch)
        sysm.setg(ch, 'child', z3.BoolVal(True))
        ch.note('child', p, r, sysm.g(eng, ch, 'env'))
        bad.note('syserr', 'fork')
        mk = lambda v: J.mkpid(v)
        okc = lambda v: Agg(dt, 0, [v])
        return [Outcome('ret', st, okc(mk(pid))), Outcome('ret', ch, okc(mk(I(0)))), Outcome('ret', bad, Agg(dt, 1, [eng.fresh_ty(bad, eng.ty.targs(dt)[1], 'errno')]))]

    def register(self, eng, st, fn, args):
        J = self.J
        pid = J.rawpid(eng.lower(args[1]))
        job = [n for n in st.notes if n[0] == 'job'][-1]
        if eng.valid(st, self.S.off(st))[0] != 'yes':
            return self.broken(st, 'P14', 'a process is registered while signals are not blocked')
        if eng.valid(st, z3.And(eng.lower(args[0]) == job[4], pid == self.g(st, 'lastfork')))[0] != 'yes':
            return self.broken(st, 'P07', 'what is registered is not the process just started, under its job')
        st.ghost['registered'] = self.g(st, 'registered') + 1
        return [Outcome('ret', st, self.unit(eng))]

    def wait(self, eng, st, fn, args):
        J = self.J
        w = eng.fresh_ty(st, eng.dest_ty, 'status')
        H0 = J.hj(st)
        job = [n for n in st.notes if n[0] == 'job'][-1]
        H = eng.fresh('jobs_after_wait', H0.sort())
        st.heaps[J.kj] = H
        a = job[1]
        st.assume(z3.And(J.j(H, a, 'job_id') == J.j(H0, a, 'job_id'), z3.Length(J.j(H, a, 'processes')) == z3.Length(J.j(H0, a, 'processes'))))
        st.note('wait', e_lower(eng, args[0]), w, self.fd(st), eng.dest_ty, J.j(H0, a, 'processes'))
        self.arbitrary_status(st)
        return [Outcome('ret', st, w)]

    def arbitrary_status(self, st):
        st.heaps[self.SH.key] = self.e.fresh('shell_after', self.e.heap(st, self.SH.key).sort())
        self.mask_any(st)

    def delete(self, eng, st, fn, args):
        st.note('delete_job', eng.lower(args[0]), self.J.hj(st))
        st.heaps[self.SH.key] = self.e.fresh('shell_after', self.e.heap(st, self.SH.key).sort())
        self.mask_on(st)
        return [Outcome('ret', st, self.unit(eng))]

    def redirect(self, eng, st, fn, args):
        v = args[0]
        pre, suf = [val(eng, st, x) for x in v.fields] if isinstance(v, Agg) else [v.sort().accessor(0, i)(v) for i in (0, 1)]
        if not self.in_child(st):
            return self.broken(st, 'P05 P13', 'redirections and assignments of a command are applied in the shell itself')
        env = sysm.g(eng, st, 'env')
        st.note('redirect', (eng.lower(pre), eng.lower(suf)), self.fd(st), env)
        t = self.fd(st)
        nt = eng.fresh('fd_after_redirections', t.sort())
        ne = eng.fresh('env_after_assignments', env.sort())
        sysm.setg(st, 'fd', nt)
        sysm.setg(st, 'env', ne)
        st.note('redirected', nt, ne)
        return [Outcome('ret', st, self.unit(eng))]

    def exec_(self, eng, st, fn, args):
        st.note('exec', term(eng, st, args[0]), self.fd(st), self.in_child(st), sysm.g(eng, st, 'env'))
        dt = eng.dest_ty
        s2 = st.fork()
        s2.note('exec-failed')
        return [Outcome('exec', st, None), Outcome('ret', s2, Agg(dt, 1, [eng.fresh_ty(s2, eng.ty.targs(dt)[1], 'message')]))]

    # ---- the loops
    def cand(self, ctx):
        e, J = self.e, self.J
        out = []
        st = ctx.st
        if ctx.fn['nname'] != self.fn['nname']:
            return out
        created = [n for n in st.notes if n[0] == 'job']
        x = z3.Const('idx', INT)
        if not created:
            seqs = [(p, v) for p, v, t in ctx._walk(st) if p[0] == 'L' and p[1] == ctx.fid and len(p) == 3 and z3.is_expr(v) and z3.is_seq(v)]
            ps = [(p, v) for p, v in seqs if v.sort() == z3.SeqSort(self.so_p)]
            cs = [(p, v) for p, v in seqs if v.sort() == z3.SeqSort(self.so_c)]
            for p, v in ps:
                for q, w in cs:
                    out.append(('paired %s %s' % (p, q), z3.And(length(v) == length(w), z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < length(v)), self.CMD(at(v, x)) == at(w, x))))))
            its = [(p, o) for p, o in ctx.iterators_all()]
            for p, v in ps:
                out.append(('order %s' % (p,), z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < length(v) - 1), self.POS(at(v, x)) < self.POS(at(v, x + 1))))))
                for q, o in its:
                    if o.kind == 'itermut' and o.seq.sort() not in (z3.SeqSort(self.so_c), v.sort()):
                        out.append(('place %s %s' % (p, q), z3.And(length(v) == o.pos, z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < length(v)), self.POS(at(v, x)) == x)))))
            for p, r in seqs:
                if r.sort() != z3.SeqSort(INT):
                    continue
                out.append(('status %s' % (p,), z3.Implies(length(r) > 0, self.status(st) == 0)))
                for c, v in ps:
                    out.append(('emptied %s %s' % (p, c), z3.Or(length(v) > 0, length(r) > 0)))
                up = lambda b, lim: z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < b), z3.And(at(r, x) >= 0, at(r, x) + (b - x) <= lim)))
                y = z3.Const('idy', INT)
                out.append(('increasing %s' % (p,), z3.ForAll([x, y], z3.Implies(z3.And(x >= 0, x < y, y < length(r)), at(r, x) < at(r, y)))))
                for c, v in ps:
                    out.append(('functions %s %s' % (p, c), z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < (rev(its, r))), self.isf(at(v, at(r, x)))))))
                for q, o in its:
                    if o.kind == 'enum':
                        out.append(('marks %s %s' % (p, q), up(length(r), o.cnt.n)))
                    if o.kind == 'rev' and o.it.kind == 'iter' and o.it.seq.sort() == r.sort():
                        for c, v in ps:
                            out.append(('marks %s %s %s' % (p, q, c), up(o.it.end, length(v))))
            out.append(('fd', z3.ForAll([x], z3.Select(self.fd(st), x) == z3.Select(self.fd(ctx.entry), x))))
            return out
        job = created[-1]
        n = length(job[2])
        its = [(p, o) for p, o in ctx.iterators() if o.kind == 'itermut' and o.seq.sort() == J.so_procs]
        if not its:
            return out
        p, o = its[-1]
        pos = o.pos
        t, t0 = self.fd(st), self.fd(ctx.entry)
        a = job[1]
        H, H0 = J.hj(st), J.hj(ctx.entry)
        out.append(('status', self.status(st) == self.status(ctx.entry)))
        out.append(('forks', self.g(st, 'nfork') == pos))
        out.append(('pipes', self.g(st, 'npipe') == z3.If(pos < n, pos, z3.If(n > 0, n - 1, I(0)))))
        out.append(('registered', self.g(st, 'registered') == pos))
        out.append(('masked', self.S.off(st)))
        out.append(('mask', S_eq(self.S.mask(st), self.S.mask(ctx.entry))))
        out.append(('len', length(J.j(H, a, 'processes')) == n))
        out.append(('rest', J.same_job_except(z3.Select(H, a), z3.Select(H0, a), 'processes')))
        cur = J.j(H, a, 'processes')
        out.append(('todo', z3.ForAll([x], z3.Implies(z3.And(x >= pos, x < n), at(cur, x) == job[2][x]))))
        small = {q: t for q, v, t in ctx.leaves()}
        for q, v in ctx.ints():
            if len(q) != 3 or q[1] != ctx.fid or small.get(q) is None or e.ty.kind(small[q]) != 'int':
                continue
            if not e.ty[small[q]]['sg']:
                out.append(('count%s' % (q,), v == pos))
                continue
            piped = z3.And(pos > 0, pos < n)
            out.append(('prev%s' % (q,), z3.And(z3.Implies(pos == 0, v == -1), z3.Implies(piped, z3.And(v > 2, sysm.IS_PIPE_R(z3.Select(t, v)), NO(z3.Select(t, v)) == pos - 1, z3.Select(t, v) != 0, z3.Select(t0, v) == 0)))))
            out.append(('frame%s' % (q,), z3.ForAll([x], z3.Implies(z3.Not(z3.And(piped, x == v)), z3.Select(t, x) == z3.Select(t0, x)))))
        return out


def S_eq(a, b):
    return a == b


def rev(its, r):
    """how much of the list is still ahead of an iterator going backwards over it, or all of it"""
    for q, o in its:
        if o.kind == 'rev' and o.it.kind == 'iter' and o.it.seq.sort() == r.sort():
            return o.it.end
    return z3.Length(r)


def e_lower(eng, v):
    return eng.lower(v)


def start(C, background):
    P = Pipes(C)
    e = P.e
    st = State()
    args, cells = fresh_args(e, st, P.fn)
    t = P.fd(st)
    P.t0 = t
    # the shell holds its three standard descriptors
    st.assume(z3.And([z3.Select(t, i) != 0 for i in (0, 1, 2)]))
    st.assume(z3.Select(t, -1) == 0)
    st.assume(z3.Not(P.child(st)))
    e.cand = P.cand
    P.tree = cells[0]
    P.PT = e.ty[P.fn['locals'][1]]['e']
    P.bg = fld(e, P.PT, 'background', cells[0][1])
    st.assume(P.bg if background else z3.Not(P.bg))
    P.background = background
    P.outs = e.run_fn(st, P.fn, args)
    return P


class Path:
    def __init__(self, P, o):
        self.o, self.st, self.kind = o, o.state, o.kind
        ns = self.st.notes
        get = lambda k: [n for n in ns if n[0] == k]
        self.job = (get('job') or [None])[-1]
        self.child = (get('child') or [None])[-1]
        self.syserr = get('syserr')
        self.redirects, self.execs, self.waits, self.deletes, self.broken = get('redirect'), get('exec'), get('wait'), get('delete_job'), get('broken')
        self.functions = [n for i, n in enumerate(ns) if n[0] == 'function' and any(m[0] == 'child' for m in ns[:i])]
        self.parent = self.child is None
        if self.job:
            self.n = z3.Length(self.job[2])
        if self.child:
            self.k = P.g(self.st, 'nfork')


def obligations(prop, check, what):
    """the proof groups of one property: foreground and background pipelines"""
    def group(background):
        def g(C):
            P = start(C, background)
            kind = 'background' if background else 'foreground'
            for i, o in enumerate(P.outs):
                p = Path(P, o)
                for b in p.broken:
                    if prop in b[1].split():
                        C.claim('eval_pipeline (%s): path %d: %s' % (kind, i, b[2]), False, b[2])
                if p.broken:
                    continue
                check(C, P, p, 'eval_pipeline (%s) path %d: ' % (kind, i))
            C.claim('eval_pipeline (%s): paths explored to the end' % kind, bool(P.outs))
        return g
    return [('eval_pipeline: %s, foreground' % what, group(False)), ('eval_pipeline: %s, background' % what, group(True))]


def p03(C, P, p, nm):
    e, st = P.e, p.st
    if p.parent:
        if p.kind == 'ret' and p.job and not p.syserr:
            C.ob(nm + 'every process of the job was started, each once and in order', e, st, P.g(st, 'nfork') == p.n)
            C.ob(nm + 'one pipe between two neighbours', e, st, P.g(st, 'npipe') == z3.If(p.n > 0, p.n - 1, I(0)))
        return
    if not (p.execs or p.functions) or not p.redirects:
        return
    t, t0 = p.redirects[0][2], P.t0
    d = lambda i: z3.Select(t, i)
    C.ob(nm + 'standard input: the pipe behind the previous command, or the one of the shell', e, st,
         z3.If(p.k == 0, d(0) == z3.Select(t0, 0), z3.And(sysm.IS_PIPE_R(d(0)), NO(d(0)) == p.k - 1)))
    C.ob(nm + 'standard output: the pipe to the next command, or the one of the shell', e, st,
         z3.If(p.k == p.n - 1, d(1) == z3.Select(t0, 1), z3.And(sysm.IS_PIPE_W(d(1)), NO(d(1)) == p.k)))
    C.ob(nm + 'standard error is the one of the shell', e, st, d(2) == z3.Select(t0, 2))
    if p.execs:
        C.ob(nm + 'what is executed is the process that was started', e, st, p.execs[0][1] == p.child[1])
    for f in p.functions:
        C.ob(nm + 'the function called is the one of the process that was started', e, st, term(e, st, f[1]) == P.CMD(p.child[1]))


def p04(C, P, p, nm):
    e, st = P.e, p.st
    x = z3.Const('descriptor', INT)
    if p.parent:
        for w in p.waits:
            C.ob(nm + 'no pipe end is held while the shell waits', e, st, z3.ForAll([x], z3.Select(w[3], x) == z3.Select(P.t0, x)))
        if p.kind == 'ret':
            C.ob(nm + 'the shell holds the descriptors it held', e, st, z3.ForAll([x], z3.Select(P.fd(st), x) == z3.Select(P.t0, x)))
        return
    for r in p.redirects[:1]:
        C.ob(nm + 'the child holds no pipe end but its standard input and output', e, st, z3.ForAll([x], z3.Implies(z3.And(x != 0, x != 1), z3.Select(r[2], x) == z3.Select(P.t0, x))))


def p05(C, P, p, nm):
    e, st = P.e, p.st
    if p.parent:
        return
    if p.execs or p.functions:
        C.claim(nm + 'the redirections are applied exactly once', len(p.redirects) == 1, '%d times' % len(p.redirects))
        order = [n[0] for n in st.notes if n[0] in ('redirect', 'exec') or n in p.functions]
        C.claim(nm + 'before the command runs', order[:1] == ['redirect'])
    for r in p.redirects:
        c = P.CMD(p.child[1])
        C.ob(nm + 'they are the ones of this very command', e, st, z3.And(r[1][0] == fld(e, P.SCT, 'prefix', c), r[1][1] == fld(e, P.SCT, 'suffix', c)))
        for x in p.execs:
            C.ob(nm + 'and still in place when it is executed', e, st, x[2] == [n for n in st.notes if n[0] == 'redirected'][0][1])


def p06(C, P, p, nm):
    e, st, J = P.e, p.st, P.J
    if not p.parent or p.kind != 'ret' or not p.job:
        return
    a = p.job[1]
    if p.syserr:
        # no further process or pipe: those that were started are waited for all the same
        if not P.background:
            C.claim(nm + 'waits at most once', len(p.waits) <= 1)
            if not p.waits:
                C.ob(nm + 'not waiting: no process was started', e, st, P.g(st, 'nfork') == 0)
            for w in p.waits:
                so = w[1].sort()
                C.ob(nm + 'waits for what it has started', e, st, z3.And(so.recognizer(1)(w[1]), so.accessor(1, 0)(w[1]) == a, z3.Length(w[5]) == P.g(st, 'nfork')))
        return
    if P.background:
        C.claim(nm + 'a background pipeline is not waited for', not p.waits)
        return
    if not p.waits:
        C.ob(nm + 'not waiting: no process is left to wait for', e, st, p.n == 0)
        return
    C.claim(nm + 'waits once', len(p.waits) == 1)
    w = p.waits[0]
    so = w[1].sort()
    C.ob(nm + 'waits for the job it has started', e, st, z3.And(so.recognizer(1)(w[1]), so.accessor(1, 0)(w[1]) == a))
    C.claim(nm + 'then forgets the job', len(p.deletes) == 1)
    for d in p.deletes:
        C.ob(nm + 'and no other', e, st, d[1] == p.job[4])
    WT = w[4]
    es = [e.static(st, k) for k in e.statics if k.endswith('EXIT_STATUS')][0]
    r = e.lower(p.o.value)
    rso = r.sort()
    done = lambda want: z3.And(es == want, rso.recognizer(0)(r), rso.accessor(0, 0)(r) == want)
    s = w[2]
    ex, sg = vidx(e, WT, 'Exited'), vidx(e, WT, 'Signaled')
    wso = s.sort()
    C.ob(nm + 'the status of a pipeline that exited is the one of its last process', e, st, z3.Implies(wso.recognizer(ex)(s), done(e.ty.acc(WT, ex, 1, s))))
    C.ob(nm + 'a last process killed by a signal gives 128 + signal', e, st, z3.Implies(wso.recognizer(sg)(s), done(128 + e.ty.acc(WT, sg, 1, s))))


def p13(C, P, p, nm):
    e, st = P.e, p.st
    if p.parent:
        return
    for r in p.redirects:
        c = P.CMD(p.child[1])
        C.ob(nm + 'the assignments are the ones in front of this very command', e, st, r[1][0] == fld(e, P.SCT, 'prefix', c))
        C.ob(nm + 'they are added to the environment of the shell as it was when the process was started', e, st, r[3] == p.child[3])
    for x in p.execs:
        C.claim(nm + 'the assignments are made exactly once, before the command runs', len(p.redirects) == 1 and [n[0] for n in st.notes if n[0] in ('redirect', 'exec')][:1] == ['redirect'])
        if p.redirects:
            C.ob(nm + 'and are still in place when it is executed', e, st, x[4] == [n for n in st.notes if n[0] == 'redirected'][0][2])


def p14(C, P, p, nm):
    e, st = P.e, p.st
    if p.parent and p.kind == 'ret':
        C.ob(nm + 'no signal is left blocked', e, st, P.S.none(st))
    if p.job:
        C.ob(nm + 'signals are blocked when the job is made', e, st, p.job[5])


def p20(C, P, p, nm):
    if p.parent:
        if p.kind == 'ret' and p.job and p.syserr:
            r = P.e.lower(p.o.value)
            C.ob(nm + 'a pipeline that could not be started in full is an error', P.e, p.st, r.sort().recognizer(1)(r))
        return
    C.claim(nm + 'the child does not return into the shell', p.kind in ('exec', 'exit', 'panic', 'abort'), p.kind)
    if any(n[0] == 'exec-failed' for n in p.st.notes):
        C.claim(nm + 'a command that cannot be executed ends', p.kind == 'exit', p.kind)
        if p.kind == 'exit':
            C.ob(nm + 'with a non-zero status', P.e, p.st, P.e.lower(p.o.value) % 256 != 0)


def p07(C, P, p, nm):
    if p.parent and p.kind == 'ret' and p.job and not p.syserr:
        C.ob(nm + 'every process started is registered', P.e, p.st, P.g(p.st, 'registered') == P.g(p.st, 'nfork'))
    if p.parent and p.kind == 'ret' and p.job and p.syserr:
        # the pipeline could not be started in full
        e, st, J, a, n = P.e, p.st, P.J, p.job[1], P.g(p.st, 'nfork')
        C.ob(nm + 'every process started is registered', e, st, P.g(st, 'registered') == n)
        C.claim(nm + 'the job is removed at most once', len(p.deletes) <= 1)
        for d in p.deletes:
            C.ob(nm + 'the job that is removed is the one that was made', e, st, d[1] == p.job[4])
        if not p.deletes:
            C.ob(nm + 'a job stays only in the background, and with a process that was started', e, st, z3.And(P.bg, n > 0))
            C.ob(nm + 'its processes are those that were started', e, st, z3.Length(J.j(J.hj(st), a, 'processes')) == n)
        elif not p.waits:
            C.ob(nm + 'a job that is not waited for is removed only when nothing was started', e, st, n == 0)


def p21(C, P, p, nm):
    """the status `exit` finds: the one of the last foreground pipeline"""
    e, st = P.e, p.st
    if not p.parent or p.kind != 'ret' or not p.job or p.syserr:
        return
    es = P.status(st)
    if P.background:
        C.ob(nm + 'a background pipeline leaves the status of the last foreground one', e, st, es == p.job[6])
        return
    if not p.waits:
        C.ob(nm + 'a call of a function leaves 0', e, st, es == 0)
        return
    w = p.waits[0]
    s, WT = w[2], w[4]
    so = s.sort()
    ex, sg = vidx(e, WT, 'Exited'), vidx(e, WT, 'Signaled')
    C.ob(nm + 'the status of the last process is the one exit finds', e, st, z3.And(z3.Implies(so.recognizer(ex)(s), es == e.ty.acc(WT, ex, 1, s)), z3.Implies(so.recognizer(sg)(s), es == 128 + e.ty.acc(WT, sg, 1, s))))
