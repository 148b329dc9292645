"""the signal mask and the dispositions (used by P14, P15, P20)"""
from .common import *

KEYBOARD = ('SIGINT', 'SIGTSTP')
BOOL = z3.BoolSort()


class Sig:
    def __init__(self, C, e):
        self.C, self.e = C, e
        f = C.fn(e, 'rsh::trap::get_trap')
        self.T = f['locals'][1]
        self.no = {v['name']: int(v['disc']) for v in e.ty[self.T]['v']}
        self.x = z3.Const('any_signal', INT)

    def mask(self, st):
        from mirv import sysm
        return sysm.g(self.e, st, 'mask')

    def blocked(self, st, x=None):
        return z3.Select(self.mask(st), self.x if x is None else x)

    def key(self, x):
        return z3.Or([x == self.no[n] for n in KEYBOARD])

    def off(self, st):
        """blocked: everything but the two keyboard signals"""
        return self.blocked(st) == z3.Not(self.key(self.x))

    def none(self, st):
        return z3.Not(self.blocked(st))

    def valid(self):
        return z3.Or([self.x == n for n in self.no.values()])

    def handler(self, st, x):
        """kind of the disposition of signal x"""
        from mirv import sysm
        so = z3.DeclareSort('Opq_nix__sys__signal__SigAction')
        d = sysm.g(self.e, st, 'disp', z3.ArraySort(INT, so))
        hs = [i for i in range(len(self.e.ty.t)) if self.e.ty.is_adt(i, 'SigHandler')]
        if not hs:
            raise Unsupported('anchor not found: SigHandler')
        self.HT = hs[0]
        hso = self.e.ty.sort(self.HT)
        return z3.Function('sa_handler', so, hso)(z3.Select(d, x))

    def is_(self, st, x, name):
        h = self.handler(st, x)
        return h.sort().recognizer(vidx(self.e, self.HT, name))(h)

    def is_on_sig(self, st, x):
        """the handler is on_sig"""
        h = self.handler(st, x)
        f = self.e.ty.acc(self.HT, vidx(self.e, self.HT, 'Handler'), 0, h)
        return f

    def disp(self, st):
        from mirv import sysm
        return sysm.g(self.e, st, 'disp', z3.ArraySort(INT, z3.DeclareSort('Opq_nix__sys__signal__SigAction')))


def run(C, e, name, *alts):
    fn = C.fn(e, name, *alts)
    st = State()
    args, cells = fresh_args(e, st, fn)
    return fn, st, args, cells


def g_masks(C):
    for name, want in (('rsh::trap::interrupts_off', 'off'), ('rsh::trap::interrupts_on', 'none'), ('rsh::trap::sig_clear_mask', 'none'), ('rsh::trap::sig_block_all', 'all'), ('rsh::jobs::fork_reset', 'none')):
        e = C.engine()
        S = Sig(C, e)
        fn, st, args, cells = run(C, e, name)
        st.assume(S.valid())
        m0 = S.mask(st)
        outs = e.run_fn(st, fn, args)
        nm = name.split('::')[-1]
        good = 0
        for k, o in enumerate(outs):
            s = o.state
            if o.kind == 'panic':
                C.claim('%s: path %d: fails only when the system refuses a disposition' % (nm, k), any(n[:2] == ('syserr', 'sigaction') for n in s.notes), str(s.notes))
                continue
            good += 1
            f = S.off(s) if want == 'off' else S.none(s) if want == 'none' else S.blocked(s)
            C.ob('%s: path %d: %s' % (nm, k, {'off': 'exactly the keyboard interrupt and stop stay unblocked', 'none': 'no signal is blocked', 'all': 'every signal is blocked'}[want]), e, s, f)
            if want == 'all':
                C.ob('%s: path %d: the mask that was in force is handed back' % (nm, k), e, s, z3.Select(e.lower(e.read(s, cells[0][0], ())), S.x) == z3.Select(m0, S.x))
        C.covers(nm, good)


def g_reset(C):
    """what a forked child does before the program runs"""
    e = C.engine()
    S = Sig(C, e)
    fn, st, args, cells = run(C, e, 'rsh::jobs::fork_reset')
    outs = e.run_fn(st, fn, args)
    n = 0
    for k, o in enumerate(outs):
        if o.kind == 'panic':
            C.claim('fork_reset: path %d: fails only when the system refuses a disposition' % k, any(x[:2] == ('syserr', 'sigaction') for x in o.state.notes))
            continue
        n += 1
        for nm in ('SIGINT', 'SIGQUIT', 'SIGTERM', 'SIGTSTP', 'SIGTTIN', 'SIGTTOU', 'SIGCHLD'):
            C.ob('fork_reset: path %d: %s has its default action' % (k, nm), e, o.state, S.is_(o.state, I(S.no[nm]), 'SigDfl'))
    C.covers('completed', n)


def g_set(C):
    e = C.engine()
    S = Sig(C, e)
    fn, st, args, cells = run(C, e, 'rsh::trap::set_signal')
    sig = args[0]
    x = sig
    st.assume(z3.Or([x == n for n in S.no.values()]))
    # the recorded mode of a signal is what was last installed for it (or none); no other code records a mode
    C.fn(e, 'rsh::trap::on_sig')
    d0 = S.disp(st)
    trap, forked, mode = [], [], []

    def get_trap(eng, s, f, a):
        dt = eng.dest_ty
        v = eng.fresh_ty(s, dt, 'trap')
        C.claim('set_signal: the trap asked for is that of the signal', eng.valid(s, eng.lower(a[0]) == x)[0] == 'yes')
        trap.append(v)
        s.note('trap', v)
        return [Outcome('ret', s, v)]

    def forked_(eng, s, f, a):
        v = eng.fresh('forked', BOOL)
        s.note('forked?', v)
        return [Outcome('ret', s, v)]

    def get_mode(eng, s, f, a):
        v = eng.fresh_ty(s, eng.dest_ty, 'mode')
        s.note('mode', v)
        return [Outcome('ret', s, v)]

    def set_mode(eng, s, f, a):
        s.note('setmode', eng.lower(a[0]), eng.lower(a[1]))
        return [Outcome('ret', s, Agg(eng.dest_ty, None, []))]
    e.contracts['rsh::trap::get_trap'] = get_trap
    e.contracts['rsh::shell::get_forked'] = forked_
    e.contracts['rsh::trap::get_signal_mode'] = get_mode
    e.contracts['rsh::trap::set_signal_mode'] = set_mode
    outs = e.run_fn(st, fn, args)
    inst = 0
    N = S.no
    # the numbers that stand for the actions, read off the installing paths
    nums = {}
    parts = []
    for k, o in enumerate(outs):
        s = o.state
        if o.kind == 'panic':
            C.claim('set_signal: path %d: fails only when the system refuses' % k, any(n[:2] == ('syserr', 'sigaction') for n in s.notes), str(s.notes))
            continue
        get = lambda t: [n for n in s.notes if n[0] == t]
        t, f, m = get('trap')[0][1], get('forked?')[0][1], get('mode')[0][1]
        has = t.sort().recognizer(1)(t)
        catch = z3.Or(has, x == N['SIGCHLD'], z3.And(z3.Not(f), S.key(x)))
        ign = z3.And(z3.Not(catch), z3.Not(f), z3.Or(x == N['SIGQUIT'], x == N['SIGTERM'], x == N['SIGTTOU']))
        kinds = {'catch': catch, 'ignore': ign, 'default': z3.Not(z3.Or(catch, ign))}
        if S.disp(s).eq(d0):
            parts.append((k, s, m, kinds))
            C.claim('set_signal: path %d: no mode is recorded' % k, not get('setmode'))
            continue
        inst += 1
        C.ob('set_signal: path %d: a handler for the child-exit signal, every signal with a trap, keyboard interrupt and stop' % k, e, s, S.is_(s, x, 'Handler') == catch)
        C.ob('set_signal: path %d: quit, termination and terminal output are ignored, everything else has its default' % k, e, s, z3.And(S.is_(s, x, 'SigIgn') == ign, S.is_(s, x, 'SigDfl') == z3.Not(z3.Or(catch, ign))))
        y = z3.Const('other_signal', INT)
        C.ob('set_signal: path %d: no other signal is touched' % k, e, s, z3.Implies(y != x, z3.Select(S.disp(s), y) == z3.Select(d0, y)))
        sm = get('setmode')
        C.ob('set_signal: path %d: a mode is recorded for the signal, in the shell only' % k, e, s, sm[0][1] == x if len(sm) == 1 else f)
        if len(sm) == 1:
            v = z3.simplify(sm[0][2])
            for kd, c in kinds.items():
                if e.feasible(s, c):
                    nums.setdefault(kd, set()).add(v.as_long() if z3.is_int_value(v) else str(v))
    C.claim('set_signal: the recorded mode tells the actions apart', len(nums) == 3 and all(len(v) == 1 for v in nums.values()) and len(set().union(*nums.values())) == 3, str(nums))
    if len(nums) == 3 and all(isinstance(n, int) for v in nums.values() for n in v):
        allv = set().union(*nums.values())
        for k, s, m, kinds in parts:
            mv = m.sort().accessor(1, 0)(m)
            ms = m.sort().recognizer(1)(m)
            C.ob('set_signal: path %d: left alone only when that action is in force already, or the signal is to be ignored for good' % k, e, s,
                 z3.And(ms, z3.Or(z3.And([mv != n for n in allv]), z3.And([z3.Implies(c, mv == min(nums[kd])) for kd, c in kinds.items()]))))
    C.covers('installed', inst)


def g_delete(C):
    """shell::delete_job: blocked while the table changes, unblocked afterwards"""
    for ty in ('usize',):
        e = C.engine()
        S = Sig(C, e)
        e.contracts['<rsh::shell::Shell as rsh::shell::ShellJobUtils<%s>>::delete_job' % ty] = lambda eng, s, f, a: (s.note('delete', S.off(s)), [Outcome('ret', s, Agg(eng.dest_ty, None, []))])[1]
        fn, st, args, cells = run(C, e, 'rsh::shell::delete_job::<%s>' % ty, 'rsh::shell::delete_job')
        st.assume(S.valid())
        outs = e.run_fn(st, fn, args)
        n = 0
        for k, o in no_panic(C, 'shell::delete_job', outs):
            d = [x for x in o.state.notes if x[0] == 'delete']
            n += len(d)
            for x in d:
                C.ob('shell::delete_job: path %d: signals are blocked while the table changes' % k, e, o.state, x[1])
            C.ob('shell::delete_job: path %d: no signal is blocked afterwards' % k, e, o.state, S.none(o.state))
        C.covers('deletions', n)
        # the method of the shell deletes from the table of jobs, once, and does nothing else
        e = C.engine()
        S = Sig(C, e)
        SH = ShellAt(C, e)
        name = '<rsh::shell::Shell as rsh::shell::ShellJobUtils<%s>>::delete_job' % ty
        jn = '<rsh::jobs::JobControl as rsh::jobs::JobUtils<%s>>::delete_job' % ty
        C.fn(e, jn)
        fn = C.fn(e, name)
        st = State()
        args, cells = fresh_args(e, st, fn)
        JT = e.ty.sort(fty(e, e.ty[fn['locals'][1]]['e'], 'job_control'))
        AFTER = z3.Function('after_delete', JT, INT, JT)

        def delete(eng, s, f, a):
            s.note('delete', term(eng, s, a[1]))
            eng.write(s, a[0].root, a[0].path, AFTER(term(eng, s, a[0]), term(eng, s, a[1])))
            return [Outcome('ret', s, Agg(eng.dest_ty, None, []))]
        e.contracts[jn] = delete
        m0 = S.mask(st)
        sh0 = cells[0][1]
        ST = e.ty[fn['locals'][1]]['e']
        for k, o in no_panic(C, name, e.run_fn(st, fn, args)):
            sh1 = e.lower(e.read(o.state, cells[0][0], ()))
            C.ob('Shell::delete_job: path %d: the job of this identifier is deleted, the rest of the shell stays' % k, e, o.state,
                 z3.And([fld(e, ST, x[0], sh1) == (AFTER(fld(e, ST, x[0], sh0), args[1]) if x[0] == 'job_control' else fld(e, ST, x[0], sh0)) for x in e.ty[ST]['v'][0]['f']]))
            C.ob('Shell::delete_job: path %d: the mask stays' % k, e, o.state, S.mask(o.state) == m0)


def g_traps(C):
    """the table of traps and of recorded modes: what is looked up is what was recorded last for that signal, and nothing else is changed"""
    def start(name):
        e = C.engine()
        fn = C.fn(e, name)
        W = [i for i in range(len(e.ty.t)) if e.ty.is_adt(i, 'TrapWrapper')]
        D = [i for i in range(len(e.ty.t)) if e.ty.is_adt(i, 'TrapData')]
        if not W or not D:
            raise Unsupported('anchor not found: TrapData')
        W, D = W[0], D[0]
        st = State()
        args, cells = fresh_args(e, st, fn)
        addr = z3.Const('lazy_' + re.sub(r'\W', '_', e.ty.canon(W)), e.ty.sort(W))
        cell = e.heap_key(D)
        data = lambda s: z3.Select(e.heap(s, cell), fld(e, W, 'data', addr))
        part = lambda s, n: fld(e, D, n, data(s))
        same = lambda a, b, *but: z3.And([fld(e, D, n[0], data(a)) == fld(e, D, n[0], data(b)) for n in e.ty[D]['v'][0]['f'] if n[0] not in but])
        e.heap(st, cell)
        return e, fn, st, args, part, same
    for name, table in (('get_trap', 'traps'), ('get_signal_mode', 'signal_mode')):
        e, fn, st, args, part, same = start('rsh::trap::' + name)
        outs = e.run_fn(st.fork(), fn, args)
        for k, o in no_panic(C, name, outs):
            v = e.lower(o.value)
            w = z3.Select(part(st, table), args[0])
            has = w.sort().recognizer(1)(w)
            C.ob('%s: path %d: what is recorded for that signal, or nothing' % (name, k), e, o.state,
                 z3.And(v.sort().recognizer(1)(v) == has, z3.Implies(has, v.sort().accessor(1, 0)(v) == w.sort().accessor(1, 0)(w))))
            C.ob('%s: path %d: the tables stay as they are' % (name, k), e, o.state, same(st, o.state))
        C.covers(name, len(outs))
    e, fn, st, args, part, same = start('rsh::trap::set_signal_mode')
    outs = e.run_fn(st.fork(), fn, args)
    for k, o in no_panic(C, 'set_signal_mode', outs):
        a, b = part(st, 'signal_mode'), part(o.state, 'signal_mode')
        x = z3.Const('a_signal', args[0].sort())
        w = z3.Select(b, x)
        C.ob('set_signal_mode: path %d: the mode of that signal is the one given' % k, e, o.state, z3.Implies(x == args[0], z3.And(w.sort().recognizer(1)(w), w.sort().accessor(1, 0)(w) == args[1])))
        C.ob('set_signal_mode: path %d: the mode of every other signal stays' % k, e, o.state, z3.Implies(x != args[0], w == z3.Select(a, x)))
        C.ob('set_signal_mode: path %d: nothing else changes' % k, e, o.state, same(st, o.state, 'signal_mode'))
    C.covers('set_signal_mode', len(outs))
