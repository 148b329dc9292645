"""System calls (nix), environment, file system, time: assumed contracts over ghost process state."""
import re, z3
from .core import Agg, Ref, Obj, Outcome, POISON, I
from .tys import Unsupported, last
from .models import model, val, term, split, some, none, unit, panic, ok, err, fresh_err, result_fork, mk_iter

INT = z3.IntSort()
S = z3.StringSort()
MASK = z3.ArraySort(INT, z3.BoolSort())
FDT = z3.ArraySort(INT, INT)

# description numbers: 0 = closed; pipe p has read end PIPE0+2p and write end PIPE0+2p+1; opened file f is FILE0+f
IS_FILE = z3.Function('path_is_regular_file', S, z3.BoolSort())
EXISTS = z3.Function('path_exists', S, z3.BoolSort())
RESOLVE = z3.Function('resolve_path', S, S, S)
D_PATH = z3.Function('desc_path', INT, S)
D_FLAGS = {n: z3.Function('desc_' + n, INT, z3.BoolSort()) for n in ('read', 'write', 'append', 'create', 'truncate')}
IS_PIPE_R = z3.Function('desc_is_pipe_read', INT, z3.BoolSort())
IS_PIPE_W = z3.Function('desc_is_pipe_write', INT, z3.BoolSort())
PEER = z3.Function('desc_pipe_peer', INT, INT)


def g(e, st, name, sort=None):
    v = st.ghost.get(name)
    if v is None:
        so = {'fd': FDT, 'mask': MASK, 'child': z3.BoolSort(), 'nextdesc': INT, 'cwd': S, 'forks': INT, 'lastfork': INT, 'pid': INT, 'reaped': z3.ArraySort(INT, z3.BoolSort()),
              'kids': z3.ArraySort(INT, z3.BoolSort()), 'pgid': z3.ArraySort(INT, INT), 'env': z3.ArraySort(S, e.ty.opt(S))}.get(name) if sort is None else sort
        v = z3.Const('g_' + name, so)
        st.ghost[name] = v
    return v


def setg(st, name, v):
    st.ghost[name] = v


def new_desc(e, st):
    n = g(e, st, 'nextdesc')
    st.assume(n > 0)
    setg(st, 'nextdesc', n + 1)
    return n


def new_fd(e, st):
    fd = e.fresh('fd', INT)
    t = g(e, st, 'fd')
    st.assume(fd >= 0)
    st.assume(z3.Select(t, fd) == 0)
    return fd


@model(r'^nix::unistd::pipe$')
def m_pipe(e, st, fn, a):
    dt = e.dest_ty
    bad = st.fork()
    r, w = new_fd(e, st), new_fd(e, st)
    st.assume(r != w)
    d1, d2 = new_desc(e, st), new_desc(e, st)
    st.assume(z3.And(IS_PIPE_R(d1), IS_PIPE_W(d2), PEER(d1) == d2, PEER(d2) == d1, z3.Not(IS_PIPE_W(d1)), z3.Not(IS_PIPE_R(d2))))
    setg(st, 'fd', z3.Store(z3.Store(g(e, st, 'fd'), r, d1), w, d2))
    tt = e.ty.targs(dt)[0]
    bad.note('syserr', 'pipe')
    return [(st, ok(e, dt, e.mk(tt, None, [r, w]))), (bad, err(e, dt, fresh_err(e, bad, dt)))]


@model(r'^nix::unistd::dup2$')
def m_dup2(e, st, fn, a):
    dt = e.dest_ty
    x, y = e.lower(a[0]), e.lower(a[1])
    bad = st.fork()
    t = g(e, st, 'fd')
    st.assume(z3.Select(t, x) != 0)
    setg(st, 'fd', z3.Store(t, y, z3.Select(t, x)))
    if e.on_event:
        e.on_event('dup2', st, z3.Select(t, x), y)
    bad.note('syserr', 'dup2')
    out = []
    if e.feasible(st):
        out.append((st, ok(e, dt, y)))
    out.append((bad, err(e, dt, fresh_err(e, bad, dt))))
    return out


def do_close(e, st, fd):
    t = g(e, st, 'fd')
    setg(st, 'fd', z3.Store(t, fd, I(0)))


@model(r'^nix::unistd::close$')
def m_close(e, st, fn, a):
    dt = e.dest_ty
    x = e.lower(a[0])
    out = []
    for s, o in split(e, st, z3.Select(g(e, st, 'fd'), x) != 0):
        if o:
            do_close(e, s, x)
            out.append((s, ok(e, dt, unit(e, e.ty.targs(dt)[0]))))
        else:
            s.note('syserr', 'close of a closed descriptor')
            out.append((s, err(e, dt, fresh_err(e, s, dt))))
    return out


@model(r'^nix::unistd::fork$')
def m_fork(e, st, fn, a):
    dt = e.dest_ty
    ft = e.ty.targs(dt)[0]
    names = [v['name'] for v in e.ty[ft]['v']]
    ch, bad = st.fork(), st.fork()
    pid = e.fresh('childpid', INT)
    st.assume(pid > 0)
    kids = g(e, st, 'kids')
    st.assume(z3.Not(z3.Select(kids, pid)))
    setg(st, 'kids', z3.Store(kids, pid, z3.BoolVal(True)))
    pt = e.ty.field_types(ft, names.index('Parent'))[0]
    pv = e.ty.cons(pt, 0, [pid]) if e.ty.sort(pt) != INT else pid
    g(e, ch, 'child')
    setg(ch, 'child', z3.BoolVal(True))
    npid = e.fresh('mypid', INT)
    ch.assume(npid > 0)
    setg(ch, 'pid', npid)
    bad.note('syserr', 'fork')
    st.note('forked')
    ch.note('child')
    return [(st, ok(e, dt, e.mk(ft, names.index('Parent'), [pv]))), (ch, ok(e, dt, e.mk(ft, names.index('Child'), []))), (bad, err(e, dt, fresh_err(e, bad, dt)))]


@model(r'^nix::unistd::execve?$')
def m_exec(e, st, fn, a):
    dt = e.dest_ty
    s2 = st.fork()
    vs = [val(e, st, x) for x in a]
    st.note('exec', [e.lower(v) for v in vs])
    s2.note('syserr', 'exec')
    return [Outcome('exec', st, [e.lower(v) for v in vs]), (s2, Agg(dt, 1, [fresh_err(e, s2, dt)]))]


@model(r'^nix::unistd::getpid$')
def m_getpid(e, st, fn, a):
    return mkpid(e, e.dest_ty, g(e, st, 'pid'))


@model(r'^nix::unistd::(getppid|getuid|geteuid)$')
def m_getid(e, st, fn, a):
    x = z3.Const('g_' + fn['ndef'].split('::')[-1], INT)
    return mkpid(e, e.dest_ty, x)


def mkpid(e, ty, x):
    return e.ty.cons(ty, 0, [x])


@model(r'^nix::unistd::Pid::from_raw$', r'^nix::unistd::Uid::from_raw$')
def m_pid_from(e, st, fn, a):
    return mkpid(e, e.dest_ty, e.lower(a[0]))


@model(r'^nix::unistd::Pid::as_raw$', r'^nix::unistd::Uid::as_raw$', r'From<nix::unistd::(Pid|Uid)>.*::from$')
def m_pid_raw(e, st, fn, a):
    t = e.ty.strip(e.arg_tys[0])
    return e.ty.acc(t, 0, 0, term(e, st, a[0]))


@model(r'^nix::unistd::Uid::is_root$')
def m_isroot(e, st, fn, a):
    t = e.ty.strip(e.arg_tys[0])
    return e.ty.acc(t, 0, 0, term(e, st, a[0])) == 0


@model(r'^nix::unistd::setpgid$')
def m_setpgid(e, st, fn, a):
    dt = e.dest_ty
    t = e.ty.strip(e.arg_tys[0])
    p, q = e.ty.acc(t, 0, 0, e.lower(a[0])), e.ty.acc(t, 0, 0, e.lower(a[1]))
    bad = st.fork()
    st.note('setpgid', p, q)
    pg = g(e, st, 'pgid')
    who = z3.If(p == 0, g(e, st, 'pid'), p)
    setg(st, 'pgid', z3.Store(pg, who, z3.If(q == 0, who, q)))
    return [(st, ok(e, dt, unit(e, e.ty.targs(dt)[0]))), (bad, err(e, dt, fresh_err(e, bad, dt)))]


@model(r'^nix::unistd::write$')
def m_write(e, st, fn, a):
    dt = e.dest_ty
    n = e.fresh('written', INT)
    st.assume(n >= 0)
    st.note('write', e.lower(a[0]))
    return result_fork(e, st, dt, n)


# ------------------------------------------------------------------ signals
@model(r'^nix::sys::signal::SaFlags::empty$')
def m_saflags(e, st, fn, a):
    return e.fresh('saflags', e.ty.sort(e.dest_ty))


@model(r'WaitPidFlag as std::ops::BitOr>::bitor$')
def m_bitor(e, st, fn, a):
    x, y = z3.simplify(e.lower(a[0])), z3.simplify(e.lower(a[1]))
    if z3.is_int_value(x) and z3.is_int_value(y):
        return I(x.as_long() | y.as_long())
    return z3.Function('flag_or', x.sort(), x.sort(), x.sort())(x, y)


@model(r'^nix::sys::signal::SigSet::(all|empty)$')
def m_sigset(e, st, fn, a):
    return z3.K(INT, z3.BoolVal(fn['ndef'].endswith('all')))


@model(r'^nix::sys::signal::SigSet::(add|remove)$')
def m_sigset_add(e, st, fn, a):
    r = a[0]
    m = term(e, st, r)
    e.write(st, r.root, r.path, z3.Store(m, e.lower(a[1]), z3.BoolVal(fn['ndef'].endswith('add'))))
    return unit(e, e.dest_ty)


@model(r'^nix::sys::signal::sigprocmask$')
def m_sigprocmask(e, st, fn, a):
    """how, Option<&SigSet>, Option<&mut SigSet>; assumed to succeed (valid arguments)"""
    dt = e.dest_ty
    how = e.lower(a[0])
    t = e.ty.strip(e.arg_tys[0])
    hv = {v['name']: int(v['disc']) for v in e.ty[t]['v']}
    new, old = a[1], a[2]
    m = g(e, st, 'mask')
    oldv = old
    if isinstance(old, Agg):
        if old.variant == 1:
            r = old.fields[0]
            e.write(st, r.root, r.path, m)
    elif not z3.is_false(z3.simplify(e.ty.sort(e.arg_tys[2]).recognizer(1)(old))):
        raise Unsupported('sigprocmask old set')
    if isinstance(new, Agg):
        has, nv = new.variant == 1, (e.lower(val(e, st, new.fields[0])) if new.variant == 1 else None)
    else:
        so = e.ty.sort(e.arg_tys[1])
        c = z3.simplify(so.recognizer(1)(new))
        if z3.is_true(c):
            has, nv = True, z3.simplify(so.accessor(1, 0)(new))
        elif z3.is_false(c):
            has, nv = False, None
        else:
            raise Unsupported('sigprocmask set')
    if has:
        h = z3.simplify(how)
        if not z3.is_int_value(h):
            raise Unsupported('sigprocmask how')
        h = h.as_long()
        if h == hv['SIG_SETMASK']:
            nm = nv
        elif h == hv['SIG_BLOCK']:
            nm = z3.Map(z3.Or(z3.BoolVal(True), z3.BoolVal(True)).decl(), m, nv)
        else:
            nm = z3.Map(z3.And(z3.BoolVal(True), z3.BoolVal(True)).decl(), m, z3.Map(z3.Not(z3.BoolVal(True)).decl(), nv))
        setg(st, 'mask', nm)
    return ok(e, dt, unit(e, e.ty.targs(dt)[0]))


def SA(e):
    so = z3.DeclareSort('Opq_nix__sys__signal__SigAction')
    return so


@model(r'^nix::sys::signal::SigAction::new$')
def m_sigaction_new(e, st, fn, a):
    so = e.ty.sort(e.dest_ty)
    x = e.fresh('sigaction', so)
    h = e.lower(a[0])
    st.assume(z3.Function('sa_handler', so, h.sort())(x) == h)
    return x


@model(r'^nix::sys::signal::sigaction$')
def m_sigaction(e, st, fn, a):
    dt = e.dest_ty
    sig = e.lower(a[0])
    act = term(e, st, a[1])
    so = act.sort()
    bad = st.fork()
    d = g(e, st, 'disp', z3.ArraySort(INT, so))
    old = z3.Select(d, sig)
    setg(st, 'disp', z3.Store(d, sig, act))
    bad.note('syserr', 'sigaction')
    return [(st, ok(e, dt, old)), (bad, err(e, dt, fresh_err(e, bad, dt)))]


@model(r'^nix::sys::signal::(kill|killpg)(::<.*>)?$')
def m_kill(e, st, fn, a):
    dt = e.dest_ty
    bad = st.fork()
    st.note('kill', fn['ndef'].split('::')[-1].split('<')[0], e.lower(a[0]), e.lower(a[1]))
    if e.on_event:
        e.on_event('kill', st, e.lower(a[0]), e.lower(a[1]))
    bad.note('syserr', 'kill')
    return [(st, ok(e, dt, unit(e, e.ty.targs(dt)[0]))), (bad, err(e, dt, fresh_err(e, bad, dt)))]


# ------------------------------------------------------------------ wait
@model(r'^nix::sys::wait::waitpid(::<.*>)?$')
def m_waitpid(e, st, fn, a):
    dt = e.dest_ty
    wt = e.ty.targs(dt)[0]
    ws = e.fresh_ty(st, wt, 'waitstatus')
    bad = st.fork()
    fl = e.lower(val(e, st, a[1]))
    fl = z3.simplify(fl.sort().accessor(1, 0)(fl)) if isinstance(fl.sort(), z3.DatatypeSortRef) else fl
    bits = fl.as_long() if z3.is_int_value(fl) else None
    so = e.ty.sort(wt)
    names = [v['name'] for v in e.ty[wt]['v']]
    isv = lambda n: so.recognizer(names.index(n))(ws)
    for n in ('Continued', 'PtraceEvent', 'PtraceSyscall'):     # not asked for
        if n in names:
            st.assume(z3.Not(isv(n)))
    if bits is not None:
        if not bits & 1:                                          # without WNOHANG the call waits
            st.assume(z3.Not(isv('StillAlive')))
        if not bits & 2:
            st.assume(z3.Not(isv('Stopped')))
    for n in ('Exited', 'Signaled', 'Stopped'):
        i = names.index(n)
        p = e.ty.acc(wt, i, 0, ws)
        p = e.ty.acc(e.ty.field_types(wt, i)[0], 0, 0, p) if p.sort() != INT else p
        st.assume(z3.Implies(isv(n), p > 0))
    st.note('waitpid', val(e, st, a[0]), val(e, st, a[1]), ws)
    err_ = fresh_err(e, bad, dt)
    el = e.lower(err_)
    if el.sort() == INT:
        bad.assume(z3.Or(el == 4, el == 10))                      # interrupted, or no child left; the arguments are valid
    bad.note('waitpid-error', el)
    return [(st, ok(e, dt, ws)), (bad, err(e, dt, err_))]


def ws_pid_opt(e, t, x, dt):
    """WaitStatus::pid"""
    so = e.ty.sort(t)
    r = e.lower(none(e, dt))
    for i, v in enumerate(e.ty[t]['v']):
        if v['name'] in ('Exited', 'Signaled', 'Stopped', 'Continued', 'PtraceEvent', 'PtraceSyscall'):
            r = z3.If(so.recognizer(i)(x), e.lower(some(e, dt, e.ty.acc(t, i, 0, x))), r)
    return r


@model(r'^nix::sys::wait::WaitStatus::pid$')
def m_wspid(e, st, fn, a):
    t = e.ty.strip(e.arg_tys[0])
    return ws_pid_opt(e, t, term(e, st, a[0]), e.dest_ty)


@model(r'^nix::sys::wait::WaitStatus::from_raw$')
def m_ws_raw(e, st, fn, a):
    """exit code c encoded as c << 8 decodes to Exited(pid, c & 0xff); other encodings unspecified"""
    dt = e.dest_ty
    t = e.ty.targs(dt)[0]
    raw = e.lower(a[1])
    ws = e.fresh_ty(st, t, 'decoded')
    bad = st.fork()
    so = e.ty.sort(t)
    names = [v['name'] for v in e.ty[t]['v']]
    i = names.index('Exited')
    j = names.index('Signaled')
    low = raw % 128
    st.assume((low == 0) == so.recognizer(i)(ws))
    st.assume(z3.Implies(low == 0, z3.And(e.ty.acc(t, i, 0, ws) == e.lower(a[0]), e.ty.acc(t, i, 1, ws) == (raw / 256) % 256)))
    return [(st, ok(e, dt, ws)), (bad, err(e, dt, fresh_err(e, bad, dt)))]


# ------------------------------------------------------------------ environment
def bad_env_key(k):
    return z3.Or(z3.Length(k) == 0, z3.Contains(k, z3.StringVal('=')), z3.Contains(k, z3.StringVal('\\u{0}')))


def contains_facts(t, p):
    """what a part of a text holds, the text holds (facts about every part t is made of)"""
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        n = x.decl().name()
        if n in ('str.substr', 'seq.extract'):
            out.append(z3.Implies(z3.Contains(x, p), z3.Contains(x.arg(0), p)))
            todo.append(x.arg(0))
        elif n == 'if':
            out.append(z3.Contains(x, p) == z3.If(x.arg(0), z3.Contains(x.arg(1), p), z3.Contains(x.arg(2), p)))
            todo += [x.arg(1), x.arg(2)]
    return out


@model(r'^std::env::set_var(::<.*>)?$')
def m_set_var(e, st, fn, a):
    k, v = term(e, st, a[0]), term(e, st, a[1])
    for f in contains_facts(k, z3.StringVal('\\u{0}')) + contains_facts(v, z3.StringVal('\\u{0}')):
        st.assume(f)
    out = []
    for s, bad in split(e, st, z3.Or(bad_env_key(k), z3.Contains(v, z3.StringVal('\\u{0}')))):
        if bad:
            out.append(panic(s, 'env::set_var'))
        else:
            en = g(e, s, 'env')
            setg(s, 'env', z3.Store(en, k, e.ty.opt(S).constructor(1)(v)))
            s.note('setenv', k, v)
            out.append((s, unit(e, e.dest_ty)))
    return out


@model(r'^std::env::remove_var(::<.*>)?$')
def m_remove_var(e, st, fn, a):
    k = term(e, st, a[0])
    out = []
    for s, bad in split(e, st, bad_env_key(k)):
        if bad:
            out.append(panic(s, 'env::remove_var'))
        else:
            en = g(e, s, 'env')
            setg(s, 'env', z3.Store(en, k, e.ty.opt(S).constructor(0)()))
            out.append((s, unit(e, e.dest_ty)))
    return out


@model(r'^std::env::var(::<.*>)?$')
def m_var(e, st, fn, a):
    k = term(e, st, a[0])
    dt = e.dest_ty
    o = e.ty.opt(S)
    x = z3.Select(g(e, st, 'env'), k)
    out = []
    for s, has in split(e, st, o.recognizer(1)(x)):
        out.append((s, ok(e, dt, o.accessor(1, 0)(x))) if has else (s, err(e, dt, fresh_err(e, s, dt))))
    return out


@model(r'^std::env::vars$')
def m_vars(e, st, fn, a):
    m = g(e, st, 'env')
    return Obj('mapiter', m=m, seen=z3.K(S, z3.BoolVal(False)), sorted=False, ref=None, last=e.fresh('nokey', S), keys=False)


@model(r'^std::env::set_current_dir(::<.*>)?$')
def m_chdir(e, st, fn, a):
    p = term(e, st, a[0])
    bad = st.fork()
    dt = e.dest_ty
    setg(st, 'cwd', RESOLVE(g(e, st, 'cwd'), p))
    st.note('chdir', p)
    bad.note('syserr', 'chdir')
    return [(st, ok(e, dt, unit(e, e.ty.targs(dt)[0]))), (bad, err(e, dt, fresh_err(e, bad, dt)))]


@model(r'^std::env::current_dir$', r'^nix::unistd::getcwd$')
def m_cwd(e, st, fn, a):
    bad = st.fork()
    bad.note('syserr', 'getcwd')
    return [(st, ok(e, e.dest_ty, g(e, st, 'cwd'))), (bad, err(e, e.dest_ty, fresh_err(e, bad, e.dest_ty)))]


@model(r'^std::env::args$')
def m_args(e, st, fn, a):
    return Obj('args')


# ------------------------------------------------------------------ files
@model(r'^std::fs::metadata(::<.*>)?$')
def m_metadata(e, st, fn, a):
    p = term(e, st, a[0])
    dt = e.dest_ty
    mt = e.ty.targs(dt)[0]
    f = z3.Function('metadata', S, e.ty.sort(mt))
    isf = z3.Function('metadata_is_file', e.ty.sort(mt), z3.BoolSort())
    st.assume(isf(f(p)) == IS_FILE(p))
    st.assume(z3.Implies(IS_FILE(p), EXISTS(p)))
    out = []
    for s, has in split(e, st, EXISTS(p)):
        out.append((s, ok(e, dt, f(p))) if has else (s, err(e, dt, fresh_err(e, s, dt))))
    return out


@model(r'^std::fs::Metadata::is_file$')
def m_is_file(e, st, fn, a):
    x = term(e, st, a[0])
    return z3.Function('metadata_is_file', x.sort(), z3.BoolSort())(x)


@model(r'^std::path::Path::(is_file|exists)$')
def m_path_is_file(e, st, fn, a):
    p = term(e, st, a[0])
    st.assume(z3.Implies(IS_FILE(p), EXISTS(p)))
    return IS_FILE(p) if fn['ndef'].endswith('is_file') else EXISTS(p)


@model(r'^std::path::Path::new(::<.*>)?$')
def m_path_new(e, st, fn, a):
    return val(e, st, a[0])


@model(r'^std::fs::OpenOptions::new$')
def m_oo_new(e, st, fn, a):
    F = z3.BoolVal(False)
    return Obj('openopts', read=F, write=F, append=F, create=F, truncate=F)


@model(r'^std::fs::OpenOptions::(read|write|append|create|truncate)$')
def m_oo_set(e, st, fn, a):
    r = a[0]
    o = val(e, st, r)
    e.write(st, r.root, r.path, o.with_(**{fn['ndef'].split('::')[-1]: e.lower(a[1])}))
    return r


def open_file(e, st, path, flags, dt):
    bad = st.fork()
    fd = new_fd(e, st)
    d = new_desc(e, st)
    st.assume(D_PATH(d) == path)
    st.assume(z3.And(z3.Not(IS_PIPE_R(d)), z3.Not(IS_PIPE_W(d))))
    for n, v in flags.items():
        st.assume(D_FLAGS[n](d) == v)
    setg(st, 'fd', z3.Store(g(e, st, 'fd'), fd, d))
    st.note('open', path, flags, d)
    if e.on_event:
        e.on_event('open', st, path, flags)
    bad.note('syserr', 'open')
    return [(st, ok(e, dt, fd)), (bad, err(e, dt, fresh_err(e, bad, dt)))]


@model(r'^std::fs::OpenOptions::open(::<.*>)?$')
def m_oo_open(e, st, fn, a):
    o = val(e, st, a[0])
    return open_file(e, st, term(e, st, a[1]), {k: o.d[k] for k in ('read', 'write', 'append', 'create', 'truncate')}, e.dest_ty)


@model(r'^std::fs::File::open(::<.*>)?$')
def m_file_open(e, st, fn, a):
    T, F = z3.BoolVal(True), z3.BoolVal(False)
    return open_file(e, st, term(e, st, a[0]), {'read': T, 'write': F, 'append': F, 'create': F, 'truncate': F}, e.dest_ty)


@model(r'^std::fs::File::create(::<.*>)?$')
def m_file_create(e, st, fn, a):
    T, F = z3.BoolVal(True), z3.BoolVal(False)
    return open_file(e, st, term(e, st, a[0]), {'read': F, 'write': T, 'append': F, 'create': T, 'truncate': T}, e.dest_ty)


@model(r'File as std::os::fd::(AsRawFd|FromRawFd|IntoRawFd)>::', r'File as std::os::unix::io::(AsRawFd|FromRawFd)>')
def m_rawfd(e, st, fn, a):
    return term(e, st, a[0])


@model(r'File as std::io::Read>::read_to_string$')
def m_rts(e, st, fn, a):
    dt = e.dest_ty
    r = a[1]
    fd = term(e, st, a[0])
    x = e.fresh('filecontent', S)
    st.note('readall', fd, x, g(e, st, 'fd'))
    e.write(st, r.root, r.path, z3.Concat(term(e, st, r), x))
    n = e.fresh('nread', INT)
    st.assume(n >= 0)
    return result_fork(e, st, dt, n, note=('syserr', 'read'))


LOSSY = {}


def lossy(so):
    """the text of a sequence of bytes, with what is no UTF-8 replaced"""
    k = so.sexpr()
    if k not in LOSSY:
        LOSSY[k] = z3.Function('text_of_bytes', so, S)
    return LOSSY[k]


@model(r'File as std::io::Read>::read_to_end$')
def m_rte(e, st, fn, a):
    dt = e.dest_ty
    r = a[1]
    fd = term(e, st, a[0])
    old = term(e, st, r)
    b = e.fresh('filebytes', old.sort())
    new = z3.simplify(z3.Concat(old, b))
    st.note('readall', fd, lossy(old.sort())(b), g(e, st, 'fd'))
    e.write(st, r.root, r.path, new)
    n = e.fresh('nread', INT)
    st.assume(n >= 0)
    return result_fork(e, st, dt, n)


@model(r'String::from_utf8_lossy$', r'Cow<.*str> as std::ops::Deref>::deref$')
def m_lossy(e, st, fn, a):
    t = term(e, st, a[0])       # such a text is represented by its characters
    return t if t.sort() == S else lossy(t.sort())(t)


@model(r'^std::io::stdout$', r'^std::io::stdin$', r'^std::io::stderr$')
def m_stdout(e, st, fn, a):
    return e.fresh_ty(st, e.dest_ty, 'stdio')


@model(r'Stdout as std::io::Write>::(flush|write_all)$', r'Stderr as std::io::Write>::(flush|write_all)$')
def m_stdout_w(e, st, fn, a):
    dt = e.dest_ty
    bad = st.fork()
    bad.note('unwritable')
    return [(st, ok(e, dt, unit(e, e.ty.targs(dt)[0]))), (bad, err(e, dt, fresh_err(e, bad, dt)))]


# ------------------------------------------------------------------ the generated parser
PARSE_OK = z3.Function('parses', S, z3.BoolSort())


@model(r'CompleteCommandParser::new$')
def m_parser_new(e, st, fn, a):
    return e.fresh_ty(st, e.dest_ty, 'parser')


@model(r'CompleteCommandParser::parse(::<.*>)?$')
def m_parser_parse(e, st, fn, a):
    dt = e.dest_ty
    okt, errt = e.ty.targs(dt)
    src = None
    for x in a:
        v = val(e, st, x)
        if isinstance(v, z3.ExprRef) and v.sort() == S:
            src = v
    if src is None:
        raise Unsupported('parser input')
    f = z3.Function('parsed', S, e.ty.sort(okt))
    out = []
    for s, g_ in split(e, st, PARSE_OK(src)):
        if g_:
            out.append((s, Agg(dt, 0, [f(src)]) if not e.ty.pure(dt) else ok(e, dt, f(src))))
        else:
            out.append((s, Agg(dt, 1, [Obj('parseerror')])))
    return out


def drop_hook(e, st, v, ty):
    if ty is None:
        return
    t = ty
    if e.ty.is_adt(t, 'File') and e.ty[t]['crate'] != 'rsh':
        do_close(e, st, e.lower(v))
