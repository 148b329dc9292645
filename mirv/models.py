"""Contracts of the standard library, nix and the other dependencies (assumed; listed in the evidence)."""
import re, z3
from .core import Agg, Ref, Obj, Outcome, POISON, I, Disc, nth, but_last, seq_remove, seq_update
from .tys import Unsupported, NonPure, last

MODELS = []
INT = z3.IntSort()


def model(*pats):
    def d(f):
        for p in pats:
            MODELS.append((re.compile(p), f))
        return f
    return d


# ------------------------------------------------------------------ helpers
def split(e, st, cond):
    """fork on a condition -> [(state, bool)]"""
    c = z3.simplify(cond)
    if z3.is_true(c):
        return [(st, True)]
    if z3.is_false(c):
        return [(st, False)]
    out = []
    t, f = e.feasible(st, c), e.feasible(st, z3.Not(c))
    if t and f:
        s2 = st.fork()
        st.assume(c)
        s2.assume(z3.Not(c))
        return [(st, True), (s2, False)]
    if t:
        st.assume(c)
        return [(st, True)]
    st.assume(z3.Not(c))
    return [(st, False)]


def val(e, st, v):
    return e.deref_read(st, v)


def guard_ref(v):
    return Ref(('H', v.key, v.addr), (), None)


def term(e, st, v):
    return e.lower(e.deref_read(st, v))


def some(e, ty, v):
    return e.mk(ty, 1, [v])


def none(e, ty):
    return e.mk(ty, 0, [])


def ok(e, ty, v):
    return e.mk(ty, 0, [v])


def err(e, ty, v):
    return e.mk(ty, 1, [v])


def unit(e, ty):
    return e.mk(ty, None, [])


def optty(e, ty):
    return e.ty.targs(ty)[0]


def fresh_err(e, st, ty, base='err'):
    """fresh error value of a Result type"""
    return e.fresh_ty(st, e.ty.targs(ty)[1], base)


def result_fork(e, st, ty, okv, base='err', note=None):
    """an operation that may fail: Ok(okv) or Err(fresh); returns outcomes"""
    s2 = st.fork()
    out = [(st, ok(e, ty, okv if not callable(okv) else okv(st)))]
    ev = fresh_err(e, s2, ty, base)
    if note:
        s2.note(*note)
    out.append((s2, err(e, ty, ev)))
    return out


def is_seq(v):
    return isinstance(v, z3.ExprRef) and v.sort().kind() == z3.Z3_SEQ_SORT


def lenof(v):
    if isinstance(v, Agg):
        return I(len(v.fields))
    if isinstance(v, Obj) and v.kind == 'bytes':
        return I(len(v.b))
    return z3.Length(v)


def panic(st, *why):
    st.note('panic', *why)
    return Outcome('panic', st)


# ------------------------------------------------------------------ identity-like
@model(r'Clone>::clone$', r'ToOwned>::to_owned$', r'ToOwned for str>::to_owned$', r'^std::hint::must_use', r'String::as_str$', r'as_bytes$', r'String as .*Deref>::deref$',
       r'Vec<.*> as .*Deref>::deref$', r'Rc<.*> as .*Deref>::deref$', r'CString as .*Deref>::deref$', r'PathBuf as .*Deref>::deref$',
       r'^fragile::Fragile::<T>::get$', r'^fragile::Fragile::<T>::new$', r'^std::rc::Rc::<T>::new$', r'^std::path::Path::display$', r'clone::impls::<impl std::clone::Clone for .*>::clone$',
       r'Box<.*> as .*Deref>::deref$', r'AsRef<.*>>::as_ref$', r'Borrow<.*>>::borrow$', r'String::into_boxed_str$', r'into_owned$', r'^std::boxed::Box::<T>::new$', r'<.*Box<.*>>::new$')
def m_identity(e, st, fn, a):
    if fn['crate'] == 'rsh' and fn.get('blocks') and not fn['ndef'].endswith('Clone>::clone'):
        raise Unsupported('local function matched a std model: ' + fn['name'])
    v = val(e, st, a[0])
    return v


@model(r'Option::<T>::as_ref$')
def m_option_as_ref(e, st, fn, a):
    v, dt = val(e, st, a[0]), e.dest_ty
    if isinstance(v, z3.ExprRef) and e.ty.pure(dt) and e.ty.sort(dt) == v.sort():
        return v            # shared references are represented by the value they refer to
    if isinstance(v, Agg):
        return some(e, dt, v.fields[0]) if v.variant == 1 else none(e, dt)
    raise Unsupported('Option::as_ref')


@model(r'Vec<.*> as .*DerefMut>::deref_mut$', r'Box<.*> as .*DerefMut>::deref_mut$', r'String::as_mut_str$', r'Vec::<T, A>::as_mut_slice$', r'^<I as std::iter::IntoIterator>::into_iter$')
def m_ident_ref(e, st, fn, a):
    return a[0]


@model(r'^std::mem::forget', r'^core::mem::forget', r'Vec::<T, A>::reserve$', r'io::_eprint$')
def m_unit(e, st, fn, a):
    return unit(e, e.dest_ty)


@model(r'io::_print$')
def m_print(e, st, fn, a):
    if getattr(e, 'prints', False):
        st.note('print', fmt_string(e, st, a[0]))
    return unit(e, e.dest_ty)


@model(r'^std::path::Path::display$')
def m_display(e, st, fn, a):
    return term(e, st, a[0])


@model(r'panicking::panic_fmt', r'panicking::panic', r'unwrap_failed', r'expect_failed', r'panic_nounwind', r'panicking::', r'slice_index_fail', r'begin_panic')
def m_panic(e, st, fn, a):
    return panic(st, fn['nname'])


@model(r'panicking::(unreachable|unimplemented).*msg')
def m_panicmsg(e, st, fn, a):
    return Obj('fmtargs', parts=())


MODELS.insert(0, MODELS.pop())


@model(r'^std::process::exit$')
def m_exit(e, st, fn, a):
    return Outcome('exit', st, e.lower(a[0]))


# ------------------------------------------------------------------ Result / ControlFlow
def variant_split(e, st, v, ty):
    """-> [(state, variant index, payload fields)]"""
    if isinstance(v, Agg):
        return [(st, v.variant or 0, list(v.fields))]
    so = e.ty.sort(ty)
    n = so.num_constructors()
    out = []
    live = [i for i in range(n) if e.feasible(st, so.recognizer(i)(v))]
    for j, i in enumerate(live):
        s = st if j == len(live) - 1 else st.fork()
        s.assume(so.recognizer(i)(v))
        out.append((s, i, [e.ty.acc(ty, i, k, v) for k in range(so.constructor(i).arity())]))
    return out


@model(r'Result<.*> as std::ops::Try>::branch$', r'Option<.*> as std::ops::Try>::branch$')
def m_branch(e, st, fn, a):
    dt = e.dest_ty
    ty = e.arg_tys[0]
    isopt = 'Option' in fn['ndef'].split(' as ')[0]
    rty = e.ty.targs(dt)[0]    # residual type
    out = []
    for s, i, fs in variant_split(e, st, a[0], ty):
        good = (i == 1) if isopt else (i == 0)
        if good:
            out.append((s, e.mk(dt, 0, [fs[0]])))
        else:
            res = e.mk(rty, 0, []) if isopt else e.mk(rty, 1, [fs[0]])
            out.append((s, e.mk(dt, 1, [res])))
    return out


@model(r'FromResidual<.*>::from_residual$')
def m_resid(e, st, fn, a):
    dt = e.dest_ty
    if e.ty.is_adt(dt, 'Option'):
        return none(e, dt)
    src = e.arg_tys[0]
    v = a[0]
    if isinstance(v, Agg):
        x = v.fields[0]
    else:
        x = e.ty.acc(src, 1, 0, v)
    et = e.ty.targs(dt)[1]
    st_ = e.ty.targs(src)[1]
    if e.ty.canon(et) != e.ty.canon(st_):
        x = e.fresh_ty(st, et, 'converted_err')
    return e.mk(dt, 1, [x])


def eq_values(e, st, x, y, tx=None):
    x, y = val(e, st, x), val(e, st, y)
    x, y = e.lower(x), e.lower(y)
    if x.sort() != y.sort():
        raise Unsupported('== between %s and %s' % (x.sort(), y.sort()))
    return x == y


@model(r'PartialEq.*>::eq$', r'partial_eq::.*::eq$', r'PartialEq for str>::eq$', r'PartialEq.*>::ne$', r'cmp::PartialEq::ne$', r'cmp::PartialEq::eq$')
def m_eq(e, st, fn, a):
    neg = fn['ndef'].endswith('ne')
    if fn['crate'] == 'rsh' and fn.get('blocks'):
        if 'Process' in fn['ndef'] or 'Job ' in fn['ndef'] or '::Job as' in fn['ndef']:
            return e.run_fn(st, fn, a)
    # user-defined equality of Process and Job is by pid / job id
    ty = e.arg_tys[0] if e.arg_tys else None
    x, y = val(e, st, a[0]), val(e, st, a[1])
    if ty is not None:
        b = e.ty.strip(ty)
        if e.ty.kind(b) == 'adt' and e.ty[b]['crate'] == 'rsh' and last(e.ty[b]['name']) in ('Process', 'Job'):
            nm = 'pid' if last(e.ty[b]['name']) == 'Process' else 'job_id'
            for f in e.fns.values():
                if f.get('blocks') and f['ndef'].endswith('PartialEq>::eq') and last(e.ty[b]['name']) in f['ndef'].split(' as ')[0]:
                    outs = e.run_fn(st, f, [x, y])
                    if neg:
                        for o in outs:
                            if o.kind == 'ret':
                                o.value = z3.Not(e.lower(o.value))
                    return outs
    if isinstance(x, Agg) and isinstance(y, Agg) and x.variant != y.variant:
        r = z3.BoolVal(False)
    else:
        r = eq_values(e, st, x, y)
    return z3.Not(r) if neg else r


# ------------------------------------------------------------------ cells
def cell_key(e, i=0):
    t = e.ty.strip(e.arg_tys[i])
    if not e.ty.is_adt(t, 'RefCell', 'Cell'):
        raise Unsupported('RefCell expected, got ' + e.ty.s(t))
    return e.heap_key(e.ty.targs(t)[0])


@model(r'^std::cell::RefCell::<T>::new$')
def m_cell_new(e, st, fn, a):
    k = e.heap_key(e.ty.targs(e.dest_ty)[0])
    addr = e.alloc(st, k)
    st.heaps[k] = z3.Store(e.heap(st, k), addr, e.lower(a[0]))
    return addr


def do_borrow(e, st, key, addr, mut):
    """-> [(state, guard or None)]: None when the borrow is refused"""
    out = []
    conf = [b[2] == addr for b in st.borrows if b[1] == key and (mut or b[3])]
    if conf:
        br = split(e, st, z3.Or(conf))
    else:
        br = [(st, False)]
    for s, bad in br:
        if bad:
            out.append((s, None))
        else:
            gid = next(e.counter)
            s.borrows = s.borrows + ((gid, key, addr, mut),)
            out.append((s, Obj('guard', gid=gid, key=key, addr=addr, mut=mut)))
    return out


@model(r'^std::cell::RefCell::<T>::borrow(_mut)?$')
def m_borrow(e, st, fn, a):
    mut = fn['ndef'].endswith('_mut')
    key = cell_key(e)
    addr = term(e, st, a[0])
    r = []
    for s, g in do_borrow(e, st, key, addr, mut):
        r.append(panic(s, 'already borrowed', key) if g is None else (s, g))
    return r


@model(r'^std::cell::RefCell::<T>::try_borrow(_mut)?$')
def m_try_borrow(e, st, fn, a):
    mut = fn['ndef'].endswith('_mut')
    key, dt = cell_key(e), e.dest_ty
    addr = term(e, st, a[0])
    r = []
    for s, g in do_borrow(e, st, key, addr, mut):
        if g is None:
            r.append((s, Agg(dt, 1, [fresh_err(e, s, dt)])))
        else:
            r.append((s, Agg(dt, 0, [g])))
    return r


@model(r'^<std::cell::Ref<.*> as std::ops::Deref>::deref$', r'^<std::cell::RefMut<.*> as std::ops::Deref>::deref$')
def m_guard_deref(e, st, fn, a):
    g = val(e, st, a[0])
    return z3.Select(e.heap(st, g.key), g.addr)


@model(r'^<std::cell::RefMut<.*> as std::ops::DerefMut>::deref_mut$')
def m_guard_deref_mut(e, st, fn, a):
    g = val(e, st, a[0])
    return Ref(('H', g.key, g.addr), (), e.heap_types[g.key])


@model(r'Atomic.*::load$')
def m_load(e, st, fn, a):
    return val(e, st, a[0])


@model(r'Atomic.*::store$')
def m_store(e, st, fn, a):
    r = a[0]
    if not isinstance(r, Ref):
        raise Unsupported('atomic store through a snapshot')
    e.write(st, r.root, r.path, e.lower(a[1]))
    return unit(e, e.dest_ty)


# ------------------------------------------------------------------ Vec / slices
def vec_empty(e, ty):
    if e.ty.pure(ty):
        return z3.Empty(e.ty.sort(ty))
    return Agg(ty, None, [])


@model(r'^std::vec::Vec::<T>::new$', r'Vec::<T>::with_capacity$')
def m_vec_new(e, st, fn, a):
    return vec_empty(e, e.dest_ty)


@model(r'Vec::<T, A>::push$')
def m_push(e, st, fn, a):
    r = a[0]
    v = val(e, st, r)
    if isinstance(v, Agg):
        nv = Agg(v.ty, None, v.fields + (a[1],))
    else:
        nv = z3.Concat(v, z3.Unit(e.lower(a[1])))
    e.write(st, r.root, r.path, nv)
    return unit(e, e.dest_ty)


@model(r'Vec::<T, A>::len$', r'impl \[T\]>::len$')
def m_veclen(e, st, fn, a):
    return lenof(val(e, st, a[0]))


@model(r'Vec::<T, A>::is_empty$', r'impl \[T\]>::is_empty$')
def m_vecempty(e, st, fn, a):
    return lenof(val(e, st, a[0])) == 0


@model(r'Vec::<T, A>::append$')
def m_append(e, st, fn, a):
    x, y = a
    vx, vy = val(e, st, x), val(e, st, y)
    if isinstance(vx, Agg) and isinstance(vy, Agg):
        e.write(st, x.root, x.path, Agg(vx.ty, None, vx.fields + vy.fields))
        e.write(st, y.root, y.path, Agg(vy.ty, None, ()))
    else:
        vx, vy = e.lower(vx), e.lower(vy)
        e.write(st, x.root, x.path, z3.Concat(vx, vy))
        e.write(st, y.root, y.path, z3.Empty(vy.sort()))
    return unit(e, e.dest_ty)


@model(r'Vec::<T, A>::(remove|swap_remove)$')
def m_vecremove(e, st, fn, a):
    r, i = a[0], e.lower(a[1])
    v = e.lower(val(e, st, r))
    out = []
    for s, good in split(e, st, z3.And(i >= 0, i < z3.Length(v))):
        if not good:
            out.append(panic(s, 'Vec::remove out of bounds'))
            continue
        x = v[i]
        nv = seq_remove(v, i) if fn['ndef'].endswith('::remove') else but_last(seq_update(v, i, nth(v, z3.Length(v) - 1)))
        s.assume(z3.Length(nv) == z3.Length(v) - 1)
        e.write(s, r.root, r.path, nv)
        out.append((s, x))
    return out


@model(r'Vec::<T, A>::truncate$')
def m_vectruncate(e, st, fn, a):
    r = a[0]
    v = e.lower(val(e, st, r))
    n = e.lower(a[1])
    e.write(st, r.root, r.path, z3.If(n >= z3.Length(v), v, z3.Extract(v, z3.IntVal(0), n)))
    return [(st, unit(e, e.dest_ty))]


@model(r'Vec::<T, A>::pop$')
def m_vecpop(e, st, fn, a):
    r = a[0]
    dt = e.dest_ty
    v = e.lower(val(e, st, r))
    out = []
    for s, em in split(e, st, z3.Length(v) == 0):
        if em:
            out.append((s, none(e, dt)))
        else:
            x = nth(v, z3.Length(v) - 1)
            nv = but_last(v)
            e.write(s, r.root, r.path, nv)
            out.append((s, some(e, dt, x)))
    return out


@model(r'impl \[T\]>::first$', r'impl \[T\]>::last$')
def m_firstlast(e, st, fn, a):
    v = e.lower(val(e, st, a[0]))
    dt = e.dest_ty
    i = I(0) if fn['ndef'].endswith('first') else z3.Length(v) - 1
    return e.lower(z3.If(z3.Length(v) == 0, e.lower(none(e, dt)), e.lower(some(e, dt, nth(v, i)))))


@model(r'^std::vec::from_elem$')
def m_from_elem(e, st, fn, a):
    so = e.ty.sort(e.dest_ty)
    n = e.lower(a[1])
    v = e.fresh('repeat', so)
    st.assume(z3.Length(v) == n)
    k = z3.Int('k')
    st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), v[k] == e.lower(a[0]))))
    return v


@model(r'box_assume_init_into_vec_unsafe$')
def m_boxvec(e, st, fn, a):
    v = val(e, st, a[0])
    if isinstance(v, Obj) and v.kind == 'uninitbox':
        v = e.root_get(st, v.root)
    dt = e.dest_ty
    if isinstance(v, Agg):
        # MaybeUninit / ManuallyDrop wrappers around the array
        while isinstance(v, Agg) and e.ty.kind(v.ty) == 'adt' and not e.ty.is_adt(v.ty, 'Vec'):
            vs = [f for f in v.fields if f is not POISON]
            v = vs[-1]
        if isinstance(v, Agg):
            if e.ty.pure(dt):
                return e.lower(Agg(dt, None, v.fields))
            return Agg(dt, None, v.fields)
    return v


@model(r'Box::<T>::new_uninit$')
def m_new_uninit(e, st, fn, a):
    return POISON       # a box is its content


def bounds(e, st, v, i):
    return split(e, st, z3.And(i >= 0, i < lenof(v)))


def range_of(e, st, r, n):
    """(lo, hi) of a range value"""
    r = val(e, st, r)
    if isinstance(r, Agg):
        nm = last(e.ty[r.ty]['name'])
        f = [e.lower(x) for x in r.fields]
        if nm == 'Range':
            return f[0], f[1]
        if nm == 'RangeFrom':
            return f[0], n
        if nm == 'RangeTo':
            return I(0), f[0]
        if nm == 'RangeFull':
            return I(0), n
        if nm == 'RangeInclusive':
            return f[0], f[1] + 1
    if isinstance(r, Obj) and r.kind == 'range':
        return r.lo, r.hi + (1 if r.incl else 0)
    raise Unsupported('range %r' % (r,))


@model(r'Vec<.*> as .*Index(Mut)?<I>>::index(_mut)?$', r'Index(Mut)?<I> for \[T\]>::index(_mut)?$')
def m_index(e, st, fn, a):
    mut = fn['ndef'].endswith('_mut')
    v = val(e, st, a[0])
    i = val(e, st, a[1])
    dt = e.dest_ty
    if isinstance(i, (Agg, Obj)):
        v = e.lower(v)
        lo, hi = range_of(e, st, i, z3.Length(v))
        out = []
        for s, good in split(e, st, z3.And(lo >= 0, lo <= hi, hi <= z3.Length(v))):
            if good:
                out.append((s, z3.SubSeq(v, lo, hi - lo)))
            else:
                out.append(panic(s, 'slice index'))
        return out
    i = e.lower(i)
    out = []
    for s, good in bounds(e, st, v, i):
        if not good:
            out.append(panic(s, 'index out of bounds'))
        elif mut or (isinstance(a[0], Ref) and isinstance(v, Agg)):
            r = a[0]
            out.append((s, Ref(r.root, r.path + (('i', i),), e.ty[dt]['e'])))
        else:
            out.append((s, e.get_elem(v, ('i', i))))
    return out


# ------------------------------------------------------------------ iterators
def mk_iter(e, v, kind='iter', **kw):
    n = lenof(v)
    return Obj('iter', seq=v, pos=I(0), end=n, n=n, what=kind, **kw)


@model(r'impl \[T\]>::iter$', r"<&'a std::vec::Vec<T, A> as .*into_iter$", r"<&'a \[T\] as .*into_iter$", r"<&.*Vec<.*> as std::iter::IntoIterator>::into_iter$")
def m_iter(e, st, fn, a):
    if "&'a mut" in fn['ndef']:
        return m_iter_mut(e, st, fn, a)
    return mk_iter(e, val(e, st, a[0]))


@model(r'impl \[T\]>::iter_mut$', r"<&'a mut std::vec::Vec<T, A> as .*into_iter$", r"<&'a mut \[T\] as .*into_iter$")
def m_iter_mut(e, st, fn, a):
    r = a[0]
    v = val(e, st, r)
    n = lenof(v)
    return Obj('itermut', ref=r, seq=v, pos=I(0), end=n, n=n)


@model(r'<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$')
def m_vec_into_iter(e, st, fn, a):
    return mk_iter(e, val(e, st, a[0]))


def elem_at(e, st, it, i):
    if it.kind == 'itermut':
        r = it.ref
        cur = e.get_elem(val(e, st, r), ('i', i))
        if isinstance(cur, z3.ExprRef):
            # each element is yielded once and only reachable through the iterator: still the initial one
            st.assume(cur == e.get_elem(it.seq, ('i', i)))
        return Ref(r.root, r.path + (('i', i),), None)
    if it.what == 'chars':
        return z3.StrToCode(z3.SubString(it.seq, i, I(1)))
    if it.what == 'charindices':
        from . import strs
        o, c = strs.byte_offset(e, st, it.seq, i), strs.char_code(e, it.seq, i)
        strs.char_facts(e, st, it.seq, i)
        return Obj('pair', a=o, b=c)
    return e.get_elem(it.seq, ('i', i))


def adv(e, st, it, back=False):
    """-> [(state, iterator', item or None)]"""
    k = it.kind
    if k in ('iter', 'itermut'):
        out = []
        for s, more in split(e, st, it.pos < it.end):
            if not more:
                out.append((s, it, None))
            elif back:
                out.append((s, it.with_(end=it.end - 1), elem_at(e, s, it, it.end - 1)))
            else:
                out.append((s, it.with_(pos=it.pos + 1), elem_at(e, s, it, it.pos)))
        return out
    if k == 'rev':
        return [(s, it.with_(it=i2), x) for s, i2, x in adv(e, st, it.it, not back)]
    if k == 'enum':
        out = []
        for s, i2, x in adv(e, st, it.it, back):
            if x is None:
                out.append((s, it.with_(it=i2), None))
            else:
                c = it.cnt.n
                out.append((s, it.with_(it=i2, cnt=it.cnt.with_(n=c + 1)), Obj('pair', a=c, b=x)))
        return out
    if k == 'range':
        hi = it.hi + 1 if it.incl else it.hi
        out = []
        for s, more in split(e, st, it.lo < hi):
            if not more:
                out.append((s, it, None))
            elif back:
                out.append((s, it.with_(hi=it.hi - 1), hi - 1))
            else:
                out.append((s, it.with_(lo=it.lo + 1), it.lo))
        return out
    if k == 'mapiter':
        return map_adv(e, st, it, back)
    if k == 'map':
        out = []
        for s, i2, x in adv(e, st, it.it, back):
            if x is None:
                out.append((s, it.with_(it=i2), None))
            else:
                for o in call_closure(e, s, it.f, [x], it.fnid):
                    if o.kind != 'ret':
                        raise Unsupported('closure panics inside an iterator')
                    out.append((o.state, it.with_(it=i2), o.value))
        return out
    if k == 'split':
        from . import strs
        return strs.split_adv(e, st, it)
    raise Unsupported('iterator ' + k)


def map_adv(e, st, it, back=False):
    """iteration over a map: some entry not yet seen (it.seen), in key order when sorted"""
    m, seen = it.m, it.seen
    ks = m.sort().domain()
    vs = m.sort().range()
    is_set = vs == z3.BoolSort()
    k = e.fresh('key', ks)

    def present(mm, kk):
        return z3.Select(mm, kk) if is_set else vs.recognizer(1)(z3.Select(mm, kk))
    out = []
    s2 = st.fork()
    st.assume(present(m, k))
    st.assume(z3.Not(z3.Select(seen, k)))
    if back and not it.sorted:
        raise Unsupported('the last entry of a map whose keys are not compared')
    if it.sorted:
        q = z3.Const('q', ks)
        st.assume(z3.ForAll([q], z3.Implies(z3.And(present(m, q), z3.Not(z3.Select(seen, q))), q <= k if back else q >= k)))
    if e.feasible(st):
        if is_set or it.d.get('keys'):
            item = k
        elif it.ref is not None:
            r = it.ref
            item = Obj('pair', a=k, b=Ref(r.root, r.path + (('m', k),), None))
        else:
            item = Obj('pair', a=k, b=vs.accessor(1, 0)(z3.Select(m, k)))
        out.append((st, it.with_(seen=z3.Store(seen, k, z3.BoolVal(True)), last=k), item))
    if z3.is_K(seen):
        s2.assume(m == z3.K(ks, z3.BoolVal(False) if is_set else vs.constructor(0)()))
        if not e.feasible(s2):
            return out
    else:
        q = z3.Const('q', ks)
        s2.assume(z3.ForAll([q], z3.Implies(present(m, q), z3.Select(seen, q))))
    out.append((s2, it, None))
    return out


def item_val(e, ty, x):
    """wrap pairs produced by iterators into the tuple type"""
    if isinstance(x, Obj) and x.kind == 'pair':
        fts = e.ty[ty]['f']
        return e.mk(ty, None, [item_val(e, fts[0], x.a), item_val(e, fts[1], x.b)])
    return x


def call_closure(e, st, f, args, fnobj=None):
    f_ty = f.ty if isinstance(f, (Agg, Obj)) and hasattr(f, 'ty') else None
    if isinstance(f, Ref):
        fv = e.deref_read(st, f)
        f_ty = fv.ty
    if f_ty is None:
        raise Unsupported('call of %r' % (f,))
    inst = e.ty[f_ty].get('inst')
    if inst is None or inst not in e.fns:
        raise Unsupported('closure body of ' + e.ty.s(f_ty))
    callee = e.fns[inst]
    if e.ty.kind(f_ty) == 'fndef':
        return e.call_fn(st, callee, args)
    argts = callee['locals'][2:2 + len(args)]
    args = [item_val(e, t, x) for t, x in zip(argts, args)]
    self_ty = callee['locals'][1]
    if e.ty.kind(self_ty) == 'ref' and not e.ty[self_ty]['mut'] and isinstance(f, Ref):
        f = e.deref_read(st, f)
    return e.run_fn(st, callee, [f] + args)


def closure_at(e, st, f, it, j, fnid=None, wrap=None):
    """the boolean a pure closure yields for the element at position j, as a formula"""
    s = st.fork()
    base = len(s.pc)
    heaps = dict(s.heaps)
    n0 = e.fresh_count
    s.assume(z3.And(j >= it.pos, j < it.end))
    x = elem_at(e, s, it, j)
    k0 = len(s.pc)
    outs = call_closure(e, s, f, [x], fnid)
    if e.fresh_count != n0:
        raise Unsupported('closure with unspecified results')
    ps = []
    for o in outs:
        if o.kind != 'ret' or any(not same_heap(o.state.heaps.get(k), v) for k, v in heaps.items()) or len(o.state.borrows) != len(st.borrows):
            raise Unsupported('closure with effects')
        ps.append(z3.And(*o.state.pc[k0:], e.lower(o.value)))
    return z3.Or(*ps) if ps else z3.BoolVal(False)


def same_heap(a, b):
    return a is b or (a is not None and a.eq(b))


@model(r'slice::Iter<.*> as .*Iterator>::(any|all|find|position)(::<.*>)?$')
def m_iter_any(e, st, fn, a):
    what = re.search(r'::(any|all|find|position)(::<.*>)?$', fn['ndef']).group(1)
    r = a[0]
    it = val(e, st, r)
    if it.kind != 'iter':
        raise Unsupported(what + ' on ' + it.kind)
    q = z3.Int('el')
    phi = closure_at(e, st, a[1], it, q)
    if what == 'all':
        phi = z3.Not(phi)
    at = lambda t: z3.substitute(phi, (q, t))
    no = st.fork()
    k = e.fresh('first', INT)
    st.assume(z3.And(k >= it.pos, k < it.end, at(k)))
    if what != 'any' and what != 'all':
        st.assume(z3.ForAll([q], z3.Implies(z3.And(q >= it.pos, q < k), z3.Not(phi))))
    no.assume(z3.ForAll([q], z3.Implies(z3.And(q >= it.pos, q < it.end), z3.Not(phi))))
    out = []
    dt = e.dest_ty
    for s, hit in ((st, True), (no, False)):
        if not e.feasible(s):
            continue
        if isinstance(r, Ref):
            e.write(s, r.root, r.path, it.with_(pos=k + 1 if hit else it.end))
        if what in ('any', 'all'):
            v = z3.BoolVal(hit == (what == 'any'))
        elif not hit:
            v = none(e, dt)
        elif what == 'find':
            v = some(e, dt, item_val(e, optty(e, dt), elem_at(e, s, it, k)))
        else:
            v = some(e, dt, k - it.pos)
        out.append((s, v))
    return out


@model(r'slice::Iter(Mut)?<.*> as .*Iterator>::next$', r'Rev<I> as .*::next$', r'Enumerate<I> as .*::next$', r'vec::IntoIter<.*> as .*::next$', r'for std::ops::Range<A>>::next$',
       r'Chars<.*> as std::iter::Iterator>::next$', r'CharIndices<.*> as .*::next$', r'btree_map::Iter(Mut)?<.*> as .*::next$', r'hash_map::Iter(Mut)?<.*> as .*::next$', r'hash_set::Iter<.*> as .*::next$',
       r'str::SplitN?<.*> as .*::next$', r'SplitWhitespace<.*> as .*::next$', r'env::Vars as .*::next$', r'iter::Map<.*> as .*::next$', r'RangeInclusive<.*>.*::next$', r'DoubleEndedIterator>::next_back$', r'Keys<.*> as .*Iterator>::next$', r'Skip<.*> as .*Iterator>::next$')
def m_next(e, st, fn, a):
    r = a[0]
    dt = e.dest_ty
    it = val(e, st, r)
    rng = it if isinstance(it, Agg) and last(e.ty[it.ty]['name']).startswith('Range') else None
    if rng is not None:
        it = Obj('range', lo=e.lower(it.fields[0]), hi=e.lower(it.fields[1]), incl=False)
    out = []
    for s, i2, x in adv(e, st, it, fn['ndef'].endswith('next_back')):
        if not isinstance(r, Ref):
            raise Unsupported('next() on a snapshot')
        e.write(s, r.root, r.path, i2 if rng is None else Agg(rng.ty, rng.variant, [i2.lo, i2.hi]))
        if x is None:
            out.append((s, none(e, dt)))
        else:
            out.append((s, some(e, dt, item_val(e, optty(e, dt), x))))
    return out


@model(r'iter::Iterator::rev$')
def m_rev(e, st, fn, a):
    return Obj('rev', it=val(e, st, a[0]))


@model(r'iter::Iterator::enumerate$')
def m_enumerate(e, st, fn, a):
    return Obj('enum', it=val(e, st, a[0]), cnt=Obj('count', n=I(0)))


@model(r'iter::Iterator::(map|filter)$')
def m_mapf(e, st, fn, a):
    return Obj(fn['ndef'].split('::')[-1], it=val(e, st, a[0]), f=a[1], fnid=None)


@model(r'iter::Iterator::(skip)$')
def m_skip(e, st, fn, a):
    it = val(e, st, a[0])
    if it.kind != 'iter':
        raise Unsupported('skip')
    n = e.lower(a[1])
    return it.with_(pos=z3.If(it.pos + n <= it.end, it.pos + n, it.end))


@model(r'Vec::<.*>::drain$')
def m_drain(e, st, fn, a):
    """what is drained is gone from the vector: no one can see it before the iterator is dropped"""
    r = a[0]
    v = e.lower(val(e, st, r))
    lo, hi = range_of(e, st, a[1], z3.Length(v))
    out = []
    for s, good in split(e, st, z3.And(lo >= 0, lo <= hi, hi <= z3.Length(v))):
        if good:
            e.write(s, r.root, r.path, z3.simplify(z3.Concat(z3.SubSeq(v, I(0), lo), z3.SubSeq(v, hi, z3.Length(v) - hi))))
            out.append((s, mk_iter(e, z3.SubSeq(v, lo, hi - lo))))
        else:
            out.append(panic(s, 'slice index'))
    return out


JOIN = {}


def join_fn(so):
    """the texts of a sequence, one behind the other with a separator between them"""
    k = so.sexpr()
    if k not in JOIN:
        JOIN[k] = z3.Function('join', so, z3.StringSort(), z3.StringSort())
    return JOIN[k]


@model(r'impl \[T\]>::join(::<.*>)?$')
def m_join(e, st, fn, a):
    v = term(e, st, a[0])
    if v.sort() != z3.SeqSort(z3.StringSort()):
        raise Unsupported('join')
    return join_fn(v.sort())(v, term(e, st, a[1]))


@model(r'RangeInclusive::<Idx>::new$')
def m_rincl(e, st, fn, a):
    return Obj('range', lo=e.lower(a[0]), hi=e.lower(a[1]), incl=True)


# ------------------------------------------------------------------ maps
def opt_of_map(e, m):
    return m.sort().range()


def mget(m, k):
    return z3.Select(m, k)


@model(r'(HashMap|BTreeMap)::<K, V.*>::new$', r'(HashMap|BTreeMap)<.*> as .*Default>::default$')
def m_map_new(e, st, fn, a):
    so = e.ty.sort(e.dest_ty)
    return z3.K(so.domain(), so.range().constructor(0)())


@model(r'HashSet::<T>::new$', r'HashSet<.*> as .*Default>::default$')
def m_set_new(e, st, fn, a):
    so = e.ty.sort(e.dest_ty)
    return z3.K(so.domain(), z3.BoolVal(False))


@model(r'(HashMap|BTreeMap)::<K, V.*>::get$')
def m_map_get(e, st, fn, a):
    m, k = term(e, st, a[0]), term(e, st, a[1])
    o = m.sort().range()
    dt = e.dest_ty
    x = z3.Select(m, k)
    if isinstance(a[0], Ref) and False:
        pass
    return z3.If(o.recognizer(1)(x), e.lower(some(e, dt, o.accessor(1, 0)(x))), e.lower(none(e, dt)))


@model(r'(HashMap|BTreeMap)::<K, V.*>::contains_key$')
def m_map_contains(e, st, fn, a):
    m, k = term(e, st, a[0]), term(e, st, a[1])
    return m.sort().range().recognizer(1)(z3.Select(m, k))


@model(r'(HashMap|BTreeMap)::<K, V.*>::insert$')
def m_map_insert(e, st, fn, a):
    r = a[0]
    m, k, v = term(e, st, r), e.lower(val(e, st, a[1])), e.lower(a[2])
    o = m.sort().range()
    dt = e.dest_ty
    old = z3.Select(m, k)
    e.write(st, r.root, r.path, z3.Store(m, k, o.constructor(1)(v)))
    return z3.If(o.recognizer(1)(old), e.lower(some(e, dt, o.accessor(1, 0)(old))), e.lower(none(e, dt)))


@model(r'(HashMap|BTreeMap)::<K, V.*>::entry$')
def m_map_entry(e, st, fn, a):
    return Obj('entry', ref=a[0], key=e.lower(val(e, st, a[1])))


@model(r'Entry::<.*>::or_insert$')
def m_entry_or_insert(e, st, fn, a):
    r, k, v = a[0].ref, a[0].key, e.lower(a[1])
    m = term(e, st, r)
    o = m.sort().range()
    old = z3.Select(m, k)
    e.write(st, r.root, r.path, z3.Store(m, k, z3.If(o.recognizer(1)(old), old, o.constructor(1)(v))))
    # the reference to the entry: known only as such (using it is not supported)
    return Obj('entryref')


@model(r'(HashMap|BTreeMap)::<K, V.*>::remove$')
def m_map_remove(e, st, fn, a):
    r = a[0]
    m, k = term(e, st, r), e.lower(val(e, st, a[1]))
    o = m.sort().range()
    dt = e.dest_ty
    old = z3.Select(m, k)
    e.write(st, r.root, r.path, z3.Store(m, k, o.constructor(0)()))
    return z3.If(o.recognizer(1)(old), e.lower(some(e, dt, o.accessor(1, 0)(old))), e.lower(none(e, dt)))


@model(r'(HashMap|BTreeMap)::<K, V.*>::clear$', r'HashSet::<T.*>::clear$')
def m_map_clear(e, st, fn, a):
    r = a[0]
    so = term(e, st, r).sort()
    z = z3.BoolVal(False) if so.range() == z3.BoolSort() else so.range().constructor(0)()
    e.write(st, r.root, r.path, z3.K(so.domain(), z))
    return unit(e, e.dest_ty)


@model(r'(HashMap|BTreeMap)::<K, V.*>::is_empty$')
def m_map_is_empty(e, st, fn, a):
    m = term(e, st, a[0])
    return m == z3.K(m.sort().domain(), m.sort().range().constructor(0)())


def card(m):
    return z3.Function('card_' + re.sub(r'\W', '_', str(m.sort())), m.sort(), z3.IntSort())(m)


@model(r'(HashMap|BTreeMap)::<K, V.*>::len$')
def m_map_len(e, st, fn, a):
    m = term(e, st, a[0])
    c = card(m)
    st.assume(c >= 0)
    st.assume((c == 0) == (m == z3.K(m.sort().domain(), m.sort().range().constructor(0)())))
    return c


@model(r'HashSet::<T.*>::contains$')
def m_set_contains(e, st, fn, a):
    return z3.Select(term(e, st, a[0]), term(e, st, a[1]))


@model(r'HashSet::<T.*>::insert$')
def m_set_insert(e, st, fn, a):
    r = a[0]
    m, k = term(e, st, r), term(e, st, a[1])
    e.write(st, r.root, r.path, z3.Store(m, k, z3.BoolVal(True)))
    return z3.Not(z3.Select(m, k))


@model(r'HashSet::<T.*>::remove$')
def m_set_remove(e, st, fn, a):
    r = a[0]
    m, k = term(e, st, r), term(e, st, a[1])
    e.write(st, r.root, r.path, z3.Store(m, k, z3.BoolVal(False)))
    return z3.Select(m, k)


@model(r'(HashMap|BTreeMap)::<K, V.*>::iter(_mut)?$', r"<&'a std::collections::HashMap<.*into_iter$", r'HashSet::<T.*>::iter$', r'BTreeMap::<K, V.*>::keys$', r'HashMap::<K, V.*>::keys$')
def m_map_iter(e, st, fn, a):
    m = term(e, st, a[0])
    ks = m.sort().domain()
    return Obj('mapiter', m=m, seen=z3.K(ks, z3.BoolVal(False)), sorted=('BTree' in fn['ndef'] and ks == z3.IntSort()),
               ref=a[0] if fn['ndef'].endswith('iter_mut') else None, last=e.fresh('nokey', ks), keys=fn['ndef'].endswith('keys'))


@model(r'btree_map::Keys<.*> as .*Iterator>::(last|max)$')
def m_keys_last(e, st, fn, a):
    it = val(e, st, a[0])
    m, dt = it.m, e.dest_ty
    o = m.sort().range()
    out = []
    for s, em in split(e, st, m == z3.K(m.sort().domain(), o.constructor(0)())):
        if em:
            out.append((s, none(e, dt)))
        else:
            k = e.fresh('lastkey', m.sort().domain())
            q = z3.Const('q', m.sort().domain())
            s.assume(o.recognizer(1)(z3.Select(m, k)))
            s.assume(z3.ForAll([q], z3.Implies(o.recognizer(1)(z3.Select(m, q)), q <= k)))
            out.append((s, some(e, dt, k)))
    return out


@model(r'^<&?[ui](size|8|16|32|64) as std::ops::Add<&?[ui](size|8|16|32|64)>>::add$', r"^<&'a [ui](size|8|16|32|64) as std::ops::Add<.*>>::add$")
def m_ref_add(e, st, fn, a):
    return term(e, st, a[0]) + term(e, st, a[1])


@model(r'BTreeMap::<K, V.*>::(first|last)_key_value$')
def m_key_value(e, st, fn, a):
    m = term(e, st, a[0])
    if m.sort().domain() != z3.IntSort():
        raise Unsupported('order of the keys of a map')
    it = Obj('mapiter', m=m, seen=z3.K(z3.IntSort(), z3.BoolVal(False)), sorted=True, ref=None, last=e.fresh('nokey', z3.IntSort()), keys=False)
    dt = e.dest_ty
    return [(s, none(e, dt) if x is None else some(e, dt, item_val(e, optty(e, dt), x))) for s, _, x in map_adv(e, st, it, 'last' in fn['ndef'])]


@model(r'(btree_map|hash_map)::(Keys|Values|Iter)<.*> as .*Iterator>::count$')
def m_map_count(e, st, fn, a):
    it = val(e, st, a[0])
    if not (it.kind == 'mapiter' and z3.simplify(it.seen == z3.K(it.m.sort().domain(), z3.BoolVal(False))).eq(z3.BoolVal(True))):
        raise Unsupported('count of a part of a map')
    c = card(it.m)
    st.assume(c >= 0)
    st.assume((c == 0) == (it.m == z3.K(it.m.sort().domain(), it.m.sort().range().constructor(0)())))
    return c


# ------------------------------------------------------------------ formatting
@model(r'fmt::Arguments::<.*>::from_str$')
def m_args_str(e, st, fn, a):
    return Obj('fmtargs', parts=(('lit', val(e, st, a[0])),))


@model(r'fmt::rt::Argument::<.*>::new_(display|debug|lower_hex|upper_hex).*$')
def m_argument(e, st, fn, a):
    return Obj('fmtarg', v=a[0], ty=e.arg_tys[0], how='display' if 'display' in fn['ndef'] else 'debug')


@model(r'fmt::Arguments::<.*>::new$')
def m_args_new(e, st, fn, a):
    t = val(e, st, a[0])
    if isinstance(t, Obj) and t.kind == 'bytes':
        b = t.b
    else:
        raise Unsupported('format template')
    av = val(e, st, a[1])
    args = av.fields
    parts, i, nxt = [], 0, 0
    while True:
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            parts.append(('lit', e.strval(b[i:i + n].decode())))
            i += n
        elif n == 0x80:
            ln = b[i] | b[i + 1] << 8
            i += 2
            parts.append(('lit', e.strval(b[i:i + ln].decode())))
            i += ln
        else:
            opts = n & 0x3f
            plain = True
            if opts & 1:
                i += 4; plain = False
            if opts & 2:
                i += 2; plain = False
            if opts & 4:
                i += 2; plain = False
            if opts & 8:
                nxt = b[i] | b[i + 1] << 8
                i += 2
            parts.append(('arg', args[nxt], plain))
            nxt += 1
    return Obj('fmtargs', parts=tuple(parts))


def itos(x):
    c = z3.simplify(x)
    return z3.If(x >= 0, z3.IntToStr(x), z3.Concat(z3.StringVal('-'), z3.IntToStr(-x)))


def fmt_value(e, st, v, ty, how):
    b = e.ty.strip(ty)
    v = val(e, st, v)
    if isinstance(v, Obj) and v.kind == 'guard':
        v = z3.Select(e.heap(st, v.key), v.addr)
        b = e.heap_types[[k for k in e.heap_types if k][0]] if False else b
        how = how + '_guard'
    if isinstance(v, (Obj, Ref)) or v is POISON:
        return e.fresh('fmt', z3.StringSort())
    x = e.lower(v)
    c = e.ty.canon(b)
    if how == 'display':
        if x.sort() == z3.StringSort():
            return x
        if e.ty.kind(b) == 'int':
            nn = not e.ty[b]['sg']
            if nn and e.decimal:
                num, dec = e.decimal
                st.assume(z3.Implies(x >= 0, z3.And(num(dec(x)) == x, z3.Length(dec(x)) > 0)))
                return dec(x)
            if nn and not z3.is_int_value(x):
                st.assume(z3.And(z3.StrToInt(z3.IntToStr(x)) == x, z3.Length(z3.IntToStr(x)) > 0))
            return z3.IntToStr(x) if nn else itos(x)
        if e.ty.kind(b) == 'char':
            return z3.StrFromCode(x)
        if e.ty.is_adt(b, 'Pid'):
            return itos(e.ty.acc(b, 0, 0, x))
    f = z3.Function('%s_%s' % (how, re.sub(r'\W', '_', c)), x.sort(), z3.StringSort())
    return f(x)


def fmt_string(e, st, args):
    args = val(e, st, args)
    ps = []
    for p in args.parts:
        if p[0] == 'lit':
            ps.append(p[1])
        else:
            fa = val(e, st, p[1])
            if not p[2]:
                ps.append(e.fresh('fmt', z3.StringSort()))
            else:
                ps.append(fmt_value(e, st, fa.v, fa.ty, fa.how))
    if not ps:
        return z3.StringVal('')
    return ps[0] if len(ps) == 1 else z3.Concat(*ps)


@model(r'^(std|alloc)::fmt::format$', r'^std::fmt::format::')
def m_format(e, st, fn, a):
    return fmt_string(e, st, a[0])


@model(r'string::ToString>::to_string$')
def m_to_string(e, st, fn, a):
    return fmt_value(e, st, a[0], e.arg_tys[0], 'display')


@model(r'Formatter::<.*>::write_(fmt|str)$', r'Formatter::<.*>::debug_')
def m_wfmt(e, st, fn, a):
    if getattr(e, 'prints', False) and fn['ndef'].endswith('write_fmt'):
        st.note('print', fmt_string(e, st, a[1]))
    return e.mk(e.dest_ty, 0, [unit(e, e.ty.targs(e.dest_ty)[0])]) if e.ty.targs(e.dest_ty) else e.fresh_ty(st, e.dest_ty)


# ------------------------------------------------------------------ conversions
@model(r'TryInto<U>>::try_into$', r'TryFrom<.*>>::try_from$')
def m_try(e, st, fn, a):
    dt = e.dest_ty
    t = e.ty.targs(dt)[0]
    x = e.lower(a[0])
    if e.ty.kind(t) == 'int':
        w, sg = e.ty[t]['w'], e.ty[t]['sg']
        lo, hi = (-(2 ** (w - 1)), 2 ** (w - 1)) if sg else (0, 2 ** w)
        good = z3.And(x >= lo, x < hi)
    elif e.ty.clike(t):
        good = z3.Or([x == I(int(v['disc'])) for v in e.ty[t]['v']])
    else:
        raise Unsupported('try_into ' + e.ty.s(t))
    out = []
    for s, g in split(e, st, good):
        out.append((s, ok(e, dt, x)) if g else (s, err(e, dt, fresh_err(e, s, dt))))
    return out


@model(r'io::error::<impl std::io::Error>::new$', r'io::Error::new$', r'io::error::<impl .*Error>::other')
def m_ioerr(e, st, fn, a):
    return e.fresh_ty(st, e.dest_ty, 'ioerror')


@model(r'io::error::<impl std::io::Error>::kind$', r'io::Error::kind$')
def m_iokind(e, st, fn, a):
    # (any kind: nothing is assumed about the errors of the system)
    return e.fresh_ty(st, e.dest_ty, 'kind')


@model(r'lazy_static::lazy::Lazy::<T>::get$')
def m_lazy(e, st, fn, a):
    dt = e.ty.strip(e.dest_ty)
    nm = 'lazy_' + re.sub(r'\W', '_', e.ty.canon(dt))
    return z3.Const(nm, e.ty.sort(dt))
