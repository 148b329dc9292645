"""String operations (z3 sequence theory; byte offsets through boff/cidx)."""
import re, z3
from .core import Agg, Ref, Obj, Outcome, POISON, I
from .tys import Unsupported, last
from .models import model, val, term, split, some, none, unit, panic, ok, err, fresh_err, mk_iter, range_of, adv, call_closure, result_fork

S = z3.StringSort()
BOFF = z3.Function('byte_offset', S, z3.IntSort(), z3.IntSort())
CIDX = z3.Function('char_index', S, z3.IntSort(), z3.IntSort())
U8LEN = z3.Function('len_utf8', z3.IntSort(), z3.IntSort())
BLEN = z3.Function('byte_len', S, z3.IntSort())
WS = z3.Function('is_whitespace', z3.IntSort(), z3.BoolSort())
TRIM = z3.Function('str_trim', S, S)
SPLITWS = z3.Function('split_whitespace', S, z3.SeqSort(S))
PARSE_OK = z3.Function('parse_i32_ok', S, z3.BoolSort())
PARSE_I = z3.Function('parse_i32', S, z3.IntSort())
JOIN = z3.Function('join', z3.SeqSort(S), S, S)


def char_code(e, s, i):
    return e.opaque_text[0](s, i) if e.opaque_text else z3.StrToCode(z3.SubString(s, i, I(1)))


def piece(e, s, i, j):
    return e.opaque_text[1](s, i, j) if e.opaque_text else z3.SubString(s, i, j - i)


def byte_offset(e, st, s, i):
    o = BOFF(s, i)
    st.assume(CIDX(s, o) == i)
    st.assume(o >= i)
    if z3.is_int_value(z3.simplify(i)) and z3.simplify(i).as_long() == 0:
        st.assume(o == 0)
    return o


def char_facts(e, st, s, i):
    """byte_offset(i+1) = byte_offset(i) + len_utf8(char i)"""
    c = char_code(e, s, i)
    st.assume(BOFF(s, i + 1) == BOFF(s, i) + U8LEN(c))
    st.assume(CIDX(s, BOFF(s, i + 1)) == i + 1)
    st.assume(z3.And(U8LEN(c) >= 1, U8LEN(c) <= 4))
    st.assume(z3.Implies(c < 128, U8LEN(c) == 1))


def at(s, i):
    return z3.SubString(s, i, I(1))


def pattern(e, st, p):
    """pattern argument -> ('str', term) | ('fn', closure)"""
    p = val(e, st, p)
    if isinstance(p, z3.ExprRef):
        if p.sort() == S:
            return p
        if p.sort() == z3.IntSort():
            return z3.StrFromCode(p) if not z3.is_int_value(z3.simplify(p)) else e.strval(chr(z3.simplify(p).as_long()))
    raise Unsupported('string pattern %r' % (p,))


@model(r'impl str>::contains$')
def m_contains(e, st, fn, a):
    return z3.Contains(term(e, st, a[0]), pattern(e, st, a[1]))


@model(r'impl str>::starts_with$')
def m_starts(e, st, fn, a):
    return z3.PrefixOf(pattern(e, st, a[1]), term(e, st, a[0]))


@model(r'impl str>::ends_with$')
def m_ends(e, st, fn, a):
    return z3.SuffixOf(pattern(e, st, a[1]), term(e, st, a[0]))


@model(r'impl str>::len$', r'String::len$')
def m_len(e, st, fn, a):
    s = term(e, st, a[0])
    if z3.is_string_value(s):
        return I(len(s.as_string().encode()))
    n = BOFF(s, z3.Length(s))
    st.assume(n >= z3.Length(s))
    st.assume((n == 0) == (z3.Length(s) == 0))
    st.assume(CIDX(s, n) == z3.Length(s))
    return n


@model(r'impl str>::is_empty$', r'String::is_empty$')
def m_isempty(e, st, fn, a):
    return z3.Length(term(e, st, a[0])) == 0


@model(r'(^|::)String::new$', r'String as .*Default>::default$')
def m_new(e, st, fn, a):
    return z3.StringVal('')


@model(r'String::push_str$', r'AddAssign<&str>>::add_assign$')
def m_push_str(e, st, fn, a):
    r = a[0]
    e.write(st, r.root, r.path, z3.Concat(term(e, st, r), term(e, st, a[1])))
    return unit(e, e.dest_ty)


@model(r'String::push$')
def m_push_ch(e, st, fn, a):
    r = a[0]
    e.write(st, r.root, r.path, z3.Concat(term(e, st, r), z3.StrFromCode(e.lower(a[1]))))
    return unit(e, e.dest_ty)


@model(r'String as std::ops::Add<&str>>::add$')
def m_add(e, st, fn, a):
    return z3.Concat(term(e, st, a[0]), term(e, st, a[1]))


@model(r'From<&str>>::from$', r'From<.*String>>::from$', r'String as .*From<.*>>::from$')
def m_from(e, st, fn, a):
    v = val(e, st, a[0])
    if isinstance(v, z3.ExprRef) and v.sort() == S and e.ty.sort(e.dest_ty) == S:
        return v
    raise Unsupported('From conversion')


@model(r'impl str>::chars$')
def m_chars(e, st, fn, a):
    s = term(e, st, a[0])
    return Obj('iter', seq=s, pos=I(0), end=z3.Length(s), n=z3.Length(s), what='chars')


@model(r'impl str>::char_indices$')
def m_char_indices(e, st, fn, a):
    s = term(e, st, a[0])
    return Obj('iter', seq=s, pos=I(0), end=z3.Length(s), n=z3.Length(s), what='charindices')


@model(r"str::Chars::<'a>::as_str$")
def m_chars_as_str(e, st, fn, a):
    it = val(e, st, a[0])
    return z3.SubString(it.seq, it.pos, it.end - it.pos)


@model(r'impl str>::trim$')
def m_trim(e, st, fn, a):
    return TRIM(term(e, st, a[0]))


@model(r'impl str>::split$')
def m_split(e, st, fn, a):
    return Obj('split', rest=term(e, st, a[0]), sep=pattern(e, st, a[1]), done=z3.BoolVal(False), src=term(e, st, a[0]), left=None)


@model(r'impl str>::splitn$')
def m_splitn(e, st, fn, a):
    n = z3.simplify(e.lower(a[1]))
    if not z3.is_int_value(n):
        raise Unsupported('splitn count')
    return Obj('split', rest=term(e, st, a[0]), sep=pattern(e, st, a[2]), done=z3.BoolVal(n.as_long() == 0), src=term(e, st, a[0]), left=n.as_long())


def split_adv(e, st, it):
    out = []
    for s, d in split(e, st, it.done):
        if d:
            out.append((s, it, None))
            continue
        if it.left == 1:
            out.append((s, it.with_(done=z3.BoolVal(True)), it.rest))
            continue
        for s2, has in split(e, s, z3.Contains(it.rest, it.sep)):
            if has:
                i = z3.IndexOf(it.rest, it.sep, I(0))
                head = z3.SubString(it.rest, I(0), i)
                tail = z3.SubString(it.rest, i + z3.Length(it.sep), z3.Length(it.rest) - i - z3.Length(it.sep))
                s2.assume(i >= 0)
                s2.assume(it.rest == z3.Concat(head, it.sep, tail))
                s2.assume(z3.Not(z3.Contains(head, it.sep)))
                out.append((s2, it.with_(rest=tail, left=None if it.left is None else it.left - 1), head))
            else:
                out.append((s2, it.with_(done=z3.BoolVal(True)), it.rest))
    return out


SPLIT = z3.Function('split_all', S, S, z3.SeqSort(S))


@model(r'impl str>::split_whitespace$')
def m_splitws(e, st, fn, a):
    v = SPLITWS(term(e, st, a[0]))
    return mk_iter(e, v)


@model(r'impl str>::parse$')
def m_parse(e, st, fn, a):
    dt = e.dest_ty
    s = term(e, st, a[0])
    t = e.ty.targs(dt)[0]
    if e.ty.kind(t) != 'int':
        raise Unsupported('parse')
    nm = e.ty.canon(t)
    okf = z3.Function('parse_%s_ok' % nm, S, z3.BoolSort())
    vf = z3.Function('parse_%s' % nm, S, z3.IntSort())
    out = []
    for s2, g in split(e, st, okf(s)):
        if g:
            e.range_facts(s2, vf(s), t)
            m = re.match(r'([iu])(\d+)$', nm)
            if m:
                b = int(m[2])
                s2.assume(z3.And(vf(s) <= I(2 ** (b - (m[1] == 'i')) - 1), vf(s) >= I(-2 ** (b - 1) if m[1] == 'i' else 0)))
            out.append((s2, ok(e, dt, vf(s))))
        else:
            out.append((s2, err(e, dt, fresh_err(e, s2, dt))))
    return out


@model(r'impl char>::is_whitespace$')
def m_ws(e, st, fn, a):
    c = e.lower(a[0])
    st.assume(z3.Implies(z3.And(c > 32, c < 127), z3.Not(WS(c))))
    st.assume(z3.Implies(z3.Or(c == 32, c == 9, c == 10, c == 13, c == 11, c == 12), WS(c)))
    return WS(c)


ASCII = {'is_ascii': ((0, 127),), 'is_ascii_whitespace': ((9, 10), (12, 13), (32, 32)), 'is_ascii_digit': ((48, 57),), 'is_ascii_alphabetic': ((65, 90), (97, 122)), 'is_ascii_alphanumeric': ((48, 57), (65, 90), (97, 122)),
         'is_ascii_uppercase': ((65, 90),), 'is_ascii_lowercase': ((97, 122),), 'is_ascii_punctuation': ((33, 47), (58, 64), (91, 96), (123, 126)), 'is_ascii_control': ((0, 31), (127, 127)), 'is_ascii_graphic': ((33, 126),)}


@model(r'impl char>::is_ascii(_[a-z]+)?$')
def m_ascii(e, st, fn, a):
    c = term(e, st, a[0])
    n = fn['ndef'].split('::')[-1]
    if n not in ASCII:
        raise Unsupported(n)
    return z3.Or(*[z3.And(c >= x, c <= y) for x, y in ASCII[n]])


@model(r'impl char>::(is_alphanumeric|is_alphabetic|is_numeric|is_control|is_uppercase|is_lowercase)$')
def m_class(e, st, fn, a):
    c = term(e, st, a[0])
    n = fn['ndef'].split('::')[-1]
    f = z3.Function('char_' + n, z3.IntSort(), z3.BoolSort())
    # what the predicates are for ASCII characters
    k = {'is_alphanumeric': 'is_ascii_alphanumeric', 'is_alphabetic': 'is_ascii_alphabetic', 'is_numeric': 'is_ascii_digit', 'is_control': 'is_ascii_control', 'is_uppercase': 'is_ascii_uppercase', 'is_lowercase': 'is_ascii_lowercase'}[n]
    st.assume(z3.Implies(c < 128, f(c) == z3.Or(*[z3.And(c >= x, c <= y) for x, y in ASCII[k]])))
    return f(c)


@model(r'impl char>::len_utf8$')
def m_u8(e, st, fn, a):
    c = e.lower(a[0])
    st.assume(z3.And(U8LEN(c) >= 1, U8LEN(c) <= 4))
    return U8LEN(c)


@model(r'impl char>::to_digit$')
def m_digit(e, st, fn, a):
    c = e.lower(a[0])
    dt = e.dest_ty
    r = z3.simplify(e.lower(a[1]))
    if not z3.is_int_value(r) or r.as_long() != 10:
        raise Unsupported('to_digit radix')
    return z3.If(z3.And(c >= 48, c <= 57), e.lower(some(e, dt, c - 48)), e.lower(none(e, dt)))


@model(r'iter::Iterator::nth$')
def m_nth(e, st, fn, a):
    r = a[0]
    it = val(e, st, r)
    dt = e.dest_ty
    if it.kind != 'iter':
        raise Unsupported('nth')
    n = e.lower(a[1])
    from .models import elem_at
    out = []
    for s, g in split(e, st, it.pos + n < it.end):
        if g:
            x = elem_at(e, s, it, it.pos + n)
            e.write(s, r.root, r.path, it.with_(pos=it.pos + n + 1))
            out.append((s, some(e, dt, x)))
        else:
            e.write(s, r.root, r.path, it.with_(pos=it.end))
            out.append((s, none(e, dt)))
    return out


@model(r'Index<I> for str>::index$', r'String as .*Index<.*>>::index$')
def m_str_index(e, st, fn, a):
    s = term(e, st, a[0])
    lo, hi = range_of(e, st, a[1], BOFF(s, z3.Length(s)))
    if 'RangeFrom' in e.ty.s(e.arg_tys[1]) :
        st.assume(CIDX(s, BOFF(s, z3.Length(s))) == z3.Length(s))
    if z3.is_int_value(z3.simplify(lo)) and z3.simplify(lo).as_long() == 0:
        st.assume(z3.And(BOFF(s, I(0)) == 0, CIDX(s, I(0)) == 0))
    ci, cj = CIDX(s, lo), CIDX(s, hi)
    good = z3.And(BOFF(s, ci) == lo, BOFF(s, cj) == hi, 0 <= ci, ci <= cj, cj <= z3.Length(s))
    out = []
    for s2, g in split(e, st, good):
        if g:
            out.append((s2, piece(e, s, ci, cj)))
        else:
            out.append(panic(s2, 'str index not on a character boundary'))
    return out


@model(r'slice::<impl \[T\]>::join$', r'impl \[S\]>::join$')
def m_join(e, st, fn, a):
    return JOIN(term(e, st, a[0]), term(e, st, a[1]))


@model(r'iter::Iterator::collect$')
def m_collect(e, st, fn, a):
    it = val(e, st, a[0])
    dt = e.dest_ty
    so = e.ty.sort(dt)
    # maps that only turn &str into String are the identity on the model
    while isinstance(it, Obj) and it.kind == 'map':
        f = it.f
        fty = f.ty
        inst = e.ty[fty].get('inst')
        body = e.fns.get(inst)
        probe = e.fresh('probe', S)
        s2 = st.fork()
        base = it.it
        try:
            outs = call_closure(e, s2, f, [probe])
        except Exception as ex:
            raise Unsupported('collect over map: %s' % ex)
        if len(outs) == 1 and outs[0].kind == 'ret' and isinstance(outs[0].value, z3.ExprRef) and outs[0].value.eq(probe):
            it = base
        else:
            raise Unsupported('collect over a map that is not the identity')
    if not isinstance(it, Obj):
        raise Unsupported('collect')
    if it.kind == 'iter' and it.what == 'chars' and so == S:
        return z3.SubString(it.seq, it.pos, it.end - it.pos)
    if it.kind == 'iter' and it.what == 'iter' and isinstance(it.seq, z3.ExprRef) and it.seq.sort() == so:
        p = z3.simplify(it.pos)
        if z3.is_int_value(p) and p.as_long() == 0 and it.end.eq(it.n):
            return it.seq
        return z3.SubSeq(it.seq, it.pos, it.end - it.pos)
    if it.kind == 'split' and so.kind() == z3.Z3_SEQ_SORT and it.left == 2 and z3.is_false(z3.simplify(it.done)):
        out = []
        i = z3.IndexOf(it.rest, it.sep, I(0))
        L = z3.Length(it.sep)
        for s, has in split(e, st, z3.Contains(it.rest, it.sep)):
            if has:
                head, tail = z3.SubString(it.rest, I(0), i), z3.SubString(it.rest, i + L, z3.Length(it.rest) - i - L)
                s.assume(i >= 0)
                s.assume(it.rest == z3.Concat(head, it.sep, tail))
                s.assume(z3.Not(z3.Contains(head, it.sep)))
                out.append((s, z3.Concat(z3.Unit(head), z3.Unit(tail))))
            else:
                out.append((s, z3.Unit(it.rest)))
        return out
    if it.kind == 'split' and it.left is None and so.kind() == z3.Z3_SEQ_SORT and z3.is_false(z3.simplify(it.done)):
        v = SPLIT(it.rest, it.sep)
        # facts about str::split that the code under contract relies on
        has = z3.Contains(it.rest, it.sep)
        i = z3.IndexOf(it.rest, it.sep, I(0))
        L = z3.Length(it.sep)
        tail = z3.SubString(it.rest, i + L, z3.Length(it.rest) - i - L)
        st.assume(z3.Length(v) >= 1)
        st.assume(z3.Implies(z3.Not(has), z3.And(z3.Length(v) == 1, v[0] == it.rest)))
        st.assume(z3.Implies(has, z3.And(z3.Length(v) >= 2, v[0] == z3.SubString(it.rest, I(0), i))))
        st.assume(z3.Implies(z3.And(has, z3.Not(z3.Contains(tail, it.sep))), z3.And(z3.Length(v) == 2, v[1] == tail)))
        st.assume(z3.Implies(z3.And(has, z3.Contains(tail, it.sep)), z3.And(z3.Length(v) >= 3, v[1] == z3.SubString(tail, I(0), z3.IndexOf(tail, it.sep, I(0))))))
        return v
    if it.kind == 'args':
        return e.fresh('args', so)
    raise Unsupported('collect of %s %s' % (it.kind, getattr(it, 'what', '')))


@model(r'impl str>::split_once$')
def m_split_once(e, st, fn, a):
    s, p = term(e, st, a[0]), pattern(e, st, a[1])
    dt = e.dest_ty
    tt = e.ty.targs(dt)[0]
    out = []
    for s2, has in split(e, st, z3.Contains(s, p)):
        if has:
            i = z3.IndexOf(s, p, I(0))
            head = z3.SubString(s, I(0), i)
            tail = z3.SubString(s, i + z3.Length(p), z3.Length(s) - i - z3.Length(p))
            s2.assume(i >= 0)
            s2.assume(s == z3.Concat(head, p, tail))
            s2.assume(z3.Not(z3.Contains(head, p)))
            out.append((s2, some(e, dt, e.mk(tt, None, [head, tail]))))
        else:
            out.append((s2, none(e, dt)))
    return out


@model(r'impl str>::strip_(prefix|suffix)$')
def m_strip(e, st, fn, a):
    s, p = term(e, st, a[0]), pattern(e, st, a[1])
    dt = e.dest_ty
    pre = fn['ndef'].endswith('prefix')
    c = z3.PrefixOf(p, s) if pre else z3.SuffixOf(p, s)
    n = z3.Length(s) - z3.Length(p)
    x = z3.SubString(s, z3.Length(p), n) if pre else z3.SubString(s, I(0), n)
    return z3.If(c, e.lower(some(e, dt, x)), e.lower(none(e, dt)))


REPLACE = {}


def without(s, p):
    """s with every occurrence of the text p left out"""
    return z3.Function('without', S, S, S)(s, p)


@model(r'str>::replace(::<.*>)?$', r'str::<impl str>::replace(::<.*>)?$')
def m_replace(e, st, fn, a):
    s, p, r = term(e, st, a[0]), pattern(e, st, a[1]), term(e, st, a[2])
    if e.valid(st, r == e.strval(''))[0] != 'yes' or e.valid(st, z3.Length(p) == 1)[0] != 'yes':
        raise Unsupported('replace')
    x = without(s, p)
    st.assume(z3.Not(z3.Contains(x, p)))
    st.assume(z3.Implies(z3.Not(z3.Contains(s, p)), x == s))
    st.assume(z3.Length(x) <= z3.Length(s))
    return x


@model(r'std::ffi::CString::new$')
def m_cstring(e, st, fn, a):
    s = term(e, st, a[0])
    dt = e.dest_ty
    nul = z3.Contains(s, e.strval('\0'))
    out = []
    for s2, bad in split(e, st, nul):
        out.append((s2, err(e, dt, fresh_err(e, s2, dt))) if bad else (s2, ok(e, dt, s)))
    return out


@model(r'Path::to_str$', r'OsStr::to_str$')
def m_to_str(e, st, fn, a):
    s = term(e, st, a[0])
    return some(e, e.dest_ty, s)
