"""Specification vocabulary shared by the property modules."""
import z3
from .core import Agg, Ref, Obj, Outcome, State, POISON, I, fresh_args
from .tys import Unsupported, last
from .models import val, term

World = z3.DeclareSort('World')
INT = z3.IntSort()


def fidx(e, ty, name, variant=0):
    for i, f in enumerate(e.ty[ty]['v'][variant]['f']):
        if f[0] == name:
            return i
    raise Unsupported('anchor not found: field %s of %s' % (name, e.ty.s(ty)))


def vidx(e, ty, name):
    for i, v in enumerate(e.ty[ty]['v']):
        if v['name'] == name:
            return i
    raise Unsupported('anchor not found: variant %s of %s' % (name, e.ty.s(ty)))


def fld(e, ty, name, t, variant=0):
    return e.ty.acc(ty, variant, fidx(e, ty, name, variant), t)


def fty(e, ty, name, variant=0):
    return e.ty[ty]['v'][variant]['f'][fidx(e, ty, name, variant)][1]


def pointee(e, ty):
    """the type behind references, Box, Rc"""
    return e.ty.strip(ty)


def res_parts(e, ty, t):
    """Result<..>: (is_ok, ok value, err value)"""
    so = e.ty.sort(ty)
    t = e.lower(t)
    return so.recognizer(0)(t), e.ty.acc(ty, 0, 0, t), e.ty.acc(ty, 1, 0, t)


def world(st):
    w = st.ghost.get('W')
    if w is None:
        w = z3.Const('W0', World)
        st.ghost['W'] = w
    return w


def world_of(st):
    return world(st)


def panics(outs):
    return [o for o in outs if o.kind == 'panic']


def notes(o):
    return o.state.notes
