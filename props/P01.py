"""And-or lists: left-associative, short-circuiting."""
from . import grammar
from .common import *
from e2e.suites import p01 as suite
cases, RULE = suite.cases, suite.RULE
ASSUMES = ['eval_pipeline is an arbitrary function of the state of the shell and of its pipeline that leaves the negation flag of the tree alone',
           'syntax trees are those the actions of the grammar build: an and-or list with a left operand has an operator (obligations of the grammar actions)']


def g_andor(C):
    e = C.engine()
    L = Lists(C, e)
    e.contracts['rsh::eval::eval_pipeline'] = L.pipeline_contract
    e.contracts['rsh::eval::eval_and_or'] = L.andor_contract
    st = State()
    args, cells = fresh_args(e, st, L.eao)
    a0 = cells[0][1]
    st.assume(L.wf(a0))
    W0 = world(st)
    outs = e.run_fn(st, L.eao, args)
    n = {'and': 0, 'or': 0, 'leaf': 0}
    p = L.parts(a0)
    for i, o in enumerate(outs):
        C.claim('eval_and_or: path %d ends by returning' % i, o.kind == 'ret', str(o.state.notes[-3:]))
        if o.kind != 'ret':
            continue
        r = e.lower(o.value)
        C.ob('eval_and_or: path %d: exactly the pipelines selected by the operators ran, in order' % i, e, o.state, o.state.ghost['W'] == L.aw(W0, a0))
        C.ob('eval_and_or: path %d: result is that of the last pipeline that ran' % i, e, o.state, r == L.ar(W0, a0))
    for k, c in (('and', p['isand']), ('or', p['isor']), ('leaf', z3.Not(p['has']))):
        C.covers(k, sum(e.feasible(o.state, c) for o in outs if o.kind == 'ret'))


def g_negation(C):
    """$? after a list that consists of one (possibly negated) pipeline"""
    e = C.engine()
    L = Lists(C, e)
    e.contracts['rsh::eval::eval_pipeline'] = L.pipeline_contract
    st = State()
    args, cells = fresh_args(e, st, L.eao)
    a0 = cells[0][1]
    p = L.parts(a0)
    st.assume(z3.Not(p['has']))
    W0 = world(st)
    outs = e.run_fn(st, L.eao, args)
    _, r1, x1 = L.np(W0, p['pipe'])
    for i, o in enumerate(outs):
        if o.kind == 'ret':
            C.ob('single pipeline: path %d: status negated by !' % i, e, o.state, e.lower(o.value) == r1)
            C.ob('single pipeline: path %d: recorded exit status negated by !' % i, e, o.state, L.get_exit(o.state) == x1)
        else:
            C.claim('single pipeline: path %d returns' % i, False, str(o.state.notes[-2:]))
    C.covers('paths', len(outs))


PROOFS = [('eval_and_or against the left-associative short-circuit specification', g_andor),
          ('negation of a pipeline', g_negation)]
PROOFS = PROOFS + [('actions of the grammar', lambda C: grammar.g_actions(C, 'P01'))]
ASSUMES = list(globals().get('ASSUMES', [])) + grammar.ASSUMES
