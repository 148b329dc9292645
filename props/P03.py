"""Pipelines: the processes of a job, in order, each connected to its neighbours."""
from . import grammar
from . import pipes
from e2e.suites import p03 as suite
cases, RULE = suite.cases, suite.RULE
PROOF_SECONDS = {'quick': 200, 'thorough': 400}
PROOFS = pipes.obligations('P03', pipes.p03, 'the chain of pipes')
ASSUMES = pipes.ASSUMES
PROOFS = PROOFS + [('actions of the grammar', lambda C: grammar.g_actions(C, 'P03'))]
ASSUMES = list(globals().get('ASSUMES', [])) + grammar.ASSUMES
