"""Redirections: in order, in the process of their command only."""
from . import grammar
from . import pipes, redirects
from e2e.suites import p05 as suite
cases, RULE = suite.cases, suite.RULE
PROOF_SECONDS = {'quick': 200, 'thorough': 400}
PROOFS = pipes.obligations('P05', pipes.p05, 'redirections')
ASSUMES = pipes.ASSUMES
PROOFS = [('eval_redirect', redirects.g_redirect), ('eval_prefix_suffix: redirections', redirects.g_prefix)] + PROOFS
PROOFS = PROOFS + [('actions of the grammar', lambda C: grammar.g_actions(C, 'P05'))]
ASSUMES = list(globals().get('ASSUMES', [])) + grammar.ASSUMES
