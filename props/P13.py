"""Environment of commands."""
from . import grammar
from .redirects import *
from . import pipes
from . import frames
from . import exporting
from e2e.suites import p13 as suite
cases, RULE = suite.cases, suite.RULE
PROOF_SECONDS = {'quick': 200, 'thorough': 400}
PROOFS = [('eval_assignment', g_assignment), ('eval_prefix_suffix: assignments', lambda C: g_prefix(C, 'P13'))]
PROOFS += pipes.obligations('P13', pipes.p13, 'environment')
PROOFS += [('export', exporting.g_export)]
ASSUMES = pipes.ASSUMES + exporting.ASSUMES
PROOFS += [frames.frame('environment', 'the environment is changed only by export and by the assignments in front of a command')]
PROOFS = PROOFS + [('actions of the grammar', lambda C: grammar.g_actions(C, 'P13'))]
ASSUMES = list(globals().get('ASSUMES', [])) + grammar.ASSUMES
