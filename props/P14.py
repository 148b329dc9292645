"""The signal mask around the setting up of a job."""
from .signals import *
from . import pipes
from . import frames
from e2e.suites import p14 as suite
cases, RULE = suite.cases, suite.RULE
PROOF_SECONDS = {'quick': 200, 'thorough': 400}
PROOFS = [('masks', g_masks), ('shell::delete_job', g_delete)]
PROOFS += pipes.obligations('P14', pipes.p14, 'signal mask')
ASSUMES = pipes.ASSUMES
PROOFS += [frames.frame('mask', 'signals are blocked and unblocked only by the functions under contract')]
