"""exit."""
from . import pipes, quitting
from e2e.suites import p21 as suite
cases, RULE = suite.cases, suite.RULE
PROOF_SECONDS = {'quick': 200, 'thorough': 400}
PROOFS = quitting.PROOFS + pipes.obligations('P21', pipes.p21, 'exit status')
ASSUMES = quitting.ASSUMES + pipes.ASSUMES
