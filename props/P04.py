"""Descriptors of the shell and of the processes it starts."""
from . import pipes, words, texts
from . import frames
from e2e.suites import p04 as suite
cases, RULE = suite.cases, suite.RULE
PROOF_SECONDS = {'quick': 200, 'thorough': 400}
PROOFS = pipes.obligations('P04', pipes.p04, 'descriptors')
ASSUMES = pipes.ASSUMES
PROOFS += [('eval_subshell: descriptors', lambda C: words.g_subshell(C, 'P04'))]
PROOFS += [frames.frame('descriptors', 'descriptors are made, moved and closed only by the functions under contract')]
PROOFS += [('source: descriptors', lambda C: texts.g_source(C, 'P04'))]
