"""A forked child never returns into the shell."""
from . import pipes, redirects, search, words
from . import frames
from e2e.suites import p20 as suite
cases, RULE = suite.cases, suite.RULE
PROOF_SECONDS = {'quick': 200, 'thorough': 400}
PROOFS = pipes.obligations('P20', pipes.p20, 'the child')
ASSUMES = pipes.ASSUMES
PROOFS = [('temp_fork', redirects.g_fork), ('temp_exec', lambda C: search.g_exec(C, part='child'))] + PROOFS
PROOFS += [('eval_subshell: the child', lambda C: words.g_subshell(C, 'P20'))]
PROOFS += [frames.frame('fork', 'processes are started only by the functions under contract'), frames.frame('exec', 'programs are executed only by the functions under contract')]
