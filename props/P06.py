from . import grammar
from .waits import *
from . import pipes, resuming
from e2e.suites import p06 as suite
cases, RULE = suite.cases, suite.RULE

PROOF_SECONDS = {'quick': 200, 'thorough': 400}
PROOFS = [('wait_process', g_wait_process), ('lemmas', g_lemmas)] + [('wait_one: %s' % k, g_wait_one(k)) for k in ('Exited', 'Signaled', 'Stopped', 'StillAlive')] + [('do_wait', g_do_wait), ('wait_for_job', g_wait_for_job), ('wait_for_job_sigchld', g_sigchld)]
PROOFS += pipes.obligations('P06', pipes.p06, 'wait and status')
ASSUMES = pipes.ASSUMES
PROOFS += [('processes that go on', resuming.g_continue), ('fg', resuming.g_fg)]
PROOFS += [('reports', g_report)]
PROOFS = PROOFS + [('actions of the grammar', lambda C: grammar.g_actions(C, 'P06'))]
ASSUMES = list(globals().get('ASSUMES', [])) + grammar.ASSUMES
