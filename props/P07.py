"""The job table."""
from .jobs import *
from . import pipes, resuming, reaping
from e2e.suites import p07 as suite
cases, RULE = suite.cases, suite.RULE

PROOF_SECONDS = {'quick': 200, 'thorough': 400}
PROOFS = [('create_job', g_create), ('delete_job by identifier', g_delete_id), ('delete_job by process', g_delete_pid), ('lookups', g_lookup)]
PROOFS += pipes.obligations('P07', pipes.p07, 'registration')
ASSUMES = pipes.ASSUMES
PROOFS += [('processes that go on', resuming.g_continue), ('fg', resuming.g_fg), ('bg', resuming.g_bg), ('the job named for fg and bg', resuming.g_fgbg)]
PROOFS += reaping.PROOFS
