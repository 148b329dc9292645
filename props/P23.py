"""Named contexts."""
from .named import *
from . import variables
from e2e.suites import p23 as suite
cases, RULE = suite.cases, suite.RULE
ASSUMES = ['names with more than one :: are outside the statement, and so are assignments to NS::NAME (which rsh does not support)', 'readonly NS::NAME=VALUE: replayed by scripts only (the obligations about the text NS::NAME=VALUE are not decided in time)']

PROOFS = [('lookups in a named context', g_lookups), ('unset of NS::NAME', lambda C: g_changes(C, REMOVE)), ('readonly NS::NAME', lambda C: g_changes(C, READONLY)), ('texts NS::NAME', g_text), ('names of contexts', g_table), ('the unset builtin', variables.g_unset), ('the readonly builtin', variables.g_readonly)]
PROOF_SECONDS = {'quick': 200, 'thorough': 400}
