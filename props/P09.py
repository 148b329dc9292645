"""Read-only variables."""
from .scopes import *
from . import variables
from e2e.suites import p09 as suite
cases, RULE = suite.cases, suite.RULE
ASSUMES = ['names with :: (variables of named contexts) are the subject of P23']

PROOFS = [('readonly NAME', g_readonly), ('readonly NAME=value', g_assign_ro), ('assignment to a read-only variable', g_assign),
          ('unset of a read-only variable', g_remove), ('assignment at a position of the stack (export)', g_pos), ('lookup after a change', g_lemmas)]
PROOFS += [('the readonly builtin', variables.g_readonly), ('the assignment builtin', variables.g_assignment), ('the unset builtin', variables.g_unset)]
PROOFS += [('the shell\'s own entry points', lambda C: g_shell_wrappers(C, RO_WRAPPERS))]
