"""Variables and the scope stack."""
from . import grammar
from .common import *
from .scopes import *
from . import variables, words
from e2e.suites import p08 as suite
cases, RULE = suite.cases, suite.RULE
ASSUMES = ['names with :: (variables of named contexts) are the subject of P23: the scope stack functions are verified here for names without ::']

PROOFS = [('lookup', g_get), ('assignment', g_assign), ('removal', g_remove), ('entering and leaving a scope', g_pushpop),
          ('lookup after a change', g_lemmas), ('the shell\'s own entry points', g_shell_wrappers), ('assignment at a position of the stack', g_pos)]
PROOFS += [('the assignment builtin', variables.g_assignment), ('the unset builtin', variables.g_unset), ('the value of a variable in a command', lambda C: words.g_expand(C, 'P08'))]
PROOF_SECONDS = {'quick': 200, 'thorough': 400}
PROOFS = PROOFS + [('actions of the grammar', lambda C: grammar.g_actions(C, 'P08'))]
ASSUMES = list(globals().get('ASSUMES', [])) + grammar.ASSUMES
