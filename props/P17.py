"""Words and arguments."""
from . import grammar
from .words import *
from .builtins import g_simple
from e2e.suites import p17 as suite
cases, RULE = suite.cases, suite.RULE
PROOF_SECONDS = {'quick': 200, 'thorough': 400}
PROOFS = [('expand_vars', lambda C: g_expand(C, 'P17')), ('argv', g_argv), ('cut_quotes', lambda C: g_cut(C, 'P17')), ('eval_double_quotes', lambda C: g_double(C, 'P17')), ('eval', g_eval), ('splitting outside quotes', g_split), ('eval_simple_command', lambda C: g_simple(C, 'P17'))]
PROOFS = PROOFS + [('actions of the grammar', lambda C: grammar.g_actions(C, 'P17'))]
ASSUMES = list(globals().get('ASSUMES', [])) + grammar.ASSUMES
