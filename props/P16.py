from . import grammar
from .words import *
from e2e.suites import p16 as suite
cases, RULE = suite.cases, suite.RULE
PROOFS = [('eval_subshell', lambda C: g_subshell(C, 'P16')), ('create_subshell', g_create), ('cut_quotes', lambda C: g_cut(C, 'P16')), ('eval_double_quotes', lambda C: g_double(C, 'P16'))]
PROOFS = PROOFS + [('actions of the grammar', lambda C: grammar.g_actions(C, 'P16'))]
ASSUMES = list(globals().get('ASSUMES', [])) + grammar.ASSUMES
