"""Builtins."""
from . import grammar
from .builtins import *
from e2e.suites import p18 as suite
cases, RULE = suite.cases, suite.RULE
PROOFS = [('check_if_builtin', g_names), ('call_builtin', g_call), ('eval_simple_command', g_simple), ('eval_command', g_dispatch), ('builtins start no process', g_builtins), ('cd, pwd, return', g_directory),
          frame('directory', 'the directory is changed only by cd')]
PROOFS = PROOFS + [('actions of the grammar', lambda C: grammar.g_actions(C, 'P18'))]
ASSUMES = list(globals().get('ASSUMES', [])) + grammar.ASSUMES
