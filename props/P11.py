"""Aliases."""
from . import grammar, frames
from .aliases import *
from e2e.suites import p11 as suite
cases, RULE = suite.cases, suite.RULE
PROOFS = [('alias_lookup', g_replace), ('lookup_alias', g_find), ('the table of aliases', g_table), ('alias and unalias', g_builtins), ('eval_simple_command', lambda C: g_simple(C, 'P11'))]
PROOFS = PROOFS + [('actions of the grammar', lambda C: grammar.g_actions(C, 'P11'))]
ASSUMES = list(globals().get('ASSUMES', [])) + grammar.ASSUMES
PROOFS += [frames.frame('aliases', 'aliases are looked up for the name of a command only')]
