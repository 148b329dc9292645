"""Dispositions of signals in the shell and in the programs it starts."""
from .signals import *
from . import search
from . import frames
from e2e.suites import p15 as suite
cases, RULE = suite.cases, suite.RULE
PROOFS = [('fork_reset', g_reset), ('set_signal', g_set), ('traps and modes', g_traps)]
PROOFS += [('temp_exec', lambda C: search.g_exec(C, part='signals')), ('temp_execve', lambda C: search.g_exec(C, 'rsh::eval::temp_execve', 'signals'))]
PROOFS += [frames.frame('dispositions', 'dispositions are set only by the functions under contract')]
