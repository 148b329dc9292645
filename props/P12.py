"""Commands are found along the search path."""
from .search import *
from e2e.suites import p12 as suite
cases, RULE = suite.cases, suite.RULE
ASSUMES = ['the file system does not change while one command is looked up: whether a path names a regular file is a function of the path',
           'the search path of the shell is the variable PATH of its outermost scope, which export keeps equal to the environment (proved under P13)']
PROOFS = [('lookup_command', g_lookup), ('temp_exec', g_exec), ('temp_execve', lambda C: g_exec(C, 'rsh::eval::temp_execve'))]
