"""Start: where the commands come from."""
from .starting import *
from . import texts
from e2e.suites import p22 as suite
cases, RULE = suite.cases, suite.RULE
PROOFS = [('words with options', g_dash), ('the command line', g_args), ('the parameters of a script', g_parameter), ('main', g_main), ('startup files', g_startup), ('commands behind -c', texts.g_line), ('every line of a script', texts.g_script), ('every line of the input', texts.g_interactive)]
ASSUMES = ['the name the shell itself is started by is no option with a c in it (-csh)', 'before the first command no variable of the shell is read-only',
           'read_rc and read_user_profile may evaluate startup files (they open the literal paths ~/.rshrc and ~/.profile)'] + texts.ASSUMES
