"""What is specified for each property, and how the contracts add up to it. Used by mkdesign.py."""
D = {
'P01': """Specification: AO(tree), a recursive function over the syntax tree that says, for uninterpreted per-pipeline effect and status, which state and
which status the left-associative short-circuit evaluation yields. Contract of `eval_and_or`: for every tree its result, its effects on the shell and the recorded
status are AO(tree); its recursive call is replaced by its contract (induction on the tree), `eval_pipeline` by an arbitrary function of state and pipeline. Negation: the status left by `! p` is 0 exactly
when p's is not. The actions of the grammar that build and-or lists are proved to append to the left spine, so text order and tree order agree.""",
'P02': """Specification: LIST(tree), the fold of the evaluation of the and-or lists over the tree, stopping at the first error. `parse_tree` equals LIST for every tree (loop invariants
over the remaining tree), its callers evaluate a text or body exactly once (`world` ghost: the effect log must be one EVAL step), `source` reads one whole file and evaluates its parse once, the loops over
script lines and input lines evaluate each line that was read once before the next read (invariant: number of evaluations = number of lines read). Grammar actions: a list action keeps every part, in order.""",
'P03': """`eval_pipeline` is verified as one function with a loop invariant over the command index k: the ghost descriptor table says that the read end kept for command k is the one whose write end command k-1 was given,
the first command has the shell's descriptor 0 and the last one 1, each command was forked exactly once with its own words. The child's side (dup2, close, exec) is executed on the forked state; the obligation is on the ghost `fd` at
exec. The number of commands is unbounded.""",
'P04': """Same invariants on the ghost descriptor table: at every exec the child holds no pipe end other than 0 and 1; at every return of `eval_pipeline`, `eval_subshell` and `source` (error paths included: fork, pipe, dup2 that fail), the table of the shell is the one it had on
entry. The frame group walks the MIR call graph: no other function of the crate reaches a call that opens, closes or duplicates a descriptor, so the contracts cover all of them.""",
'P05': """`eval_redirect` against a model of open(2): flags, target descriptor, exactly one open and one dup2, no effect when it fails other than ending the child; `eval_prefix_suffix` against the fold over prefix and suffix (left to right, all of them, once);
`eval_pipeline`: they are applied in the child only, after the pipe ends, before exec. Grammar actions keep redirections in order.""",
'P06': """`wait_process`/`wait_one`/`do_wait` against the specification of waitpid (any status its flags allow), with the lemma that a loop that goes on while a process of the job is running or starting ends only when all have ended or stopped; the status is that of the
last process, signals are 128+n. `eval_pipeline`: a foreground job is waited for after the last fork and before it returns; the recorded status is what the job left. `fg` waits by the same contract. `format_status` (reports) changes nothing.""",
'P07': """Representation invariant of the job table (identifier map, process map, current job, heap cells of jobs) as a predicate over heap and maps: distinct identifiers, every process of a job maps to it, the current job is in the table. Each operation (create, delete by either key, lookups, update, reaping, fg, bg) is proved
to preserve it and to change only the job named; `eval_pipeline` registers each process it forked once under its job. Loops over processes and over jobs have invariants; no bound on either.""",
'P08': """Scope stack as a sequence of addresses of maps in the heap; specification functions FIND (innermost index that defines a name), SET, DEL. `get_var`, `add_var`, `add_var_pos`, `remove_var`, push and pop are proved against them (loops from the top with
invariant "not found above"), for names without `::`; frame: no other scope, no other name. Lemma groups compose them: what a lookup yields after each change, by induction over the depth. The entry points of `shell` and the builtins are proved to hand the right words to them.""",
'P09': """The same specification with the read-only set of each scope: every writer leaves the value of a name that is read-only where it is defined, and reports it; `readonly` adds exactly that name. Lemma: after any of the operations a lookup that yielded a read-only value yields it again.""",
'P10': """`eval_function`: pushes one scope, binds $1..$n (loop invariant over the argument index, unbounded n), evaluates the body once, pops on every path including failure; with the contract that evaluation leaves the stack as it found it (induction over nesting) the caller's scope is back. Frame: no other function pushes or pops.
`source` binds the words behind the file name; `export context` the same for its scope.""",
'P11': """`alias_lookup` replaces the name by the first word of the alias text and puts the others in front of the arguments (sequence equality, unbounded lengths); tables proved to be a map updated at one name; `eval_simple_command` calls it only for a command that is no builtin; frame: nobody else looks aliases up.""",
'P12': """`lookup_command` against FIRST(path, name): the least index of the list of directories whose entry is a regular file, by a loop invariant "no earlier directory has one"; file system queries are uninterpreted functions of the path. `temp_exec`/`temp_execve`: what is executed is the path found, and nothing when there is none (then the status is not 0).""",
'P13': """Ghost environment as a map. `eval_assignment` stores name and complete value (split at the first `=`); the fold over the prefix; in `eval_pipeline` it happens in the child only, so the shell's environment and variables are equal at every exit; `export` updates shell variable and environment alike. Frame: no other writer of the environment.""",
'P14': """Ghost signal mask. `interrupts_off/on`: exact masks. `eval_pipeline`: blocked at every fork and table update, empty at every return and at every exec, on every path; frame: every other function leaves it alone.""",
'P15': """Ghost table of dispositions. `fork_reset` leaves all the listed signals at default and nothing blocked, before exec in every child; `set_signal` installs exactly the action the statement lists for each signal and trap (case split over the signal); tables of traps and modes are maps.""",
'P16': """`create_subshell` takes exactly the text up to the closing parenthesis (loop invariant over the position), `eval_subshell` reads the pipe to its end before it waits and returns the text; the child evaluates that text and ends; shell state equal before and after; `eval_double_quotes` puts the trimmed text in place.""",
'P17': """String contracts with symbolic positions for `cut_quotes`, `expand_vars`, splitting outside quotes, `argv` and the word loop of `eval` (the result is the concatenation, in order, of what each word expands to; a word of one of the listed kinds expands to exactly one argument).""",
'P18': """`check_if_builtin` is membership in the list of names, `call_builtin` runs the builtin of that name once with the command unchanged and never panics; the frame shows that no builtin reaches fork or exec other than through evaluation; `cd` changes the ghost directory to the argument or not at all.""",
'P19': """`Lexer::next` is executed for an arbitrary text and position: blanks and comments are skipped by a loop with an invariant, the token starts at the first other character, covers its slice, longest match for operators; `advance` moves by exactly one character. Lemma: consecutive tokens are disjoint and leave out only blanks and comments. Bounded companion: src/lexer.rs compiled unchanged against a reference scanner.""",
'P20': """Fork has a child outcome that is executed with the same code: every path of the child must end in exec or exit; obligations that no path of a child returns from `eval_pipeline`, `eval_subshell`, `temp_fork`'s caller; frame: nothing else forks or execs.""",
'P21': """`quit` ends the process with the number of its argument or the recorded status, whatever the argument is; `eval_pipeline` records the status, and `get_exit_code` finds the last one recorded.""",
'P23': """The functions behind names with `::` are verified at the shell's entry points against the table of named contexts: a lookup yields exactly what the named context holds and changes nothing,
whatever the scope stack defines; removal and `readonly` change that name in that context only and leave a read-only variable as it is; adding and removing a context changes one entry of the table. The stack
functions are the same ones P08 and P09 are proved for (names without `::`). `readonly NS::NAME=VALUE` is not decided in time by the string solvers and is covered by scripts only. The end-to-end part runs
random histories of contexts from files and functions against a reference interpreter.""",
'P22': """The command line: `parse_args` is proved against a specification of its words (options in front, `-c` and the words behind it, script and parameters), with a loop invariant over the word index; `main` takes one of the three ways once; startup files are evaluated at most once and cannot end the shell; the loops over lines as in P02.""",
}
