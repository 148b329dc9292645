#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))
T = "The 15 existing tests only check that fixed command lines parse; none evaluates a command. "

p('P01', 'And-or lists run left to right and short-circuit on exit status',
  "In a list of pipelines joined by && and ||, evaluation is left-associative and strictly left to right: the right operand of && runs exactly when everything to its left finished with status 0, the right operand of || runs exactly when everything to its left finished with a non-zero status. A skipped pipeline has no effect at all, every pipeline that is not skipped runs exactly once, and the status of the whole list is the status of the last pipeline that ran.",
  ['inputs', 'programs'], "every and-or chain, of every length and operator mix, and every combination of exit statuses of its pipelines",
  T + "A chain of n pipelines has 2^n operator mixes and 256^n status vectors; no sampled chain settles associativity and short-circuiting for all of them.",
  ['src/eval.rs', 'src/grammar.lalrpop', 'src/ast.rs'],
  [('recursive evaluation of the left operand before the operator test', 'eval_and_or in src/eval.rs'), ('left-recursive AndOr productions', 'src/grammar.lalrpop')],
  [('EXIT_STATUS', 'exit status of the last foreground job', 'src/eval.rs')], ['rsh -c', 'piped standard input'])
p('P02', 'Every command of a list runs exactly once, in textual order',
  "When a command line, the body of a function, or a sourced or evaluated text is a list of commands separated by semicolons or newlines, each command of the list is evaluated exactly once, in textual order, each one after the previous one has completed, and the status of the command line is the status of its last command. Evaluation stops early only when a command reports an evaluation error, and then no later command of that list runs.",
  ['inputs', 'programs'], "every list of commands of any length, however it is separated, at top level, in function bodies and in evaluated text",
  T + "Lists are unbounded and their items arbitrary; a skipped, repeated or reordered item may show only at one position or one length.",
  ['src/eval.rs', 'src/builtins.rs', 'src/grammar.lalrpop'],
  [('loop over the list', 'parse_tree in src/eval.rs'), ('loop over the compound list', 'eval_compound_list / eval_function in src/eval.rs'), ('List and Term productions', 'src/grammar.lalrpop')],
  (), ['rsh -c', 'piped standard input'])
p('P03', 'Pipelines connect each command to the next, and only to the next',
  "In a pipeline of n external commands, for every i the standard output of command i is the standard input of command i+1; the first command inherits the shell's standard input and the last one the shell's standard output, and every command of the pipeline is started exactly once with its own argument list. Data written by one command is read unchanged and complete by the next, which sees end of file once its predecessor has ended.",
  ['inputs', 'programs', 'schedules'], "every pipeline length, every command in it and every order in which the processes run and end",
  T + "No test forks; the wiring is loop-carried descriptor arithmetic whose errors show only for particular lengths or for particular descriptor numbers.",
  ['src/eval.rs', 'src/builtins.rs'],
  [('pipe/fork/dup2 loop', 'eval_pipeline in src/eval.rs'), ('fork wrapper', 'temp_fork in src/eval.rs')],
  [('prev_fd, pip', 'read end of the previous pipe and the current pipe', 'eval_pipeline in src/eval.rs')], ['rsh -c', '/proc/self/fd of the commands'])
p('P04', 'Commands leave the shell\'s own descriptors untouched; no pipe end leaks',
  "After a pipeline or command substitution has been started and, in the foreground, waited for, the shell holds exactly the descriptors it held before: every pipe end it created is closed exactly once, and its standard input, output and error are the ones it had. A started command holds no pipe end of its pipeline other than the ones that are its standard input and standard output.",
  ['inputs', 'programs', 'histories'], "every pipeline length, foreground or background, and every sequence of commands run by one shell",
  T + "A leak needs a count over the whole life of the shell, and a stray write end shows only as a reader that never sees end of file.",
  ['src/eval.rs', 'src/ast.rs'],
  [('close calls of the parent and of the child', 'eval_pipeline in src/eval.rs'), ('pipe of a command substitution', 'SimpleCommand::eval_subshell in src/ast.rs')],
  (), ['/proc/<shell>/fd', '/proc/self/fd of the commands'])
p('P05', 'Redirections apply in order, to the right descriptor, of that command only',
  "For every external command, its redirections take effect from left to right before it starts: < file makes the file its standard input, > file creates or empties the file and makes it its standard output, >> file creates the file or appends to it, keeping every byte it held. When a file cannot be opened the command does not run, and no redirection of a command changes the descriptors of the shell or of any other command.",
  ['inputs', 'programs', 'fault_sequences'], "every sequence of redirections on every command of every pipeline, every prior content of the files, and every failure to open one",
  T + "Order, target descriptor, open mode and isolation each depend on the sequence of redirections and on the previous state of the files.",
  ['src/eval.rs'],
  [('eval_redirect', 'src/eval.rs'), ('eval_prefix_suffix, called in the forked child only', 'src/eval.rs')], (), ['rsh -c', 'contents of the redirected files'])
p('P06', 'A foreground pipeline is waited for, and its status is its last command\'s',
  "The shell goes on after a foreground pipeline only when every process of it has ended or stopped, in whatever order the processes end; a job brought to the foreground with fg is waited for in the same way. The status of a foreground pipeline of external commands, which decides && and || and is the status of the list, is the exit status of its last command, and a last command killed by a signal never counts as success.",
  ['schedules', 'inputs', 'programs'], "every number of processes, every order in which they end, every exit status, and children of background jobs ending in between",
  T + "The result depends on the order in which children are reaped, which no sequential test controls.",
  ['src/jobs.rs', 'src/eval.rs'],
  [('do_wait loop', 'src/jobs.rs'), ('wait_one status update', 'src/jobs.rs'), ('EXIT_STATUS update', 'eval_pipeline in src/eval.rs')],
  [('Job.state, Job.stop_status, Process.status', 'progress of a job', 'src/jobs.rs')], ['rsh -c', 'piped standard input'])
p('P07', 'The job table stays consistent over every history of jobs',
  "Every job that is started gets an identifier no other live job has, and every process of it is found under that job and no other. Removing a job that has not stopped removes exactly that job and its processes, a stopped job is kept and marked stopped, all other jobs keep their identifier and state, and the current job, when there is one, is a job of the table. Bringing a job to the foreground or letting it go on in the background changes that job only, and lets exactly its processes that have not ended go on.",
  ['histories', 'schedules'], "every sequence of creating, registering, selecting, looking up and removing jobs, by identifier or by process",
  T + "Consistency of three maps over unbounded histories of operations cannot be sampled.",
  ['src/jobs.rs'],
  [('create_job, update_pid_table, delete_job, update_next_job_id', 'JobControl in src/jobs.rs')],
  [('job_table, pid_to_job, next_job_id, current_job, background_jobs', 'job table', 'JobControl in src/jobs.rs')], ['jobs builtin'])
p('P08', 'Variables: assignment and lookup obey the scope stack',
  "A lookup returns the value of the innermost scope that defines the name, and nothing when no scope defines it. An assignment updates the innermost scope that defines the name and creates the name in the innermost scope when none does; it changes no other name and no other scope, and leaving a scope discards exactly the names of that scope. Unsetting a name removes it from the scope lookup would have found it in, and changes no other name.",
  ['histories', 'inputs'], "every stack of scopes, every name and value, and every sequence of assignments, lookups, unsets, entries and exits",
  T + "Shadowing bugs need particular nestings and particular orders of operations.",
  ['src/context.rs', 'src/shell.rs', 'src/builtins.rs'],
  [('ContextManager get_var / add_var / remove_var / push / pop', 'src/context.rs')],
  [('context_stack', 'stack of scopes', 'ContextManager in src/context.rs')], ['rsh -c', 'expansion of $name'])
p('P09', 'A read-only variable never changes value',
  "Once a variable has been declared read-only in a scope, no assignment, export, unset or re-declaration changes the value a lookup in that scope yields, for as long as the scope exists. Variables that are not read-only are not affected by the declaration.",
  ['histories', 'inputs'], "every sequence of assignments, exports and declarations after the declaration, over every name and value",
  T + "Every path by which a variable can be written would have to be tried after every history.",
  ['src/context.rs', 'src/builtins.rs'],
  [('readonly flag test in add_var', 'Context in src/context.rs'), ('readonly builtin', 'src/builtins.rs')],
  [('Var.readonly', 'flag of the variable', 'src/context.rs')], ['readonly builtin', 'expansion of $name'])
p('P10', 'Function calls get their own arguments and scope, and restore the caller\'s',
  "Calling a function evaluates its body, command by command in order, with $1, $2, ... bound to the arguments of that call. When the call ends, normally or because a command of the body failed, the caller's scope is the innermost one again and the caller's positional parameters have the values they had before, at every depth of nesting (a body that assigns to one by name, as in 1=x, assigns a variable like any other).",
  ['programs', 'histories', 'inputs'], "every nesting of function calls, every number of arguments, and every way a call can end",
  T + "Balance of the scope stack must hold on every exit path and at every nesting depth.",
  ['src/eval.rs', 'src/context.rs', 'src/builtins.rs'],
  [('push_context / pop_context around the body', 'eval_function in src/eval.rs'), ('positional parameters', 'eval_function in src/eval.rs')],
  [('context_stack', 'stack of scopes', 'src/context.rs')], ['rsh -c', 'piped standard input'])
p('P11', 'Aliases replace the command word, and only the command word',
  "When the first word of a command that is not a builtin is a defined alias, the command that runs is the first word of the alias text, its first arguments are the remaining words of the alias text in order, and the arguments the user typed follow them in order. Words that are not the command word are never replaced, and a name that was never defined or has been removed is not replaced.",
  ['inputs', 'histories'], "every alias text, every argument list and every history of defining, redefining and removing aliases",
  T + "No test defines an alias.",
  ['src/ast.rs', 'src/shell.rs', 'src/builtins.rs'],
  [('alias_lookup', 'SimpleCommand in src/ast.rs'), ('lookup_alias / add_alias', 'src/shell.rs'), ('alias and unalias builtins', 'src/builtins.rs')],
  [('aliases', 'map from alias name to text', 'Shell in src/shell.rs')], ['alias builtin', 'rsh -c'])
p('P12', 'A command name resolves to the first match along the search path',
  "A command name that contains a slash is the path of the file to run; any other name runs the file of that name in the first directory of PATH, in the order PATH lists them, that contains a regular file of that name; directories and missing entries are passed over. When no directory contains one, nothing is executed in its place and the command fails with a non-zero status.",
  ['inputs', 'configurations'], "every PATH value, every content of its directories and every command name",
  T + "Lookup order can only be checked against every arrangement of the directories.",
  ['src/context.rs', 'src/eval.rs'],
  [('lookup_command loop over PATH', 'src/context.rs'), ('temp_exec', 'src/eval.rs')], (), ['rsh -c'])
p('P13', 'A command sees exactly the environment it was given',
  "An external command's environment holds every exported variable with the complete value it was last exported with, and the assignments written in front of that command with their complete values. Assignments in front of one command change neither the environment of any other command nor any variable of the shell, and a shell variable that was never exported is not in the environment of any command.",
  ['inputs', 'programs', 'histories'], "every set of exports and assignments, every value including values containing = signs, and every sequence of commands",
  T + "A leak from one command to a later one needs a history; truncation needs particular values.",
  ['src/eval.rs', 'src/builtins.rs', 'src/context.rs'],
  [('eval_assignment in the forked child', 'src/eval.rs'), ('export builtin', 'src/builtins.rs'), ('assignment without command', 'builtins::assignment')], (), ['env as a command of a script'])
p('P14', 'Signals are blocked while a job is set up and unblocked afterwards',
  "While the shell forks and registers the processes of a job, every blockable signal except the two that interrupt and stop from the keyboard is blocked, so no handler can run in between. When evaluation of any command ends, on every path including failed commands, builtins and evaluation errors, no signal is left blocked by the shell, and the programs it starts have no signal blocked.",
  ['programs', 'fault_sequences', 'schedules'], "every command, builtin, function definition, assignment, and every failure path of them",
  T + "Only paths that return early leave the mask changed, and no test evaluates one.",
  ['src/eval.rs', 'src/trap.rs', 'src/jobs.rs', 'src/builtins.rs'],
  [('interrupts_off / interrupts_on', 'src/trap.rs'), ('critical section', 'eval_pipeline in src/eval.rs'), ('fork_reset', 'src/jobs.rs')], (), ['/proc/self/status SigBlk of the shell and of its commands'])
p('P15', 'Commands start with default signal dispositions',
  "Every external command starts with the default action for the keyboard, job-control and termination signals, whatever the shell itself does with them. In the shell, setting up a signal installs a handler for the child-exit signal and for every signal with a trap, and otherwise catches keyboard interrupt and stop, ignores quit, termination and terminal-output, and leaves every other signal at its default.",
  ['inputs', 'configurations', 'histories'], "every signal number, every trap setting and every previous mode",
  T + "The decision table has a row per signal, trap setting, previous mode and process kind; no test reads it.",
  ['src/trap.rs', 'src/jobs.rs', 'src/eval.rs'],
  [('set_signal', 'src/trap.rs'), ('remove_handlers', 'src/trap.rs'), ('temp_exec calls fork_reset before exec', 'src/eval.rs')],
  [('SIGNAL_MODE', 'what the shell believes the action of each signal is', 'src/trap.rs')], ['/proc/self/status SigIgn, SigCgt of the commands'])
p('P16', 'Command substitution yields the trimmed output, with no other effect',
  "A double-quoted word of the form \"$(commands)\", where the commands contain no parenthesis, is replaced by the words of everything the commands inside it write, split at blanks, without leading and trailing white space, however much they write. Variables, aliases, functions, directory and descriptors of the shell are the same after the substitution as before it.",
  ['inputs', 'programs', 'schedules'], "every inner command list, every output including outputs larger than a pipe buffer, and every state of the shell",
  T + "No test runs a substitution; a deadlock needs more output than the pipe holds.",
  ['src/ast.rs'],
  [('eval_subshell: fork, pipe, read, wait', 'src/ast.rs')], (), ['rsh -c'])
p('P17', 'Quoting: each word reaches the command as exactly one intended argument',
  "A word in single quotes reaches the command as one argument with exactly the characters between the quotes. A word in double quotes that contains neither a dollar sign nor a back-quote reaches it as one argument with exactly the characters between the quotes; an unquoted word without special characters reaches it verbatim; a word $NAME, where the variable NAME is defined, reaches it as one argument with exactly the value of NAME, whatever that value holds, and nothing in the value is run. The arguments are in textual order, none lost, none added, none merged.",
  ['inputs'], "every number and mix of quoted and unquoted words, and every text in them",
  T + "The one test on quotes checks that the line parses, not what the command receives.",
  ['src/ast.rs', 'src/lexer.rs', 'src/eval.rs'],
  [('SimpleCommand::eval, cut_quotes, argv', 'src/ast.rs'), ('single_quote / double_quote', 'src/lexer.rs')], (), ['arguments received by a command'])
p('P18', 'Builtins act on the shell itself and never start a process',
  "A command whose name is that of a builtin is executed by the shell process itself and starts no process; any other name is never treated as a builtin, so it runs as a function or an external command. The directory changed, the variables set and the aliases defined by a builtin are in force for every later command of the same shell. No builtin crashes the shell, whatever its arguments, and a cd that fails leaves the directory as it was.",
  ['inputs', 'programs'], "every command name, builtin or not, and every sequence of commands after a builtin",
  T + "The dispatch is a table that is repeated in two places; only an exhaustive comparison shows that they agree.",
  ['src/eval.rs', 'src/builtins.rs'],
  [('check_if_builtin and call_builtin', 'src/eval.rs'), ('builtins', 'src/builtins.rs')], (), ['rsh -c'])
p('P19', 'Tokens cover the input exactly: nothing lost, added or out of order',
  "Splitting any text into tokens terminates, and every character that is not white space or part of a comment belongs to exactly one token, in order, or is reported as an error at its position. The text of a word token is exactly the slice of the input it covers; quotes and substitutions are kept whole up to their closing character, operators are recognised by longest match, and the token sequence ends with exactly one end marker.",
  ['inputs'], "every text, including multi-byte characters and unterminated quotes",
  T + "The tests tokenise a dozen short ASCII lines.",
  ['src/lexer.rs'],
  [('Lexer::next, take_until, take_until_alt, word', 'src/lexer.rs')],
  [('lookahead, chars', 'position in the input', 'Lexer in src/lexer.rs')], ['Lexer iterator'])
p('P20', 'A forked child never becomes a second shell',
  "Every process the shell forks for a command either executes the program it was forked for or ends: it never returns to reading or evaluating the rest of the script. So no command after a pipeline, a command substitution or a failed command is ever run twice, and a command that cannot be executed ends with a non-zero status.",
  ['programs', 'fault_sequences'], "every command and every failure between fork and exec: unknown commands, unopenable redirections, functions and substitutions in children",
  T + "Needs every path of the child between fork and exec, failures included.",
  ['src/eval.rs', 'src/ast.rs'],
  [('child branch of the fork', 'eval_pipeline in src/eval.rs'), ('child branch of the substitution', 'eval_subshell in src/ast.rs'), ('temp_exec', 'src/eval.rs')], (), ['rsh -c', 'number of times a later command runs'])
p('P21', 'exit ends the shell with the status it is given',
  "The exit builtin ends the shell at that point: no later command of the script runs, and the process ends with the number given, modulo 256, or, when none is given, with the status the last foreground pipeline left (a call of a function leaves 0). An argument that is not a number does not crash the shell.",
  ['inputs', 'histories'], "every argument of exit, at every place of a script, after every history of commands",
  T + "No test runs a builtin.",
  ['src/builtins.rs', 'src/eval.rs'],
  [('quit', 'src/builtins.rs'), ('exit status of the last command', 'src/eval.rs')], (), ['exit status of rsh'])
p('P22', 'The shell evaluates the commands it is started with, each once, then ends',
  "Started as rsh FILE WORD..., the shell evaluates every line of the file once, in order, each one when the one before it has completed, with $0 the name of the file and $1, $2, ... exactly the words, and ends at the end of the file. Started with -c, it evaluates the words behind -c, joined by blanks, once, and nothing else. Started with neither, it evaluates every line of its standard input once, in order. A word that starts with a dash and stands in front of FILE or -c is an option; behind FILE every word is a parameter.",
  ['inputs', 'programs'], "every list of words on the command line, every file and every input of any number of lines",
  T + "No test starts the shell.",
  ['src/main.rs', 'src/shell.rs'],
  [('parse_args and parse_dash_arg', 'src/main.rs'), ('script_loop, read_from_args and interactive_loop', 'src/main.rs'), ('set_input_args and set_arg_0', 'src/shell.rs')], (), ['rsh FILE', 'rsh -c', 'piped standard input'])
p('P23', 'Named contexts: NS::NAME means that name in that context, and nothing else',
  "After export context NS=FILE, whose commands run once in a scope of their own, or export context NS=self in a function, the variables and functions of that scope are reached as NS::NAME and only so: $NS::X is the value X has in that context, NS::f calls its function f, unset NS::X and unset -f NS::f remove exactly that variable or function, readonly NS::X and readonly NS::X=VALUE make exactly that variable read-only, after which it keeps its value, and unset -c NS removes exactly that context. Variables and functions of the scope stack with the same names are neither read nor changed, and a name whose context or member does not exist is undefined.",
  ['histories', 'inputs'], "every history of exported contexts, lookups, removals and read-only markings, every depth of function calls, every name with one ::",
  T + "No test exports a context.",
  ['src/context.rs', 'src/builtins.rs', 'src/shell.rs'],
  [('get_var, remove_var, get_function, remove_function, is_function, add_var_readonly, set_var_readonly for names with ::', 'src/context.rs'), ('export context', 'src/builtins.rs')], [('exported_contexts', 'the context each name stands for', 'ContextManager in src/context.rs')], ['arguments of a command', 'output of a script'])
with open('/verif/properties.jsonl', 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
