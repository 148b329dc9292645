"""writes known_findings.txt: the repairs made in /repo, by property"""
import subprocess
P = {'f4bb278': 'P22', 'ed3a75a': 'P17', 'e994d32': 'P18', '5aac9e3': 'P18', '5d89f67': 'P04', 'e1616a8': 'P15', 'f15518d': 'P07', 'cb84fc9': 'P05', '3541a0d': 'P16', '3039b40': 'P06', '2924a65': 'P14', '1a1189f': 'P18', 'a6ace77': 'P18', '7a19eaa': 'P17', '1a99941': 'P05',
     'c5b8207': 'P09', '25c4ef7': 'P13', 'f9ebd18': 'P08', 'ce91ea2': 'P08', 'f2ed653': 'P18', 'ce96544': 'P12', '5968114': 'P17', '906aa2d': 'P07', '51d9682': 'P21', '77a5228': 'P14',
     'b5911bc': 'P01', '1b6450c': 'P13', '6bab301': 'P09', 'e9b8065': 'P10', 'a236bae': 'P08', '3f2d920': 'P08', '38a7a7a': 'P11', '9dd0178': 'P16', '81b84b9': 'P20', 'fc5184f': 'P05',
     '30f2cd3': 'P06', '1fb0a4c': 'P06', '90d4d05': 'P19', 'bf6eb46': 'P14', '143769c': 'P11', '3efa9d5': 'P10', 'aa907e8': 'P10',
     'c2512eb': 'P06', '577e200': 'P02', 'e99c5e4': 'P02', '08493fa': 'P17', '12f5bd1': 'P02', '0073d1e': 'P13', 'ec6de58': 'P17', '8477a36': 'P16', '5ff3fbc': 'P16', 'e0c9e66': 'P02', '92eb111': 'P16', '40de35c': 'P02', '413d6e8': 'P22', 'ef0e74a': 'P22', '75fabc5': 'P17', '611fd8c': 'P10', 'aa61c47': 'P18', '3047619': 'P18', 'a88c926': 'P20', '9721ee7': 'P16', '4000ee9': 'P16', 'c32a3ca': 'P18', 'd0ea7a0': 'P17', '514936c': 'P18', '9ee3ca2': 'P23', '72afecb': 'P09'}
W = {'9ee3ca2': '`readonly ns::Y; unset ns::Y` removed it, `readonly ns::Q=6` changed a read-only ns::Q',
     '72afecb': '`readonly X=a::b` did nothing: the value was taken for a namespace',
     'f4bb278': 'a command that fails in a startup file (~/.rshrc) ended the shell before its first command',
     'ed3a75a': '`\'./a b\' x` was split at the blank, `\'"$(cmd)"\'` executed the command',
     'e994d32': '`unset 0; export context self` panicked',
     '5aac9e3': '`export context ns=self; readonly ns::zz` panicked',
     '5d89f67': 'with few descriptors left, a pipeline whose pipe() failed leaked a descriptor and left a job listed as running forever',
     'e1616a8': 'an interrupt sent while standard input is not writable (a pipe, < /dev/null) made the shell panic in its SIGINT path',
     'f15518d': '`jobs` borrowed the table while it deleted from it and panicked as soon as a job had ended',
     'cb84fc9': '`cmd > "a b"` opened a file whose name contained the quotes',
     '3541a0d': '`echo "$(echo \'$HOME\')"`: the output of a substitution was expanded and substituted again',
     '3039b40': '`sleep 9 | true &`: when the first process of a background pipeline ended, the shell waited for the others',
     '2924a65': 'the SIGCHLD handler took the shell lock and waited: a child that ended while the lock was held stopped or crashed the shell',
     '1a1189f': '`unset -v`, `readonly -p`, `exec -c` without operand: index out of bounds',
     'a6ace77': '`alias a=b-c`, `cd a-b`: an operand with a dash inside was taken for options',
     '7a19eaa': '`""` as command name: index out of bounds', '1a99941': '`cat < f` (redirection, no argument) lost the redirection',
     'c5b8207': '`readonly X` of an undefined X panicked', '25c4ef7': '`A="b" cmd`: the command saw the quotes in its environment',
     'f9ebd18': '`Y=$X` stored the text $X', 'ce91ea2': '`A=1 B=2` made only the first assignment', 'f2ed653': '`cd`, `unset`, `alias` ... without arguments panicked',
     'ce96544': '`/bin/ls` or an unset PATH: not found or panic', '5968114': '`"a$ b"`: the character behind a lone dollar sign was dropped',
     '906aa2d': 'a deleted job stayed in background_jobs, pid_to_job and as current job; fg then panicked', '51d9682': '`exit abc` panicked',
     '77a5228': 'signals stayed blocked after a function, a builtin in a pipeline or an evaluation error', 'b5911bc': '`! cmd` ignored the bang',
     '1b6450c': '`X=1; export X` did not put X in the environment', '6bab301': '`export X=`, `unset X`, `readonly X=` changed a read-only variable',
     'e9b8065': 'a function call overwrote the positional parameters of its caller', 'a236bae': '`X=99999999999999999999` panicked',
     '3f2d920': '`X=a=b` kept only a', '38a7a7a': '`alias l="ls -a"; l x` ran `ls x -a` with the words in the wrong order',
     '9dd0178': 'a substitution with more output than a pipe holds never ended; its pipe was closed twice', '81b84b9': 'a function called in a background function ended the shell',
     'fc5184f': '`>` kept the tail of a longer file', '30f2cd3': 'after a command killed by a signal the previous exit status was kept',
     '1fb0a4c': 'the shell went on when the first process of a pipeline had ended, and took its status', '90d4d05': 'the span of `&&` covered one character',
     'bf6eb46': '`cmd | eval : &`: the job was set up with no signal blocked',
     '143769c': '`alias al=""; al` panicked: the text of an alias without words has no first word',
     '3efa9d5': '`f() { . ./s x; }; g() { f; }; g a`: the arguments of the sourced script became the parameters of g',
     'aa907e8': '`f() { export context ns=FILE; }` where a command of FILE fails: the scope of the file stayed, and the parameters of f were those of its caller afterwards',
     'c2512eb': '`fg` did not wait for the job it let go on, and `bg` of a pipeline whose first process had ended waited for it', '577e200': '`fg x`, `bg x`, `fg 7` where no such job is: panic', 'e99c5e4': '`cd` without HOME panicked',
     '08493fa': '`p out "("`, `# (` typed in or piped in: the line was taken as incomplete and swallowed the following ones', '12f5bd1': '`. /etc/shadow` (a file that cannot be read) panicked', '0073d1e': '`export ""` panicked in setenv',
     'ec6de58': '`X=\'a\u3000b\'; $X`: the expanded name was cut inside of a character: panic', '8477a36': '`args "$(printf ...)"`: output with newlines or tabs but no space was one word, with one space every white space separated words',
     '5ff3fbc': '`echo "$(a &&)"` ended the shell', 'e0c9e66': '`unset PS1` ended the shell before the next command was read', '92eb111': 'a substitution whose output is no UTF-8 ended the shell', '40de35c': '`rsh FILE` never ended: it kept evaluating the empty text at the end of the file',
     '413d6e8': '`rsh ""` panicked', 'ef0e74a': '`rsh script "a \'b"`: quotes in a parameter of a script were removed',
     '75fabc5': '`X="\'q"; cmd $X`: quotes in the value of a variable were taken as syntax, and `"$(cmd)"` in a value was executed',
     '611fd8c': '`f \'&\' b`: a function lost its arguments from a lone & on', 'aa61c47': '`pwd` in a directory that has been removed panicked', '3047619': '`readonly X=1; readonly -p` overflowed the stack: the text of a variable was defined by itself',
     'a88c926': 'no process can be made (RLIMIT_NPROC): `a && b` ran b, `a &` made a job with the process -1, a pipeline left its pipes open', '9721ee7': '`echo "$(x)"` where no process or no pipe can be made: panic',
     '4000ee9': '`echo "$(cat /proc/self/cmdline)"`: panic', 'c32a3ca': '`export "A=a\\0b"`, `readonly "=c"; export ""`, `exec "a\\0b"`: panic in setenv or in CString::new',
     'd0ea7a0': 'a word with a NUL character ended the child or the shell with a panic', '514936c': '`"/bin/a\\0b"`: the child panicked instead of reporting a command that is not found'}
L = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], stdout=subprocess.PIPE, text=True).stdout.split('\n')
out = ['# Repaired defects (one "fix:" commit each in /repo). A fixed entry suppresses nothing.', '# A line "finding: property=<id> <key>: <what fails>" would list a defect that is not repaired; there is none.']
for l in L:
    h, _, s = l.partition(' ')
    if s.startswith('fix:'):
        k = [x for x in P if h.startswith(x) or x.startswith(h)]
        out.append('fixed: property=%s %s %s' % (P[k[0]], h, W[k[0]]) if k else 'TODO ' + l)
open('/verif/known_findings.txt', 'w').write('\n'.join(out) + '\n')
