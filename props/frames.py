"""Frames: which functions may touch what the process shares with the system (used by P04, P13, P14, P15, P18, P20).

Every function of the program, signal handlers and closures included, is checked to have the effect only through functions that are under a contract of their own."""
from .common import *
from mirv.effects import Effects

WHERE = {
    'fork': (r'^nix::unistd::fork$|^libc::(v?fork|clone)$|posix_spawn|std::process::Command::(spawn|output|status|exec)|^libc::system$', ('rsh::eval::temp_fork', 'rsh::ast::SimpleCommand::eval_subshell')),
    'exec': (r'^nix::unistd::execv|^nix::unistd::fexecve|^libc::exec|CommandExt.*::exec$', ('rsh::eval::temp_exec', 'rsh::eval::temp_execve')),
    'descriptors': (r'^nix::unistd::(dup|close|pipe)|^libc::(dup|close|pipe)|FromRawFd>::from_raw_fd|IntoRawFd>::into_raw_fd|OwnedFd', ('rsh::eval::eval_pipeline', 'rsh::eval::eval_redirect', 'rsh::ast::SimpleCommand::eval_subshell')),
    'environment': (r'^std::env::(set_var|remove_var)|^libc::(setenv|unsetenv|putenv|clearenv)$|^nix::env::', ('rsh::eval::eval_assignment', 'rsh::builtins::export')),
    'dispositions': (r'^nix::sys::signal::(sigaction|signal)$|^libc::(sigaction|signal)$', ('rsh::trap::set_signal', 'rsh::trap::remove_handlers')),
    'mask': (r'sigprocmask|pthread_sigmask|thread_(block|unblock|set_mask|swap_mask)', ('rsh::trap::interrupts_off', 'rsh::trap::interrupts_on', 'rsh::trap::sig_block_all', 'rsh::trap::sigclearmask', 'rsh::trap::sig_clear_mask', 'rsh::trap::remove_handlers')),
    'scopes': (r'^rsh::(context::ContextManager::|shell::(Shell::)?)(push_context|push_context_new|pop_context)$|^std::vec::Vec::<std::rc::Rc<std::cell::RefCell<rsh::context::Context>>>::(push|pop|truncate|clear|remove|swap_remove|insert|drain|append|retain|resize|split_off|swap)', ('rsh::eval::eval_function', 'rsh::builtins::create_context_from_file')),
    'aliases': (r'^rsh::shell::(Shell::)?lookup_alias$', ('rsh::ast::SimpleCommand::alias_lookup',)),
    'directory': (r'^std::env::set_current_dir|^nix::unistd::f?chdir$|^libc::f?chdir$', ('rsh::builtins::change_directory',)),
}


def frame(what, text, start='^rsh::main$'):
    def g(C):
        e = C.engine()
        E = Effects(e)
        rx, owners = WHERE[what]
        sinks = E.find(rx)
        first = E.find(start)
        if not first:
            raise Unsupported('anchor not found: ' + start)
        cut = set()
        for o in owners:
            C.fn(e, o)
            cut |= E.find('^' + re.escape(o) + r'(::\{closure#\d+\})*(::<.*>)?$')
        C.covers('functions that do it', sum(1 for i in cut if E.edges[i] & sinks) if owners else 1)
        p = E.path(first, sinks, cut)
        C.claim(text, p is None, ' -> '.join(p or []), BY)
    return ('frame: ' + what, g)


BY = 'effect contracts over the calls of the MIR'
BUILTINS = ('change_directory', 'quit', 'return_cmd', 'jobs', 'fgbg', 'alias', 'unalias', 'export', 'eval_cmd', 'unset', 'pwd', 'readonly', 'exec_cmd', 'source', 'assignment')


def g_builtins(C):
    """no builtin starts a process: only the commands eval, source and export context evaluate can"""
    e = C.engine()
    E = Effects(e)
    fork, ex = E.find(WHERE['fork'][0]), E.find(WHERE['exec'][0])
    cut = E.find(r'^rsh::eval::eval(::<.*>)?$')
    if not cut:
        raise Unsupported('anchor not found: rsh::eval::eval')
    for b in BUILTINS:
        C.fn(e, 'rsh::builtins::' + b)
        s = E.find(r'^rsh::builtins::%s(::<.*>)?$' % b)
        p = E.path(s, fork, cut)
        C.claim('%s starts no process itself' % b, p is None, ' -> '.join(p or []), BY)
        if b != 'exec_cmd':
            p = E.path(s, ex, cut)
            C.claim('%s executes no program itself' % b, p is None, ' -> '.join(p or []), BY)
    C.covers('ways to start a process', len(fork))
