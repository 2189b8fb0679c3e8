"""Shared parts of the checks: entry points, effect names, inlining policy."""
import ai
from terms import *
from facts import norm

EXIT = {'std::process::exit', 'std::process::abort', 'nix::libc::_exit', 'libc::_exit', 'libc::exit', 'nix::libc::exit'}
FORK = {'nix::unistd::fork', 'libc::fork', 'nix::libc::fork'}
EXEC = {'nix::unistd::execv', 'nix::unistd::execve', 'nix::unistd::execvp', 'nix::unistd::execvpe'}
PIPE = {'nix::unistd::pipe', 'nix::unistd::pipe2'}
DUP = {'nix::unistd::dup2', 'nix::unistd::dup3', 'nix::unistd::dup'}
CLOSE = {'nix::unistd::close'}
WAIT = {'nix::sys::wait::waitpid', 'nix::sys::wait::wait', 'nix::sys::wait::waitid'}
MASK = {'nix::sys::signal::sigprocmask', 'nix::sys::signal::pthread_sigmask', 'nix::sys::signal::SigSet::thread_set_mask', 'nix::sys::signal::SigSet::thread_block',
        'nix::sys::signal::SigSet::thread_unblock', 'nix::sys::signal::SigSet::thread_swap_mask'}
SIGACT = {'nix::sys::signal::sigaction', 'nix::sys::signal::signal'}
KILL = {'nix::sys::signal::kill', 'nix::sys::signal::killpg'}


def callees_named(F, key):
    return {n for n, _ in F.callees.get(key, ())}


def policy(F, interesting, leaf_blocks=40, never=()):
    """inline what can reach an interesting effect, and small loop-free leaves; summarise the rest as
    an unknown result with its reachable memory havocked"""
    cache = {}

    def size(key):
        ks = F.reach(key)[1]
        return sum(len(F.fns[k]['blocks']) for k in ks if k in F.fns and F.fns[k]['local'])

    def pol(e, st, c, key):
        r = cache.get(key)
        if r is None:
            names, keys = F.reach(key)
            if key in never:
                r = 'opaque'
            elif not F.fns[key]['local']:
                r = 'inline'
            elif names & interesting or keys & interesting:
                r = 'inline'
            elif size(key) <= leaf_blocks:
                r = 'inline'
            else:
                r = 'opaque'
            cache[key] = r
        return r
    return pol


def engine(F, interesting=(), **kw):
    e = ai.Engine(F)
    e.policy = policy(F, set(interesting), **kw)
    return e


def inputs(f, byval=()):
    return [mk('in', i, f['locals'][i + 1]['ty']) for i in range(f['nargs'])]


def run(e, key, args=None, st=None):
    f = e.F.fns[key]
    st = st or ai.St()
    return e.run(key, args or inputs(f), st, e.new_frame(0, 0, key))
