"""Characteristic effects of a function: what it can do to the shell's state or to the system, read off the
types and callees of its MIR, not off names of rsh's own functions."""
import re
from facts import norm

NAMED = {
    'std::env::set_current_dir': 'chdir', 'nix::unistd::chdir': 'chdir', 'std::env::set_var': 'setenv', 'std::env::remove_var': 'unsetenv',
    'std::env::current_dir': 'getcwd', 'nix::unistd::getcwd': 'getcwd', 'std::process::exit': 'exit', 'nix::sys::signal::kill': 'kill', 'nix::sys::signal::killpg': 'kill',
    'nix::unistd::execv': 'exec', 'nix::unistd::execve': 'exec', 'nix::unistd::execvp': 'exec', 'nix::unistd::execvpe': 'exec',
    'nix::unistd::fork': 'fork', 'nix::sys::wait::waitpid': 'wait', 'std::fs::File::open': 'open', 'std::fs::read_to_string': 'open',
    'std::env::vars_os': 'listenv', 'std::env::vars': 'listenv',
}
HM = re.compile(r'std::collections::(?:HashMap|BTreeMap|HashSet)(?:<[^>]*>)?(?:::<[^>]*>)?::(\w+)$')
KIND = [('context::Var', 'var'), ('ast::FunctionBody', 'func'), ('jobs::Job', 'job'), ('context::Context', 'context')]


def mapkind(targs):
    t = ' '.join(targs[:2])
    for (s, k) in KIND:
        if s in t:
            return k
    if len(targs) >= 2 and targs[0] == 'std::string::String' and targs[1] == 'std::string::String':
        return 'alias'
    if 'Pid' in t:
        return 'pid'
    return None


def of_call(name, res, targs):
    for n in (res, name):
        if n in NAMED:
            return NAMED[n]
        m = HM.match(n or '')
        if m:
            op = m.group(1)
            k = mapkind(targs)
            if k and op in ('insert', 'remove', 'clear', 'entry', 'retain', 'drain', 'remove_entry'):
                return '%s-%s' % (k, 'insert' if op in ('insert', 'entry') else 'remove')
    return None


def direct(F, key):
    """set of effects of the function's own statements and calls"""
    cache = F.__dict__.setdefault('_eff', {})
    r = cache.get(key)
    if r is not None:
        return r
    r = set()
    f = F.fns[key]

    def places(pl):
        for p in pl.get('p', ()):
            if p[0] == 'f' and len(p) > 2 and p[2] == 'readonly':
                return True
        return False
    for b in f['blocks']:
        if b.get('cu'):
            continue
        for s in b['s']:
            if s[0] == '=':
                if places(s[1]):
                    r.add('readonly-write')
        t = b['t']
        if t['k'] == 'call':
            c = t['f'].get('k')
            if isinstance(c, dict) and 'fn' in c:
                e = of_call(norm(c['fn']), norm(c.get('res') or c['fn']), c.get('targs') or [])
                if e:
                    r.add(e)
                if norm(c['fn']).endswith('Atomic::<i32>::store'):
                    r.add('status-write')
                if 'Parser::new' in c['fn'] or c['fn'].endswith('Parser::parse'):
                    r.add('parse')
    cache[key] = r
    return r


def reach(F, key, stop=frozenset(), names=None):
    """effects reachable from key without entering the functions in `stop` (their key is added instead)"""
    out, seen, todo = set(), set(), [key]
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        if k in stop:
            out.add(stop[k] if isinstance(stop, dict) else k)
            continue
        if k not in F.fns or (k.startswith('<') and k.split(' as ')[0][1:] in F.statics):
            continue
        out |= direct(F, k)
        for (nm, inst) in F.callees.get(k, ()):
            if inst and inst in F.fns and (F.fns[inst]['local'] or F.fns[inst].get('closure')):
                todo.append(inst)
    return out
