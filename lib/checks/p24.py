"""P24: program lookup takes the first PATH entry holding a file of that name."""
import ai
import base
import facts
import proc
from terms import *

RULE = ('The functions that look a program up and execute it are interpreted (MIR) from the search list to exec(): a text handed to exec must have been tested to be a regular file '
        'last of all, be the name itself when it holds a slash and an entry of PATH joined to the name otherwise; the entries must be taken in order, cut at colons, none after the '
        'first that holds such a file; and what ends without a file must not get to exec and must be an error to its caller.')

FILE = {'std::fs::Metadata::is_file', 'std::fs::FileType::is_file'}
META = {'std::fs::metadata': 'meta', 'std::path::Path::metadata': 'meta', 'std::fs::symlink_metadata': 'lmeta', 'std::path::Path::symlink_metadata': 'lmeta'}
PROBES = {'std::path::Path::is_file': 'file', 'std::path::Path::exists': 'exists', 'std::path::Path::try_exists': 'exists', 'std::fs::exists': 'exists', 'std::path::Path::is_dir': 'dir',
          'std::fs::Metadata::is_dir': 'dir', 'std::path::Path::is_symlink': 'exists'}
TESTS = FILE | set(META) | set(PROBES)


def sub(t):
    todo, seen = [t], set()
    while todo:
        y = todo.pop()
        if isinstance(y, T):
            if id(y) in seen:
                continue
            seen.add(id(y))
            yield y
            todo += list(y.a)
        elif isinstance(y, tuple):
            todo += list(y)


def strip(e, st, v):
    """the text behind wrappers that do not change it"""
    for _ in range(12):
        v = e.res(st, e.val(st, v))
        if v.k == 'app' and isinstance(v.a[0], str) and v.a[0].rsplit('::', 1)[-1] in ('new', 'as_ref', 'from', 'into', 'to_string', 'clone', 'to_owned', 'as_str', 'deref', 'as_path', 'as_c_str', 'into_string',
                                                                                      'to_path_buf', 'borrow', 'into_boxed_str', 'as_os_str', 'as_bytes', 'to_str', 'to_string_lossy', 'as_mut_os_str') and len(v.a) > 1:
            v = v.a[1]
        elif v.k in ('f', 'proj') and isinstance(v.a[0], T) and len(v.a) > 1 and v.a[1] in ('Ok', 'Some'):
            v = v.a[0]
        elif v.k == 'adt' and v.a[1] in ('Ok', 'Some', 'Borrowed', 'Owned') and len(v.a) == 3:
            v = v.a[2]
        elif v.k == 'adt' and v.a[0].split('<')[0].rsplit('::', 1)[-1] in ('PathBuf', 'OsString', 'CString', 'Path', 'Box') and len(v.a) == 3:
            v = v.a[2]
        else:
            return v
    return v


def is_path_text(t):
    """the value of the variable PATH"""
    for y in sub(t):
        if y.k in ('mval', 'mget', 'mhas', 'app', 'ev') and any(isinstance(a, T) and a.k == 'str' and a.a[0] == 'PATH' for a in y.a):
            return True
    return False


def cut_of(t):
    """(kind, list) when t is a part of the value of PATH"""
    for y in sub(t):
        if y.k == 'piece' and y.a[0].k == 'pieces' and is_path_text(y.a[0]):
            return y.a[0].a[0], y.a[0].a[2] if len(y.a[0].a) > 2 else None, y
        if y.k in ('before', 'after', 'rbefore', 'rafter') and is_path_text(y.a[0]):
            return y.k, y.a[1], y
        if y.k == 'ix' and any(z.k == 'pieces' and is_path_text(z) for z in sub(y.a[0])):
            z = [z for z in sub(y.a[0]) if z.k == 'pieces'][0]
            return z.a[0], z.a[2] if len(z.a) > 2 else None, y
    return None


def colon(t):
    return isinstance(t, T) and (t.k == 'char' and t.a[0] == 58 or t.k == 'str' and t.a[0] == ':')


class Run:
    def __init__(self, F, R):
        self.F, self.R = F, R
        self.execs = 0
        self.tests = 0
        self.pieces = 0
        self.unknown = 0

    def bad(self, key, msg, c, path=None):
        self.R.violation(key, msg, '%s:%s' % tuple(c.span[:2]) if c is not None and c.span else None, path or [])

    def engine(self):
        e = ai.Engine(self.F)
        e.max_states = 6000
        e.policy = self.policy
        h = e.hooks
        g = lambda st: proc.get(st, 'hit')

        def tested(e, st, c, x, what):
            self.tests += 1
            a, b = st, st.fork()
            if proc.get(st, 'hit') is None:
                proc.put(a, 'hit', (x, what))
            if what == 'file':
                # the entry under test holds no such file: the next may be looked at
                proc.put(b, 'miss', x)
            return [(a, TRUE), (b, FALSE)]

        def meta(kind):
            def f(e, st, c):
                x = strip(e, st, c.args[0])
                b = st.fork()
                proc.put(b, 'miss', x)
                return [(st, OK(mk(kind, x))), (b, ERR(e.fresh(b, 'call', c.site, c.res)))]
            return f
        for n, k in META.items():
            h[n] = meta(k)

        def ftype(e, st, c):
            v = e.res(st, e.val(st, c.args[0]))
            return [(st, v)] if v.k in ('meta', 'lmeta') else None
        h['std::fs::Metadata::file_type'] = ftype

        def isfile(e, st, c):
            v = e.res(st, e.val(st, c.args[0]))
            if v.k == 'lmeta':
                self.bad('symlink', 'a program that is a symbolic link in a PATH directory is passed over', c)
            if v.k in ('meta', 'lmeta'):
                return tested(e, st, c, v.a[0], 'file')
            return None
        for n in FILE:
            h[n] = isfile

        def probe(what):
            def f(e, st, c):
                v = e.res(st, e.val(st, c.args[0]))
                x = v.a[0] if v.k in ('meta', 'lmeta') else strip(e, st, c.args[0])
                if what == 'file':
                    return tested(e, st, c, x, what)
                if what == 'dir':
                    return None
                return None
            return f
        for n, w in PROBES.items():
            h[n] = probe(w)

        def exec_(e, st, c):
            self.execs += 1
            x = strip(e, st, c.args[0])
            hit = proc.get(st, 'hit')
            if not known(x):
                self.unknown += 1
                self.R.note('not decided: %s is executed' % show(x, 4))
            elif hit is None:
                self.bad('untested:%s' % c.fn, 'what is executed was not found to be a regular file', c, ['executed: %s' % show(x, 6)])
            elif not same(hit[0], x) and not known(hit[0]):
                self.unknown += 1
            elif not same(hit[0], x):
                self.bad('other:%s' % c.fn, 'what is executed is not the file that was found', c, ['found: %s' % show(hit[0], 6), 'executed: %s' % show(x, 6)])
            else:
                self.R.sample('exec of %s, found to be a regular file' % show(x, 5))
            p = cut_of(x)
            sl = self.slash(e, st, x)
            if p is None:
                if sl is False and self.subject(st, x):
                    self.bad('unsearched:%s' % c.fn, 'a name without a slash is executed without being searched for in PATH', c, ['executed: %s' % show(x, 6)])
                elif sl is not True:
                    self.unknown += 1
            else:
                if sl is True:
                    self.bad('searched:%s' % c.fn, 'a name that holds a slash is searched for in PATH', c, ['executed: %s' % show(x, 6)])
                elif sl is None:
                    self.bad('searched:%s' % c.fn, 'a name is searched for in PATH whether or not it holds a slash', c, ['executed: %s' % show(x, 6)])
                kind, sep, y = p
                if kind not in ('split', 'before', 'split_terminator', 'after', 'args') or (sep is not None and not colon(sep)):
                    if kind in ('rsplit', 'rbefore', 'rafter'):
                        self.bad('order', 'the entries of PATH are taken from its end', c)
                    elif sep is not None and sep.k in ('char', 'str'):
                        self.bad('separator', 'PATH is cut at something other than colons', c)
                if kind == 'before' and not proc.get(st, 'iter'):
                    self.unknown += 1
                self.join(e, st, c, x, y)
            proc.put(st, 'exec', True)
            t = e.fresh(st, 'call', c.site, c.res)
            return [(st, ERR(t))]
        for n in base.EXEC:
            h[n] = exec_

        def on_iter(e, st, c, it, elem, rty):
            x = it
            rev = False
            while isinstance(x, T) and x.k in ('rev', 'enum', 'cloned', 'peek', 'map', 'filter', 'fmap', 'skip', 'take', 'tw'):
                if x.k == 'rev':
                    rev = not rev
                if x.k == 'skip' and elem is not None and any(z.k == 'pieces' and is_path_text(z) for z in sub(x)):
                    self.bad('skip', 'entries of PATH are left out of the search', c)
                x = x.a[0]
            if not (isinstance(x, T) and x.k == 'iter' and x.a[0].k == 'pieces' and is_path_text(x.a[0])):
                return
            self.pieces += 1
            proc.put(st, 'iter', True)
            if rev:
                self.bad('order', 'the entries of PATH are searched from the last to the first', c)
            if proc.get(st, 'hit') is not None:
                self.bad('later', 'the search of PATH goes on after a regular file was found', c, ['found: %s' % show(proc.get(st, 'hit')[0], 6)])
            if elem is not None:
                proc.put(st, 'miss', None)
                proc.put(st, 'cur', True)
            else:
                proc.put(st, 'cur', None)
        e.on_iter = on_iter
        return e

    def subject(self, st, x):
        """is x the text that was looked at for a slash"""
        return any(isinstance(t, T) and t.k in ('pred', 'app') and any(a is x for a in t.a) for t in st.facts)

    def slash(self, e, st, x):
        """does the name hold a slash, as far as the path taken has tested"""
        for t, f in st.facts.items():
            if isinstance(t, T) and t.k in ('pred', 'app') and f[0] == 'c':
                nm = [a for a in t.a if isinstance(a, str)]
                ok = any(isinstance(a, T) and (a.k == 'char' and a.a[0] == 47 or a.k == 'str' and a.a[0] == '/') for a in t.a)
                if ok and nm and nm[0].rsplit('::', 1)[-1] in ('contains',):
                    return f[1] is TRUE
                if ok and nm and nm[0].rsplit('::', 1)[-1] in ('starts_with', 'ends_with'):
                    if f[1] is TRUE:
                        return True
        for t, f in st.facts.items():
            if isinstance(t, T) and t.k == 'app' and isinstance(t.a[0], str) and t.a[0].rsplit('::', 1)[-1] in ('find', 'rfind') and f[0] == 'v':
                return f[1] == 'Some'
        return None

    def join(self, e, st, c, x, y):
        """directory, slash, name"""
        if x.k != 'cat':
            return
        parts = [p for p in x.a if isinstance(p, T)]
        if len(parts) < 2:
            return
        if not any(z is y for z in sub(parts[0])):
            self.bad('join', 'the text executed does not begin with the PATH entry', c, ['executed: %s' % show(x, 6)])
        if len(parts) >= 3 and parts[1].k == 'str' and parts[1].a[0] != '/':
            self.bad('join', 'the PATH entry and the name are not joined by a slash', c, ['executed: %s' % show(x, 6)])
        if len(parts) == 2 and parts[1].k != 'str':
            self.bad('join', 'the PATH entry and the name are not joined by a slash', c, ['executed: %s' % show(x, 6)])

    def policy(self, e, st, c, k):
        F = self.F
        if not F.fns[k]['local']:
            return 'inline'
        r = self.cache.get(k)
        if r is None:
            n, ks = F.reach(k)
            size = sum(len(F.fns[x]['blocks']) for x in ks if x in F.fns and F.fns[x]['local'])
            r = self.cache[k] = 'inline' if n & TESTS or n & base.EXEC or 'context::Var' in F.fns[k]['locals'][0]['ty'] or size <= 30 else 'opaque'
        return r
    cache = None


def known(x):
    """is it a text the analysis has followed"""
    if x.k in ('u', 'w', 'hv', 'call', 'any', 'top'):
        return False
    if x.k == 'cat':
        return all(known(y) for y in x.a if isinstance(y, T))
    return True


def same(a, b):
    return a is b or show(a, 12) == show(b, 12)


def check(F, R):
    R.rule = RULE
    names, keys = F.reach('main')
    stop = set(proc.eval_entry(F))
    roots = []
    cand = [k for k in F.local if k in keys and (set(n for n, _ in F.callees.get(k, ())) or True) and F.reach(k)[0] & base.EXEC and not F.reach(k)[1] & stop]
    for k in cand:
        n = F.reach(k)[0]
        if n & TESTS and not any(inst != k and inst in cand and F.reach(inst)[0] & TESTS for _, inst in F.callees.get(k, ())):
            roots.append(k)
    noexec = [k for k in cand if not F.reach(k)[0] & TESTS and base.callees_named(F, k) & base.EXEC]
    R.count('functions that look a program up and execute it', len(roots))
    callers = {k for k in F.local if any(inst in roots for _, inst in F.callees.get(k, ()))}
    if not roots:
        R.ob('a program is looked up before it is executed', 'violated' if noexec else 'undecided')
        if noexec:
            sp = F.fns[noexec[0]]['span']
            R.violation('nolookup', '%s executes a program no file was looked for' % noexec[0], '%s:%s' % (sp[0], sp[1]))
        return
    for k in sorted(roots):
        ru = Run(F, R)
        ru.cache = {}
        e = ru.engine()
        ob = '%s executes only the first file found' % k
        try:
            outs = base.run(e, k)
        except ai.Budget:
            R.ob(ob, 'undecided')
            continue
        R.functions |= e.stats['inlined'] | {k}
        R.ob(ob, 'ok' if ru.execs and ru.tests and ru.pieces and not ru.unknown else 'undecided')
        R.count('exec calls judged', ru.execs)
        R.count('file tests followed', ru.tests)
        R.count('steps through the entries of PATH', ru.pieces)
        ob2 = '%s reports an error when no file was found' % k
        R.ob(ob2)
        rty = F.fns[k]['locals'][0]['ty']
        for st, v in outs:
            ok = v.k == 'adt' and v.a[1] in ('Ok',) or e.is_variant(st, v, 'Ok') is True
            if 'Result' in rty and ok and not proc.get(st, 'exec'):
                R.violation('silent:%s' % k, '%s reports no error although no program was executed' % k, '%s:%s' % tuple(F.fns[k]['span'][:2]))
                R.ob(ob2, 'violated')
            if proc.get(st, 'hit') is not None and not proc.get(st, 'exec') and proc.get(st, 'hit')[1] == 'file':
                R.violation('dropped:%s' % k, '%s finds a file and does not execute it' % k, '%s:%s' % tuple(F.fns[k]['span'][:2]), ['found: %s' % show(proc.get(st, 'hit')[0], 6)])
                R.ob(ob2, 'violated')
            if proc.get(st, 'cur') and proc.get(st, 'hit') is None and not proc.get(st, 'exec'):
                R.violation('early:%s' % k, '%s ends the search before the last entry of PATH although no file was found' % k, '%s:%s' % tuple(F.fns[k]['span'][:2]))
                R.ob(ob2, 'violated')
            if not proc.get(st, 'iter') and self_slashfree(ru, e, st) and not proc.get(st, 'exec') and pathset(st):
                R.violation('unsearched:%s' % k, '%s gives up on a name without a slash without searching PATH' % k, '%s:%s' % tuple(F.fns[k]['span'][:2]))
                R.ob(ob2, 'violated')
    R.count('callers', len(callers))
    R.assume = ['the file system does not change between the test and exec()', 'PATH is the variable of that name in the shell (P14 says which)', 'NUL bytes in names are excluded']


def self_slashfree(ru, e, st):
    return ru.slash(e, st, None) is False


def pathset(st):
    return any(isinstance(t, T) and t.k == 'mhas' and any(isinstance(a, T) and a.k == 'str' and a.a[0] == 'PATH' for a in t.a) and f == ('c', TRUE) for t, f in st.facts.items())
