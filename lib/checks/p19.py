"""P19: no builtin can be made to crash the shell by the words it is given."""
import itertools
import time
import ai
import base
import cmds
import effects
import facts as factsmod
import proc
from checks import p18
from terms import *

RULE = ('Every function that carries out a builtin for a command is interpreted on a command without words, with an empty list of them, with one and with two (three in the thorough tier), none of them known, for everything that can abort the shell: an index beyond a list '
        'of known length, unwrapping what parsing, cutting or searching a word or looking up a table gave, an explicit panic, storing a name or value in the environment that it cannot hold, making a C string of a '
        'text that can contain a NUL. It is reported where words exist that satisfy every condition on the path to it; a path that depends on anything else than the words and lookups in the tables is not judged.')
SC = 'ast::SimpleCommand'
PASS = {'as_ref', 'as_mut', 'as_deref', 'as_deref_mut', 'cloned', 'copied', 'map', 'ok', 'take', 'clone', 'map_err', 'unwrap', 'expect'}
SEARCH = ('Iterator::next', 'Iterator::last', 'Iterator::nth', 'Iterator::find', 'Iterator::position', 'DoubleEndedIterator::next_back', 'Iterator::max', 'Iterator::min')
OUTSIDE = ('std::fs', 'std::env', 'std::process', 'nix::', 'libc::', 'std::io', 'std::time', 'std::path::Path::exists', 'std::path::Path::is_', 'std::path::Path::metadata', 'std::thread')


class Unknown(Exception):
    pass


def entries(F):
    return [k for k in sorted(F.reach('main')[1]) if k in F.local and not F.fns[k].get('closure') and any(ai.base_ty(t) == SC for t in proc.arg_types(F.fns[k]))
            and F.fns[k]['locals'][0]['ty'].startswith('std::result::Result<(), std::io::Error>')]


def words_of(t, out):
    if isinstance(t, T):
        if t.k == 'in' and isinstance(t.a[0], str) and t.a[0].startswith('w:'):
            out.add(t)
        for y in t.a:
            words_of(y, out)
    elif isinstance(t, (tuple, frozenset)):
        for y in t:
            words_of(y, out)
    return out


def literals(t, out):
    if isinstance(t, T):
        if t.k == 'str' and len(t.a[0]) < 12:
            out.add(t.a[0])
        elif t.k == 'char':
            out.add(chr(t.a[0]))
        for y in t.a:
            literals(y, out)
    elif isinstance(t, (tuple, frozenset)):
        for y in t:
            literals(y, out)
    elif isinstance(t, str) and len(t) < 12:
        pass
    return out


def value(t, w, s):
    """the text or truth value of a term when word w is s"""
    v = lambda x: value(x, w, s)
    if t is w:
        return s
    if t.k == 'str':
        return t.a[0]
    if t.k == 'char':
        return chr(t.a[0])
    if t.k == 'int':
        return t.a[0]
    if t.k == 'cat':
        return ''.join(v(x) for x in t.a)
    if t.k in ('before', 'after', 'rbefore', 'rafter'):
        x, p = v(t.a[0]), v(t.a[1])
        if p not in x:
            raise Unknown
        a, _, b = x.partition(p) if t.k[0] != 'r' else x.rpartition(p)
        return a if t.k.endswith('before') else b
    if t.k == 'piece' and t.a[0].k == 'pieces' and t.a[0].a[0] == 'split' and len(t.a[0].a) == 3:
        q = v(t.a[0].a[1]).split(v(t.a[0].a[2]))
        i = v(t.a[1])
        if not isinstance(i, int) or i >= len(q):
            raise Unknown
        return q[i]
    if t.k == 'pred' and len(t.a) == 3 and t.a[0] in ('contains', 'starts_with', 'ends_with'):
        x, p = v(t.a[1]), v(t.a[2])
        if not isinstance(x, str) or not isinstance(p, str):
            raise Unknown
        return p in x if t.a[0] == 'contains' else x.startswith(p) if t.a[0] == 'starts_with' else x.endswith(p)
    if t.k == 'len':
        x = v(t.a[0])
        if isinstance(x, str):
            return len(x.encode())
    raise Unknown


def parsed(t, w, s):
    """'Ok' or 'Err' for a number parsed from a text"""
    x = value(t.a[1], w, s)
    ty = t.a[0].split(':', 1)[1]
    body = x[1:] if x[:1] == '+' or x[:1] == '-' and ty[0] == 'i' else x
    if not body.isascii() or not body.isdigit():
        return 'Err'
    n = int(body) * (-1 if x[:1] == '-' else 1)
    bits = {'size': 64}.get(ty[1:], None) or int(ty[1:])
    lo, hi = (-2 ** (bits - 1), 2 ** (bits - 1) - 1) if ty[0] == 'i' else (0, 2 ** bits - 1)
    return 'Ok' if lo <= n <= hi else 'Err'


def holds(t, f, w, s):
    k = f[0]
    if k == 'v':
        if t.k == 'app' and isinstance(t.a[0], str) and t.a[0].startswith('parse:') and t.a[0][6] in 'iu':
            return parsed(t, w, s) == f[1]
        raise Unknown
    x = value(t, w, s)
    if k == 'c':
        return x == const(f[1])
    if k == 'n':
        return x not in {const(y) for y in f[1]}
    raise Unknown


def const(c):
    if not isinstance(c, T):
        return c
    if c.k in ('str', 'int', 'bool'):
        return c.a[0]
    if c.k == 'char':
        return chr(c.a[0])
    raise Unknown


def benign(t, f):
    """a condition that does not bear on the words: another thing went well, a table has an entry or not"""
    if words_of(t, set()):
        return False
    if t.k == 'call':
        return f in (('v', 'Ok'),)
    if t.k == 'static':
        return True
    return t.k == 'pred' and t.a[0] == 'mhas'


def witness(st, extra=()):
    """words for which everything on the path holds, and the extra conditions fn(w, s); None if none was found or it cannot be said"""
    per = {}
    for t, f in list(st.facts.items()):
        ws = words_of(t, set())
        if not ws:
            if not benign(t, f):
                return None
            continue
        if t.k == 'pred' and t.a[0] == 'mhas':
            if f[0] != 'c' or const(f[1]):
                return None    # what the table has to do with the word is not known
            continue
        if len(ws) > 1:
            return None
        per.setdefault(next(iter(ws)), []).append(lambda w, s, t=t, f=f: holds(t, f, w, s))
        per[next(iter(ws))].append(literals((t, f), set()) | {x for x in (f[1] if isinstance(f[1], frozenset) else [f[1]]) if isinstance(x, str) and f[0] in ('c', 'n')})
    for w, fn in extra:
        per.setdefault(w, []).append(fn)
    out = {}
    for w, L in per.items():
        lits = set().union(*[x for x in L if isinstance(x, set)]) if any(isinstance(x, set) for x in L) else set()
        tests = [x for x in L if not isinstance(x, set)]
        al = sorted({x for x in lits if x} | {'x', '1', '\0', '='})[:12]
        for s in itertools.chain([''], al, (a + b for a in al for b in al), (a + b + c for a in al for b in al for c in al)):
            try:
                if all(f(w, s) for f in tests):
                    out[w] = s
                    break
            except Unknown:
                continue
        else:
            return None
    return out


class Run:
    def __init__(self, F, R, key, n):
        self.F, self.R, self.key, self.n = F, R, key, n
        self.bads, self.seen, self.unjudged = {}, 0, 0
        self.stop = cmds.stops(F)
        self.memo = F.__dict__.setdefault('_p19', {})

    def quiet(self, k):
        """a function that need not be entered: it gives nothing back and takes no word, or ends elsewhere"""
        F = self.F
        r = self.memo.get(k)
        if r is None:
            f = F.fns[k]
            n = F.reach(k)[0]
            ret = f['locals'][0]['ty']
            text = any('str' in t or 'String' in t for t in proc.arg_types(f))
            r = self.memo[k] = k in self.stop or bool(n & (base.WAIT | base.FORK | base.KILL | base.EXEC)) and not any(SC in t for t in proc.arg_types(f)) and ret != 'std::result::Result<(), std::io::Error>' \
                or ret == '()' and not text or 'fmt::Formatter' in ' '.join(proc.arg_types(f)) or 'ast::CompleteCommand' in ret
        return r

    def run(self):
        F = self.F
        e = self.e = ai.Engine(F)
        e.max_states = 4000
        e.disj, e.mem_disj, e.widen_at, e.gens = 16, 200, 8, 8

        end = time.time() + 60

        def pre(e, st, c):
            if time.time() > end:
                raise ai.Budget('time')
            k = c.inst
            if k and k in F.local and not F.fns[k].get('closure') and self.quiet(k):
                return [(st, UNIT if F.fns[k]['locals'][0]['ty'] == '()' else e.fresh(st, 'call', c.site, c.rty))]
            return None
        e.pre.insert(0, pre)
        e.policy = lambda e, st, c, k: 'inline'
        e.on_panic = self.panic
        e.on_diverge = self.diverge
        e.hooks['std::ffi::CString::new'] = self.cstring
        e.hooks['std::env::set_var'] = self.setvar
        args = []
        ftys = F.adts[SC]['variants'][0]
        for t in proc.arg_types(F.fns[self.key]):
            args.append(self.command(ftys) if ai.base_ty(t) == SC else mk('in', 'a%d' % len(args), t))
        return base.run(e, self.key, args)

    def command(self, v):
        F = self.F
        fs = []
        for i, t in enumerate(v['ftys']):
            inner = t[len('std::option::Option<'):-1] if t.startswith('std::option::Option<') else t
            a = F.adts.get(inner)
            if a and 'std::vec::Vec<std::string::String>' in a['variants'][0]['ftys']:
                x = mk('adt', inner, '', *[mk('vec', *[mk('in', 'w:%d' % j, 'std::string::String') for j in range(self.n or 0)]) if u == 'std::vec::Vec<std::string::String>' else mk('in', 'x%d' % j, u)
                                           for j, u in enumerate(a['variants'][0]['ftys'])])
                fs.append(NONE if self.n is None and inner != t else SOME(x) if inner != t else x)
            else:
                fs.append(mk('in', 'c%d' % i, t))
        return mk('adt', SC, '', *fs)

    def report(self, st, kind, msg, span, fn, extra=()):
        self.seen += 1
        w = witness(st, extra)
        if w is None:
            self.unjudged += 1
            return
        text = ', '.join('word %d: %s' % (int(k.a[0][2:]) + 1, ascii(s)) for k, s in sorted(w.items(), key=lambda x: x[0].a[0]))
        self.bads.setdefault('%s:%s:%s' % (self.key, fn, kind), ('%s (%s, %s word(s)%s)' % (msg, self.key, self.n or 'no', '; e.g. ' + text if text else ''), '%s:%s' % tuple(span[:2]), [x[0] for x in self.e.stack] or [self.key]))

    def panic(self, e, st, fid, what, span, c=None):
        fn = e.stack[-1][0] if e.stack else self.key
        if what == 'bounds' and c is not None:
            v = e.val(st, c.args[0])
            i = e.res(st, c.args[1]) if len(c.args) > 1 else None
            if v.k == 'vec' and i is not None and i.k == 'int':
                self.report(st, 'bounds', 'an index beyond the end of a list crashes the shell', span, fn)
        elif what == 'unwrap' and c is not None and self.fallible(c, st):
            self.report(st, 'unwrap', 'a result that can be missing is unwrapped, which crashes the shell', span, fn)

    def diverge(self, e, st, c):
        if any(x in c.name for x in ('panic', 'unwrap_failed', 'expect_failed')):
            if not any(t.k == 'pred' and t.a[0] == 'mhas' for t in st.facts) and st.facts:
                self.report(st, 'panic', 'a panic crashes the shell', c.span, c.fn)

    def cstring(self, e, st, c):
        x = e.val(st, c.args[0])
        ws = words_of(x, set())
        out = [(st, OK(x))]
        if len(ws) == 1:
            w = next(iter(ws))
            s = st.fork()
            put = mk('app', 'nul', x)
            out.append((s, ERR(put)))
        return out

    def setvar(self, e, st, c):
        k, v = e.val(st, c.args[0]), e.val(st, c.args[1])
        for x, test, msg in ((k, lambda s: s == '' or '=' in s or '\0' in s, 'a name that is empty or contains = or a NUL'), (v, lambda s: '\0' in s, 'a value with a NUL')):
            ws = words_of(x, set())
            if len(ws) == 1:
                w = next(iter(ws))
                self.report(st, 'set_var', '%s is stored in the environment, which crashes the shell' % msg, c.span, c.fn, [(w, lambda w, s, x=x, test=test: test(value(x, w, s)))])
        return [(st, UNIT)]

    def fallible(self, c, st):
        """what is unwrapped comes from cutting, searching or reading a word, or from a lookup in a table"""
        e = self.e
        v = e.val(st, c.args[0])
        if v.k == 'adt' and v.a[1] == 'Err' and len(v.a) > 2 and isinstance(v.a[2], T) and v.a[2].k == 'app' and v.a[2].a[0] == 'nul':
            x = v.a[2].a[1]
            w = next(iter(words_of(x, set())))
            self.report(st, 'nul', 'a text with a NUL is made a C string, which crashes the shell', c.span, c.fn, [(w, lambda w, s: '\0' in value(x, w, s))])
            return False
        f = self.F.fns.get(c.fn)
        if not f:
            return False
        blk = [b for b in f['blocks'] if b['t']['k'] == 'call' and b.get('sp') == c.span and fname(b['t']) == c.name]
        if len(blk) != 1:
            return False
        src, seen = [], set()
        todo = [p for p in [loc(blk[0]['t']['a'][0])] if p is not None]
        if not todo:
            return False
        while todo:
            l = todo.pop()
            if l in seen:
                continue
            seen.add(l)
            if 1 <= l <= f['nargs']:
                return False
            for b in f['blocks']:
                if b.get('cu'):
                    continue
                for s in b['s']:
                    if s[0] == '=' and s[1]['l'] == l and not s[1]['p']:
                        r = s[2]
                        y = loc(r[1]) if r[0] == 'use' else r[2]['l'] if r[0] == 'ref' and not [q for q in r[2]['p'] if q[0] != 'd'] else None
                        if r[0] == 'agg' and len(r) > 3 and r[3] == 'None':
                            continue
                        if y is None and r[0] == 'ref' and ai.base_ty(f['locals'][r[2]['l']]['ty']) == SC:
                            src.append((None, None))
                            continue
                        if y is None:
                            return False
                        todo.append(y)
                t = b['t']
                if t['k'] == 'call' and t['d']['l'] == l and not t['d']['p']:
                    n = fname(t)
                    if n is None:
                        return False
                    if n.startswith(('std::option::Option', 'std::result::Result')) and n.rsplit('::', 1)[-1] in PASS and n.rsplit('::', 1)[-1] not in ('unwrap', 'expect') or n == 'std::clone::Clone::clone':
                        y = loc(t['a'][0])
                        if y is None:
                            return False
                        todo.append(y)
                    else:
                        src.append((n, t))
        return bool(src) and all(n is None or self.source(n, t) for n, t in src)

    def source(self, n, t):
        last = n.rsplit('::', 1)[-1]
        at = (t.get('at') or [''])[0]
        if n.startswith('std::str::') or n.startswith('std::string::'):
            return last in ('parse', 'split_once', 'rsplit_once', 'find', 'rfind', 'strip_prefix', 'strip_suffix', 'get', 'chars', 'pop')
        if n.endswith(SEARCH):
            return 'Chars' in at or 'CharIndices' in at
        if n.startswith(('std::slice::', 'std::vec::')):
            return last in ('get', 'first', 'last', 'pop', 'split_first', 'split_last') and 'String' in at
        if n.startswith(('std::collections::HashMap', 'std::collections::BTreeMap')):
            return last == 'get'
        k = t['f'].get('k') or {}
        inst = k.get('inst') if isinstance(k, dict) else None
        if inst and inst in self.F.local and not self.F.fns[inst].get('closure'):
            names = self.F.reach(inst)[0]
            return not any(x.startswith(OUTSIDE) for x in names) and any(x.startswith(('std::collections::HashMap', 'std::collections::BTreeMap')) and x.endswith('::get') for x in names) \
                and not any('Iterator::next' in x or 'Iterator::find' in x for x in names)
        return False


def fname(t):
    q = t['f'].get('k') if isinstance(t['f'], dict) else None
    return factsmod.norm(q['fn']) if isinstance(q, dict) and 'fn' in q else None


def loc(op):
    for k in ('m', 'c'):
        if k in op and isinstance(op[k], dict) and not [q for q in op[k]['p'] if q[0] != 'd']:
            return op[k]['l']
    return None


def check(F, R):
    R.rule = RULE
    E = entries(F) if SC in F.adts else []
    R.ob('functions carry out builtins', 'ok' if E else 'undecided')
    late = time.time() + (200 if R.tier != 'thorough' else 500)
    for key in E:
        for n in (None, 0, 1, 2) + ((3,) if R.tier == 'thorough' else ()):
            name = '%s with %s words' % (key, 'no' if n is None else n)
            if time.time() > late:
                R.ob(name, 'undecided')
                continue
            r = Run(F, R, key, n)
            R.count('configurations')
            try:
                r.run()
                done = True
            except ai.Budget:
                done = False
            R.functions |= {x for x in r.e.stats['inlined'] if x in F.local}
            R.count('places that can panic, on paths', r.seen)
            R.ob(name, 'violated' if r.bads else 'ok' if done else 'undecided')
            for k, (msg, where, path) in r.bads.items():
                R.violation(k, msg, where, path)
            if not done:
                break
