"""One abstract run of the shell's main function: what is read, parsed, evaluated, loaded, saved, and how it ends.
The evaluation of a syntax tree is an opaque step (its own properties are decided elsewhere)."""
import ai
import base
import proc
from proc import get, put
from terms import *

READLINE = 'rustyline::Editor::<H, I>::readline'
READLINES = {READLINE, 'rustyline::Editor::<H, I>::readline_with_initial'}
LOADH = {'rustyline::Editor::<H, I>::load_history'}
SAVEH = {'rustyline::Editor::<H, I>::save_history', 'rustyline::Editor::<H, I>::append_history'}
READ_LINE = {'std::io::BufRead::read_line', 'std::io::Stdin::read_line'}
LINES = {'std::io::BufRead::lines'}
OPEN = {'std::fs::File::open', 'std::fs::read_to_string', 'std::fs::OpenOptions::open'}


def is_parse(name):
    return name.endswith('CompleteCommandParser::parse') and 'grammar' in name


def is_status_store(F, name):
    return name.endswith('Atomic::<i32>::store')


def sub(t):
    todo, seen = [t], set()
    while todo:
        y = todo.pop()
        if isinstance(y, T):
            if id(y) in seen:
                continue
            seen.add(id(y))
            yield y
            todo += list(y.a)
        elif isinstance(y, tuple):
            todo += list(y)


def lazy(F):
    """the functions that initialise statics on first use"""
    return {k for k in F.fns if k.endswith(' as std::ops::Deref>::deref') and k + '::__static_ref_initialize' in F.fns}


class Main:
    """interprets `root` (main by default) and calls the overridable events"""

    def __init__(self, F, want=()):
        self.F = F
        self.want = want
        self.lazy = lazy(F)
        self.viol = {}
        self.counts = {}
        self.evalfns = set(proc.eval_entry(F)) | proc.andor_fns(F) | set(proc.pipeline_fns(F))

    def bad(self, prop, key, msg, c, path=()):
        w = '%s:%s' % tuple(c.span[:2]) if c is not None and getattr(c, 'span', None) else None
        self.viol.setdefault((prop, key), (msg, w, list(path)))

    def tick(self, n):
        self.counts[n] = self.counts.get(n, 0) + 1

    # ---------------------------------------------------------------- run
    def run(self, root='main', args=None, st=None):
        F = self.F
        e = self.e = ai.Engine(F)
        e.max_states = 8000
        e.disj = 10
        eff = READLINES | LOADH | SAVEH | READ_LINE | LINES | base.EXIT | {'std::fs::File::open'} | set(self.want)
        cache = {}

        def pol(e, st, c, k):
            if not F.fns[k]['local']:
                return 'inline'
            r = cache.get(k)
            if r is None:
                n, ks = proc.limited_reach(F, k, self.evalfns | self.lazy)
                if k in self.evalfns or 'grammar::' in k:
                    r = 'opaque'
                elif root == 'main' and any(is_parse(x) for x in n) and n & OPEN and not n & (READLINES | READ_LINE):
                    r = 'opaque'        # start-up files: decided on their own
                elif n & eff or any(is_parse(x) for x in n) or ks & self.evalfns:
                    r = 'inline'
                else:
                    size = sum(len(F.fns[x]['blocks']) for x in ks if x in F.fns and F.fns[x]['local'])
                    r = 'inline' if size <= 30 or self.more(k, n, ks) else 'opaque'
                cache[k] = r
            return r
        e.policy = pol
        e.pre.append(self.pre)
        h = e.hooks

        def rl(e, st, c):
            self.on_read(e, st, c, 'rl')
            t = e.fresh(st, 'call', c.site, c.res)
            out = []
            for kind in ('line', 'Interrupted', 'Eof', 'error'):
                s = st.fork() if kind != 'error' else st
                x = mk('f', t, 'Ok', 0)
                put(s, 'src', 'rl')
                put(s, 'n', 0)
                put(s, 'perr', None)
                put(s, 'rd', (kind, x if kind == 'line' else None))
                if kind == 'line':
                    v = OK(x)
                elif kind == 'error':
                    y = mk('f', t, 'Err', 0)
                    s.facts[y] = ('nv', frozenset(('Interrupted', 'Eof')))
                    v = ERR(y)
                else:
                    v = ERR(mk('adt', 'rustyline::error::ReadlineError', kind))
                out.append((s, v))
            return out
        for n in READLINES:
            h[n] = rl

        def read_line(e, st, c):
            self.on_read(e, st, c, 'file')
            t = e.fresh(st, 'call', c.site, c.res)
            buf = c.args[1]
            loc, path = e.deref(buf)
            out = []
            x = mk('line', t)
            for kind in ('line', 'Eof', 'error'):
                s = st.fork() if kind != 'error' else st
                put(s, 'src', 'file')
                put(s, 'n', 0)
                put(s, 'perr', None)
                put(s, 'rd', (kind, x if kind == 'line' else None))
                if kind == 'line':
                    old = e.load(s, loc, path)
                    put(s, 'stale', not (old.k == 'str' and old.a[0] == '' or old.k == 'cat' and not old.a or show(old, 3) in ("''", 'cat()', "String('')")))
                    e.store(s, loc, path, x)
                    n = mk('f', t, 'Ok', 0)
                    e.zadd(s, None, n, -1)
                    s.facts[n] = ('n', frozenset([I(0)]))
                    v = OK(n)
                elif kind == 'Eof':
                    v = OK(I(0))
                else:
                    v = ERR(mk('f', t, 'Err', 0))
                out.append((s, v))
            return out
        for n in READ_LINE:
            h[n] = read_line

        def exit_(e, st, c):
            self.on_exit(e, st, c, e.val(st, c.args[0]) if c.args else None)
            return []
        for n in base.EXIT:
            h[n] = exit_

        def hist(what):
            def f(e, st, c):
                p = e.res(st, e.val(st, c.args[1]))
                self.on_history(e, st, c, what, p)
                put(st, what, p)
                return [(st, e.fresh(st, 'call', c.site, c.res))]
            return f
        for n in LOADH:
            h[n] = hist('load')
        for n in SAVEH:
            h[n] = hist('save')

        def sigact(e, st, c):
            sig = e.val(st, c.args[0])
            act = e.val(st, c.args[1])
            hd = None
            if act.k == 'app' and 'SigAction::new' in act.a[0]:
                hd = e.val(st, act.a[1])
            elif act.k == 'adt' and 'SigHandler' in act.a[0]:
                hd = act
            name = sig.a[1] if sig.k == 'adt' else None
            d = dict(get(st, 'disp', ()))
            if name:
                k = hd.a[1] if hd is not None and hd.k == 'adt' else '?'
                fn = None
                if k == 'Handler' and len(hd.a) > 2:
                    fn = hd.a[2]
                d[name] = (k, fn)
                self.on_sigaction(e, st, c, name, k, fn)
                put(st, 'disp', tuple(sorted(d.items(), key=lambda z: z[0])))
            return [(st, OK(mk('oldact', c.args[0])))]
        for n in base.SIGACT:
            h[n] = sigact

        e.on_panic = self.on_panic
        e.on_diverge = lambda e, st, c: self.on_panic(e, st, c.fid, 'panic', c.span, c)
        self.setup(e)
        f = F.fns[root]
        outs = base.run(e, root, args, st)
        for s, v in outs:
            self.on_return(e, s, v)
        self.outs = outs
        return outs

    def setup(self, e):
        pass

    def more(self, k, names, keys):
        """further functions to interpret"""
        return False

    def pre(self, e, st, c):
        if is_parse(c.name):
            txt = []
            for a in c.args[1:]:
                v = e.val(st, a)
                txt += [y for y in sub(deep(e, st, v))]
            rd = get(st, 'rd')
            mine = rd and rd[0] == 'line' and any(y is rd[1] for y in txt)
            self.on_parse(e, st, c, txt, mine)
            t = e.fresh(st, 'call', c.site, c.res)
            a, b = st, st.fork()
            put(a, 'perr', None)
            put(b, 'perr', 'pending')
            put(b, 'st', None)
            return [(a, OK(mk('ast', t, rd[1] if mine else (e.val(st, c.args[1]))))), (b, ERR(mk('f', t, 'Err', 0)))]
        if c.inst in self.evalfns:
            x = e.res(st, e.val(st, c.args[0]))
            self.on_eval(e, st, c, x)
            put(st, 'n', min(get(st, 'n', 0) + 1, 2))
            put(st, 'st', 'eval')
            r = e.opaque_call(st, c, c.inst)
            out = []
            for s, v in r:
                if c.rty.startswith('std::result::Result'):
                    b = s.fork()
                    out.append((s, OK(mk('f', v, 'Ok', 0))))
                    put(b, 'st', None)
                    put(b, 'everr', True)
                    out.append((b, ERR(mk('f', v, 'Err', 0))))
                    put(s, 'everr', None)
                else:
                    out.append((s, v))
            return out
        if is_status_store(self.F, c.name):
            v = e.res(st, e.val(st, c.args[1]))
            put(st, 'st', v)
            if v.k == 'int' and v.a[0] != 0:
                put(st, 'everr', None)
                if get(st, 'perr') == 'pending':
                    put(st, 'perr', 'noted')
            return None
        if c.name in OPEN and c.name != 'std::fs::OpenOptions::open':
            t = e.fresh(st, 'call', c.site, c.res)
            x = e.res(st, e.val(st, c.args[0]))
            a, b = st, st.fork()
            put(a, 'open', ('ok', x))
            put(b, 'open', ('err', x))
            put(b, 'st', None)
            self.on_open(e, st, c, x)
            return [(a, OK(mk('file', x))), (b, ERR(mk('f', t, 'Err', 0)))]
        return None

    # overridable events
    def on_read(self, e, st, c, src):
        pass

    def on_parse(self, e, st, c, text, mine):
        pass

    def on_eval(self, e, st, c, x):
        pass

    def on_exit(self, e, st, c, v):
        pass

    def on_history(self, e, st, c, what, p):
        pass

    def on_sigaction(self, e, st, c, name, kind, fn):
        pass

    def on_open(self, e, st, c, x):
        pass

    def on_panic(self, e, st, fid, what, span, c=None):
        pass

    def on_return(self, e, st, v):
        pass


def deep(e, st, v, d=0):
    v = e.res(st, e.val(st, v))
    if d < 5 and v.k in ('adt', 'tup', 'iter', 'peek', 'enum'):
        return mk(v.k, *[deep(e, st, x, d + 1) if isinstance(x, T) else x for x in v.a])
    return v
