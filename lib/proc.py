"""Process-level abstract interpretation: pipes, fork, dup2, signal mask, exec, over the code that
evaluates a pipeline, the code that runs a command substitution, and the exec builtin."""
import ai
from base import *
from facts import norm
from terms import *

S_FD = 'fd'


def get(st, k, d=None):
    for (a, b) in st.mon:
        if a == k:
            return b
    return d


def put(st, k, v):
    st.mon = tuple(sorted([(a, b) for (a, b) in st.mon if a != k] + [(k, v)], key=lambda z: z[0]))


def arg_types(f):
    return [f['locals'][i + 1]['ty'] for i in range(f['nargs'])]


def pipeline_fns(F):
    return [k for k, f in F.local.items() if any(t == '&mut ast::Pipeline' for t in arg_types(f)) and F.reach(k)[0] & FORK]


def pipeline_entry(F):
    ps = set(pipeline_fns(F))
    callers = {}
    for k in F.local:
        for (n, inst) in F.callees[k]:
            if inst in ps and k not in ps:
                callers.setdefault(inst, set()).add(k)
    r = sorted(k for k in ps if k in callers)
    return r


def andor_fns(F):
    return {k for k, f in F.local.items() if any(t == '&mut ast::AndOr' for t in arg_types(f)) and F.reach(k)[0] & FORK}


def eval_entry(F):
    return [k for k, f in F.local.items() if any(t == '&mut ast::CompleteCommand' for t in arg_types(f)) and F.reach(k)[0] & FORK]


def limited_reach(F, key, stop):
    names, keys, todo = set(), set(), [key]
    while todo:
        k = todo.pop()
        if k in keys:
            continue
        keys.add(k)
        for (nm, inst) in F.callees.get(k, ()):
            names.add(nm)
            if inst and inst in F.fns and inst not in stop:
                todo.append(inst)
            if inst in stop:
                keys.add(inst)
    return names, keys


def subst_roots(F):
    """innermost functions that fork a child evaluating shell text and read its output through a pipe"""
    ev = set(eval_entry(F))
    stop = set(pipeline_fns(F)) | andor_fns(F) | ev
    cand = {}
    for k in F.local:
        if k in stop:
            continue
        n, ks = limited_reach(F, k, stop)
        if n & FORK and n & PIPE and ks & ev:
            cand[k] = ks
    return sorted(k for k, ks in cand.items() if not any(o != k and o in ks for o in cand))


def fork_sites(F, key):
    """line of each call of fork in the function itself"""
    r = []
    for b in F.fns[key]['blocks']:
        t = b['t']
        if t['k'] == 'call' and not b.get('cu'):
            c = t['f'].get('k')
            if isinstance(c, dict) and 'fn' in c and (norm(c['fn']) in FORK or norm(c.get('res') or '') in FORK):
                r.append(b['sp'][0] if isinstance(b.get('sp'), list) else 0)
    return r


def base_fork(F, key):
    return bool(fork_sites(F, key))


def mask_blocks(m, sig):
    """is sig blocked in mask (complement?, names)"""
    co, s = m
    return (sig in s) != co


class Proc:
    def __init__(self, F, want, extra=()):
        self.F = F
        self.want = want
        self.viol = {}       # (prop, key) -> (message, path)
        self.parent_only = False
        self.failing = False  # dup2 and setpgid may fail
        self.count = {}
        self.forks_seen = set()
        self.execs_seen = set()
        self.exits = set()
        self.sites = {}

    def report(self, prop, key, msg, e, span):
        k = (prop, key)
        if k not in self.viol:
            self.viol[k] = (msg, '%s:%s' % tuple(span) if span else '?', [x[0] for x in e.stack])

    def tick(self, name, n=1):
        self.count[name] = self.count.get(name, 0) + n

    def ob(self, name, site):
        self.sites.setdefault(name, set()).add(site)

    # -------------------------------------------------------------- hooks
    def install(self, e, boundary):
        self.boundary = boundary
        h = e.hooks

        def fd(st, t):
            if st.facts.get(t) is None:
                e.zadd(st, None, t, -3)
            return t

        def pipe(e, st, c):
            t = e.fresh(st, 'call', c.site, c.res)
            s2 = st.fork()
            r, w = mk('fdr', t), mk('fdw', t)
            e.zadd(st, None, r, -3)
            e.zadd(st, None, w, -3)
            # (term, read end open, write end open, handed to a writer, handed to a reader)
            put(st, 'pipes', get(st, 'pipes', frozenset()) | {(t, True, True, False, False)})
            self.ob('pipe', (c.fn, c.span[0]))
            put(s2, 'pipeerr', True)
            val = OK(mk('tup', r, w))
            return [(st, val), (s2, ERR(mk('errno', t)))]
        for n in PIPE:
            h[n] = pipe

        def close(e, st, c):
            v = e.res(st, self.fdof(c.args[0]))
            self.tick('close')
            if v.k == 'int' and v.a[0] < 0:
                return [(st, ERR(mk('errno', mk('badfd'))))]
            ps = get(st, 'pipes', frozenset())
            for p in ps:
                t = p[0]
                if v is mk('fdr', t):
                    self.set_pipe(e, st, c, p, (t, False) + p[2:])
                    return [(st, OK(UNIT) if p[1] else ERR(mk('errno', mk('badfd'))))]
                if v is mk('fdw', t):
                    self.set_pipe(e, st, c, p, (t, p[1], False) + p[3:])
                    return [(st, OK(UNIT) if p[2] else ERR(mk('errno', mk('badfd'))))]
            for i in (0, 1, 2):
                if v is I(i):
                    put(st, 'fd%d' % i, S('closed'))
            # an fd that is open nowhere any more: a second close
            return [(st, ERR(mk('errno', mk('badfd')))) if v.k in ('fdr', 'fdw') else (st, OK(UNIT))]
        for n in CLOSE:
            h[n] = close

        def dup2(e, st, c):
            src, dst = e.res(st, self.fdof(c.args[0])), e.res(st, c.args[1])
            self.ob('dup2', (c.fn, c.span[0]))
            self.on_dup2(e, st, c, src, dst)
            if dst.k == 'int' and 0 <= dst.a[0] <= 2:
                x = self.source(st, src)
                if x.k in ('fdr', 'fdw'):
                    put(st, 'fd%d' % dst.a[0], x)
                else:
                    put(st, 'redir', True)
            elif dst.k != 'int':
                put(st, 'redir', True)
            r = [(st, OK(dst))]
            if self.failing:
                r.append((st.fork(), ERR(mk('errno', c.args[0]))))
            return r
        h['nix::unistd::dup2'] = dup2

        def fork(e, st, c):
            self.forks_seen.add((c.fn, c.span[1]))
            if self.on_fork(e, st, c) == 'stop':
                return []
            t = e.fresh(st, 'call', c.site, c.res)
            pid = mk('pid', t)
            e.zadd(st, None, pid, -1)
            child = st.fork()
            n = get(st, 'forks', 0)
            # parent
            ps = get(st, 'pipes', frozenset())
            put(st, 'pipes', frozenset((p[0], p[1], p[2], p[3] or p[2], p[4] or not p[2]) for p in ps))
            put(st, 'forks', 1)
            put(st, 'unreg', pid)
            if self.parent_only:
                return [(st, OK(mk('adt', 'nix::unistd::ForkResult', 'Parent', pid)))]
            # what earlier parts of the shell wrote elsewhere does not matter to the child
            child.facts = {}
            child.heap = {l: v for l, v in child.heap.items() if l[0] == 'A'}
            child.hown = True
            put(child, 'child', True)
            put(child, 'mine', frozenset(p[0] for p in ps if p[1] and p[2]))
            put(child, 'theirs', frozenset(p[0] for p in ps if p[1] and not p[2]))
            put(child, 'nth', min(n, 1))
            return [(st, OK(mk('adt', 'nix::unistd::ForkResult', 'Parent', pid))), (child, OK(mk('adt', 'nix::unistd::ForkResult', 'Child')))]
        for n in FORK:
            h[n] = fork

        def sigmask(e, st, c):
            how = e.val(st, c.args[0])
            new = e.val(st, c.args[1])
            if new.k == 'adt' and new.a[1] == 'Some':
                s = e.val(st, new.a[2])
                m = s.a[2].a if s.k == 'adt' and len(s.a) > 2 and s.a[2].k == 'sigset' else None
                cur = get(st, 'mask')
                if how.k == 'adt' and how.a[1] == 'SIG_SETMASK':
                    nm = m
                elif how.k == 'adt' and m is not None and cur is not None:
                    nm = self.mask_op(how.a[1], cur, m)
                else:
                    nm = None
                put(st, 'mask', nm)
                if c.args[2:]:
                    old = e.val(st, c.args[2])
                    if old.k == 'adt' and old.a[1] == 'Some' and old.a[2].k == 'ref':
                        e.store(st, old.a[2].a[0], old.a[2].a[1], mk('adt', 'nix::sys::signal::SigSet', '', mk('sigset', *cur)) if cur else mk('hv', c.site, 0, 'mask'))
                self.on_mask(e, st, c)
            return [(st, OK(UNIT))]
        for n in MASK:
            h[n] = sigmask

        def sigact(e, st, c):
            sig = e.val(st, c.args[0])
            act = e.val(st, c.args[1])
            hd = None
            if act.k == 'app' and 'SigAction::new' in act.a[0]:
                hd = act.a[1]
            elif act.k == 'adt' and 'SigHandler' in act.a[0]:
                hd = act
            name = sig.a[1] if sig.k == 'adt' else None
            kind = None
            if hd is not None:
                hd = e.val(st, hd)
                kind = hd.a[1] if hd.k == 'adt' else None
            if name:
                d = dict(get(st, 'disp', ()))
                d[name] = kind or '?'
                put(st, 'disp', tuple(sorted(d.items())))
            else:
                put(st, 'dispunk', True)
                put(st, 'disp', tuple(sorted((s, '?' if k != kind else k) for s, k in get(st, 'disp', ()))))
            self.ob('sigaction', (c.fn, c.span[0]))
            return [(st, OK(mk('oldact', c.args[0])) if 'sigaction' in c.res else OK(UNIT))]
        for n in SIGACT:
            h[n] = sigact

        def exit_(e, st, c):
            self.exits.add((c.fn, c.span[1]))
            self.on_exit(e, st, c)
            return []
        for n in EXIT:
            h[n] = exit_

        def execv(e, st, c):
            self.execs_seen.add((c.fn, c.span[1]))
            self.on_exec(e, st, c, 'exec')
            return [(st, ERR(e.fresh(st, 'call', c.site, c.res)))]
        for n in EXEC:
            h[n] = execv

        h['nix::unistd::setpgid'] = lambda e, st, c: [(st, OK(UNIT))] + ([(st.fork(), ERR(mk('errno', c.args[0])))] if self.failing else [])

        def wait(e, st, c):
            self.on_wait(e, st, c)
            return None
        for n in WAIT:
            h[n] = wait

        def pre(e, st, c):
            if c.inst in boundary:
                self.on_body(e, st, c)
                r = e.opaque_call(st, c, c.inst)
                for s, _ in r:
                    self.after_body(e, s, c)
                return r
            return None
        e.pre.append(pre)

    def set_pipe(self, e, st, c, p, q):
        ps = get(st, 'pipes', frozenset()) - {p}
        if q[1] or q[2]:
            ps |= {q}
        else:
            self.on_pipe_closed(e, st, c, q)
        put(st, 'pipes', ps)

    def on_pipe_closed(self, e, st, c, q):
        pass

    @staticmethod
    def fdof(v):
        return v

    @staticmethod
    def mask_op(how, cur, m):
        (c1, a), (c2, b) = cur, m
        if how == 'SIG_UNBLOCK':
            c2 = not c2            # cur & ~m
            # intersection
            if not c1 and not c2:
                return (False, a & b)
            if c1 and c2:
                return (True, a | b)
            return (False, (b - a) if c1 else (a - b))
        if not c1 and not c2:
            return (False, a | b)
        if c1 and c2:
            return (True, a & b)
        return (True, (a - b) if c1 else (b - a))

    def source(self, st, v):
        if v.k in ('fdr', 'fdw'):
            return v
        return S('file')

    # overridable events
    def on_fork(self, e, st, c):
        pass

    def on_dup2(self, e, st, c, src, dst):
        pass

    def on_mask(self, e, st, c):
        pass

    def on_exit(self, e, st, c):
        pass

    def on_exec(self, e, st, c, kind):
        pass

    def on_wait(self, e, st, c):
        pass

    def on_body(self, e, st, c):
        pass

    def after_body(self, e, st, c):
        pass


def proc_policy(F, boundary, child_eff, parent_eff, pre_eff, small=16):
    """what to inline, by phase: before the first fork, in the parent after it, in the child"""
    cache = {}

    def info(key):
        r = cache.get(key)
        if r is None:
            n, ks = limited_reach(F, key, boundary)
            size = sum(len(F.fns[k]['blocks']) for k in F.reach(key)[1] if k in F.fns and F.fns[k]['local'])
            r = cache[key] = (n, ks & boundary, size)
        return r

    def pol(e, st, c, key):
        if not F.fns[key]['local']:
            return 'inline'
        n, bs, size = info(key)
        child = get(st, 'child')
        if child:
            eff = child_eff
            if bs & e.bodies:
                return 'inline'
        elif get(st, 'forks', 0):
            eff = parent_eff
        else:
            eff = pre_eff
        if n & eff or size <= small:
            return 'inline'
        if F.reach(key)[0] & MASK:
            put(st, 'mask', None)
        return 'opaque'
    return pol


def boundary_of(F):
    return andor_fns(F) | set(eval_entry(F)) | set(subst_roots(F))


def make_engine(F, P, parent_eff=None, pre_eff=None, child_eff=None):
    b = boundary_of(F)
    e = ai.Engine(F)
    e.bodies = andor_fns(F)
    base_eff = FORK | PIPE | DUP | CLOSE
    e.policy = proc_policy(F, b, child_eff or (base_eff | EXEC | EXIT | MASK | SIGACT), parent_eff or base_eff, pre_eff or (FORK | PIPE))
    P.install(e, b)
    return e


def child_flags(F):
    """static flags that are only ever set in a forked child: {static name}; and those never set at all"""
    r = F.__dict__.get('_child_flags')
    if r is not None:
        return r
    live = F.reach('main')[1]
    STORE = 'Atomic::<bool>::store'

    def stores(k):
        return any(n.endswith(STORE) for n, i in F.callees.get(k, ()))
    callers = {}
    for k in live:
        if k in F.local:
            for n, i in F.callees.get(k, ()):
                if i:
                    callers.setdefault(i, set()).add(k)
    roots = set()
    for k in live:
        if k in F.local and stores(k):
            f = F.fns[k]
            if 'bool' in arg_types(f):
                roots |= {c for c in callers.get(k, ()) if c in F.local}
            else:
                roots.add(k)
    shell, seen = set(), set()
    for k in sorted(roots):
        P = Proc(F, set())
        b = boundary_of(F) - {k}
        e = ai.Engine(F)
        e.disj, e.mem_disj, e.widen_at, e.max_states = 2, 8, 1, 1500

        def pol(e, st, c, key, k=k):
            if not F.fns[key]['local']:
                return 'inline'
            if stores(key) and 'bool' in arg_types(F.fns[key]):
                return 'inline'
            return 'opaque'
        e.policy = pol
        P.install(e, b)
        names = {s for x in [k] + [i for n, i in F.callees[k] if i in F.local and stores(i)] for s in e.fn_statics(x) if 'Atomic' in F.statics.get(s, '') and 'bool' in F.statics.get(s, '')}
        e.on_panic = lambda *a: None

        def store(e, st, c):
            loc, path = e.deref(c.args[0])
            v = e.res(st, e.val(st, c.args[1]))
            if loc[0] == 'S':
                seen.add(loc[1])
                if v is not FALSE and not get(st, 'child'):
                    shell.add(loc[1])
            else:
                shell.update(names)
            return [(st, UNIT)]
        for n in {n for x in live if x in F.fns for n, i in F.callees.get(x, ()) if n.endswith(STORE)}:
            e.hooks[n] = store
        try:
            run(e, k)
        except ai.Budget:
            shell.update(names)
    never = {s for s, t in F.statics.items() if 'Atomic' in t and 'bool' in t} - shell
    r = F._child_flags = never
    return r


def flag_loads(F, e):
    """a flag that only a child sets reads false in the shell"""
    fl = child_flags(F)

    def load(e, st, c):
        if c.name.endswith('Atomic::<bool>::load') and not get(st, 'child'):
            loc, path = e.deref(c.args[0])
            if loc[0] == 'S' and loc[1] in fl:
                return [(st, FALSE)]
        return None
    e.pre.append(load)
