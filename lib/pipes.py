"""The descriptors of the shell and its children while a pipeline of a given length is started: which pipe end or
file each descriptor stands for, on every path of the code that forks."""
import re
import ai
import base
import cmds
import proc
import words
from proc import get, put
from terms import *

OPENERS = {'std::fs::OpenOptions::open', 'std::fs::File::open', 'std::fs::File::create'}
FDEFF = base.FORK | base.PIPE | base.DUP | base.CLOSE | base.EXEC | OPENERS
STD = ((0, 'in'), (1, 'out'), (2, 'err'))


def tab(st):
    return get(st, 'tab', ())


def obj(t):
    """the thing an open descriptor term stands for"""
    return t


def tget(st, fd):
    for a, b in tab(st):
        if a is fd:
            return b
    return None


def tput(st, fd, o):
    l = [(a, b) for a, b in tab(st) if a is not fd]
    if o is not None:
        l.append((fd, o))
    put(st, 'tab', tuple(sorted(l, key=lambda z: z[0].n)))


class Fds:
    """events: exec/body/exit in a child, with the table of its descriptors"""

    def __init__(self, F, e):
        self.F, self.e = F, e
        self.lost = []
        self.count = {}
        self.install(e)

    def on_event(self, kind, e, st, c):
        pass

    def on_dup(self, e, st, c, src, dst, o):
        pass

    def on_open(self, e, st, c, v):
        pass

    def on_exit(self, e, st, c):
        pass

    def tick(self, n):
        self.count[n] = self.count.get(n, 0) + 1

    def lose(self, st, msg):
        put(st, 'lost', True)
        if msg not in self.lost:
            self.lost.append(msg)

    def fd(self, st, v):
        v = self.e.res(st, self.e.val(st, v))
        while v.k == 'adt' and len(v.a) == 3:
            v = self.e.res(st, self.e.val(st, v.a[2]))
        if v.k == 'file':
            v = mk('fd', v)
        return v

    def install(self, e):
        h = e.hooks

        def pipe(e, st, c):
            self.tick('pipes')
            t = e.fresh(st, 'call', c.site, c.res)
            bad = st.fork()
            r, w = mk('fdr', t), mk('fdw', t)
            e.zadd(st, None, r, -3)
            e.zadd(st, None, w, -3)
            if c.name.endswith('pipe2'):
                self.lose(st, 'pipe2')
            tput(st, r, r)
            tput(st, w, w)
            put(st, 'npipes', get(st, 'npipes', 0) + 1)
            put(bad, 'pipefail', True)
            return [(st, OK(mk('tup', r, w))), (bad, ERR(mk('errno', t)))]
        for n in base.PIPE:
            h[n] = pipe

        def close(e, st, c):
            self.tick('closes')
            v = self.fd(st, c.args[0])
            if v.k == 'int' and v.a[0] < 0:
                return [(st, ERR(mk('errno', mk('badfd'))))]
            o = tget(st, v)
            if o is not None:
                tput(st, v, None)
                return [(st, OK(UNIT))]
            if v.k in ('fdr', 'fdw', 'fd', 'int'):
                return [(st, ERR(mk('errno', mk('badfd'))))]
            self.lose(st, 'close of %s' % show(v, 3))
            return [(st, e.fresh(st, 'call', c.site, c.res))]
        for n in base.CLOSE | {'libc::close', 'nix::libc::close'}:
            h[n] = close

        def dup2(e, st, c):
            self.tick('dup2 calls')
            src, dst = self.fd(st, c.args[0]), self.fd(st, c.args[1])
            o = tget(st, src)
            if c.name.endswith('dup3'):
                self.lose(st, 'dup3')
            if o is None:
                if src.k in ('fdr', 'fdw', 'fd', 'int'):
                    put(st, 'baddup', True)
                    self.on_dup(e, st, c, src, dst, None)
                    return [(st, ERR(mk('errno', mk('badfd'))))]
                self.lose(st, 'dup2 of %s' % show(src, 3))
                o = src
            if dst.k not in ('int', 'fdr', 'fdw', 'fd', 'fdd'):
                self.lose(st, 'dup2 to %s' % show(dst, 3))
            self.on_dup(e, st, c, src, dst, o)
            tput(st, dst, o)
            return [(st, OK(dst))]
        h['nix::unistd::dup2'] = h['nix::unistd::dup3'] = dup2

        def dup(e, st, c):
            src = self.fd(st, c.args[0])
            o = tget(st, src)
            t = mk('fdd', e.fresh(st, 'call', c.site, c.res))
            if o is None:
                if src.k in ('fdr', 'fdw', 'fd', 'int'):
                    return [(st, ERR(mk('errno', mk('badfd'))))]
                self.lose(st, 'dup of %s' % show(src, 3))
                o = src
            e.zadd(st, None, t, -3)
            bad = st.fork()
            tput(st, t, o)
            return [(st, OK(t)), (bad, ERR(mk('errno', t)))]
        h['nix::unistd::dup'] = dup

        def fork(e, st, c):
            self.tick('forks')
            n = get(st, 'forks', 0)
            t = e.fresh(st, 'call', c.site, c.res)
            pid = mk('pid', t)
            e.zadd(st, None, pid, -1)
            child, bad = st.fork(), st.fork()
            put(st, 'forks', n + 1)
            put(bad, 'forks', n + 1)
            put(bad, 'forkfail', True)
            put(child, 'nth', n)
            put(child, 'child', True)
            self.forked(st, n)
            return [(st, OK(mk('adt', 'nix::unistd::ForkResult', 'Parent', pid))), (child, OK(mk('adt', 'nix::unistd::ForkResult', 'Child'))), (bad, ERR(mk('errno', t)))]
        for n in base.FORK:
            h[n] = fork

        def exit_(e, st, c):
            self.on_exit(e, st, c)
            return []
        for n in base.EXIT:
            h[n] = exit_

        def execv(e, st, c):
            self.on_event('exec', e, st, c)
            return [(st, ERR(e.fresh(st, 'call', c.site, c.res)))]
        for n in base.EXEC:
            h[n] = execv
        h['nix::unistd::setpgid'] = lambda e, st, c: [(st, OK(UNIT))]

        def pre(e, st, c):
            if c.name in OPENERS:
                out = e.models[c.name](e, st, c) if hasattr(e, 'models') else None
                if out is None:
                    import models
                    out = models.M[c.name](e, st, c)
                for s, v in out:
                    if v.k == 'adt' and v.a[1] == 'Ok':
                        f = v.a[2]
                        tput(s, mk('fd', f), f)
                        self.on_open(e, s, c, f)
                    else:
                        put(s, 'openfail', True)
                return out
            return None
        e.pre.insert(0, pre)

        def drop(e, st, fid, ty, v, sp):
            v = e.res(st, v)
            if v.k in ('file', 'fdr', 'fdw', 'fd') and re.search(r'(fs::File|OwnedFd)$', ty):
                tput(st, mk('fd', v) if v.k == 'file' else v, None)
            elif v.k in ('fdr', 'fdw', 'fd', 'file') or v.k == 'adt' and re.search(r'fs::File|OwnedFd', ty):
                for x in subterms(v):
                    if x.k in ('fdr', 'fdw', 'fd') and tget(st, x) is not None:
                        tput(st, x, None)
                    elif x.k == 'file' and tget(st, mk('fd', x)) is not None:
                        tput(st, mk('fd', x), None)
        e.on_drop = drop

    def forked(self, st, n):
        pass


def subterms(t, acc=None, n=0):
    acc = [] if acc is None else acc
    if n < 6 and isinstance(t, T):
        acc.append(t)
        for x in t.a:
            if isinstance(x, T):
                subterms(x, acc, n + 1)
    return acc


class Launch(Fds):
    """a run of the evaluation of a pipeline of n commands, each a process to start"""

    def __init__(self, F, n, background, commands, none_at=None):
        self.n, self.background, self.commands, self.none_at = n, background, commands, none_at
        self.stops = cmds.stops(F)
        self.entries = set(cmds.entries(F))
        self.bound = proc.boundary_of(F)
        self.memo = {}
        e = ai.Engine(F)
        e.disj, e.mem_disj, e.widen_at, e.gens, e.max_states = 64, 400, n + 12, n + 12, 20000
        e.policy = self.policy
        Fds.__init__(self, F, e)
        e.pre.insert(0, self.calls)
        e.on_panic = self.panic

    def panic(self, e, st, fid, what, span, c=None):
        # an unwrap of what closing or duplicating a descriptor that is not open gave
        if what == 'unwrap' and c is not None and c.args and not get(st, 'lost'):
            v = e.res(st, e.val(st, c.args[0]))
            if v.k == 'adt' and v.a[1] == 'Err' and any(x.k == 'badfd' for x in subterms(v)):
                self.on_bad_fd(e, st, c)

    def on_bad_fd(self, e, st, c):
        pass

    def prepare(self, st):
        pass

    def info(self, k):
        r = self.memo.get(k)
        if r is None:
            names, keys = proc.limited_reach(self.F, k, self.bound | self.entries)
            f = self.F.fns[k]
            r = self.memo[k] = (bool(names & (FDEFF | base.EXIT)), bool(keys & self.bound), 'jobs::Job' in f['locals'][0]['ty'] and 'WaitStatus' not in f['locals'][0]['ty'], bool(names & base.WAIT))
        return r

    def policy(self, e, st, c, k):
        if not self.F.fns[k]['local'] or self.F.fns[k].get('closure'):
            return 'inline'
        eff, body, job, wait = self.info(k)
        if wait and not eff:
            return 'opaque'
        return 'inline' if eff or job or sum(len(self.F.fns[x]['blocks']) for x in proc.limited_reach(self.F, k, set())[1] if x in self.F.fns and self.F.fns[x]['local']) <= 12 else 'opaque'

    def calls(self, e, st, c):
        k = c.inst
        if not k or k not in self.F.local:
            return None
        if k in self.entries:
            t = None
            for a in c.args:
                v = e.res(st, e.val(st, a))
                if v.k == 'ref':
                    v = e.res(st, e.load(st, *v.a))
                if v.k == 'in' and isinstance(v.a[0], str) and re.match(r'^cmd\d+$', v.a[0]):
                    t = int(v.a[0][3:])
            if t is None:
                self.lose(st, 'a command evaluated that is none of the pipeline')
                return None
            put(st, 'asked', get(st, 'asked', frozenset()) | {t})
            if t == self.none_at:
                return [(st, OK(NONE))]
            return [(st, OK(SOME(mk('tup', self.process(t), self.commands[t]))))]
        if k in self.bound:
            self.on_event('body', e, st, c)
            return e.opaque_call(st, c, k)
        if self.F.fns[k].get('closure'):
            return None
        eff, body, job, wait = self.info(k)
        if body and not eff:
            self.on_event('body', e, st, c)
            return e.opaque_call(st, c, k)
        return None

    def process(self, t):
        ty = 'jobs::Process'
        v = self.F.adts[ty]['variants'][0]
        return mk('adt', ty, '', *[mk('in', '%s%d' % (n, t), x) for n, x in zip(v['fields'], v['ftys'])])

    def run(self, key):
        F = self.F
        st = ai.St()
        for i, n in STD:
            tput(st, I(i), S(n))
        self.prepare(st)
        seq = mk('vec', *[mk('in', 'cmd%d' % i, 'ast::Command') for i in range(self.n)])

        def build(ty):
            if ty == 'std::vec::Vec<ast::Command>':
                return seq
            if ty == 'ast::PipeSequence':
                return mk('adt', ty, '', *[build(x) for x in F.adts[ty]['variants'][0]['ftys']])
            return None
        v = F.adts['ast::Pipeline']['variants'][0]
        out = []
        for n, ty in zip(v['fields'], v['ftys']):
            b = build(ty)
            out.append(b if b is not None else (TRUE if self.background else FALSE) if n == 'background' else mk('in', n, ty))
        loc = ('H', mk('in', 'pipeline', 'ast::Pipeline'))
        self.e.set_root(st, loc, mk('adt', 'ast::Pipeline', '', *out))
        f = F.fns[key]
        args = [mk('ref', loc, ()) if 'ast::Pipeline' in f['locals'][i]['ty'] else mk('in', i, f['locals'][i]['ty']) for i in range(1, f['nargs'] + 1)]
        return base.run(self.e, key, args, st)


def redirect(F, kind, label, number=None):
    """a redirection of a kind to a file of unknown name"""
    def make(ty):
        if ty == 'std::option::Option<i32>':
            return NONE if number is None else SOME(I(number))
        if ty == 'ast::IoFile':
            return mk('adt', ty, '', *[make(x) for x in F.adts[ty]['variants'][0]['ftys']])
        if ty == 'ast::RedirectType':
            return mk('adt', ty, kind)
        if ty == 'std::string::String':
            return mk('in', label, ty)
        if ty.startswith('std::option::Option<ast::IoFile'):
            return SOME(make('ast::IoFile'))
        if ty.startswith('std::option::Option<'):
            return NONE
        return mk('in', label + '?', ty)
    return mk('adt', 'ast::IoRedirect', '', *[make(x) for x in F.adts['ast::IoRedirect']['variants'][0]['ftys']])


def kinds(F):
    return [v['name'] for v in F.adts['ast::RedirectType']['variants']] if 'ast::RedirectType' in F.adts else []


def command(S_, i, pre=None, suf=(), words_=1):
    """command i: a name, words, redirections before the name (pre None: nothing before it) and after it"""
    W = [mk('in', 'word%d_%d' % (i, j), 'std::string::String') for j in range(words_ + 1)]
    s = SOME(S_.adt(words.SUF, {S_.words: mk('vec', *W[1:]), S_.sred: mk('vec', *suf)}))
    p = NONE if pre is None else SOME(S_.adt(words.PRE, {S_.assign: mk('vec', mk('in', 'set%d' % i, 'std::string::String')), S_.pred: mk('vec', *pre)}))
    return S_.adt(words.CMD, {S_.name: W[0], S_.suffix: s, S_.prefix: p})


def labels(t, acc=None):
    """names of the symbolic inputs in a term"""
    acc = set() if acc is None else acc
    if isinstance(t, T):
        if t.k == 'in' and isinstance(t.a[0], str):
            acc.add(t.a[0])
        for x in t.a:
            if isinstance(x, T):
                labels(x, acc)
            elif isinstance(x, tuple):
                for y in x:
                    labels(y, acc)
    return acc
