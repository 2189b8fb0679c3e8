"""P18: waiting for a job ends exactly when all its processes have ended or it has stopped."""
import ai
import base
import effects
import mask
import proc
from checks import p17
from proc import get, put
from terms import *

RULE = ('Each function that waits for a given job is interpreted on jobs of one to three processes, alone or beside a background job, with some statuses already recorded, against a model of waitpid(-1) that reports, '
        'in every order, that any process still running has exited, was killed or stopped, that an unknown child ended, that a signal interrupted it, and that no child is left only when that is so. On every path: '
        'waitpid is not asked to block when no process of the job runs; the function does not return while one of them runs; '
        'every status reported is recorded in the process it is for and in no other; the job counts as finished only when all its processes have ended and as stopped only when one has stopped and none runs, '
        'and it does so by the time the wait returns. The handler of SIGCHLD is interpreted in the same way: what it collects is recorded, and a job counts as finished or leaves the table only when all its processes have ended.')
JOBOPT = 'std::option::Option<%s>' % p17.CELL
WS = p17.WS
ENDED = ('Exited', 'Signaled')


class Wait:
    """jobs: {number: [status kinds]}; `given`: the job waited for (None: the handler)"""

    def __init__(self, F, R, M, name, jobs, given, back, kinds):
        self.F, self.R, self.M, self.name, self.given, self.kinds = F, R, M, name, given, kinds
        self.shape = p17.Shape(M, name, [(n, 'running', len(k), n in back, n in back) for n, k in jobs.items()])
        self.jobs = jobs
        self.all = [(n, i) for n, k in jobs.items() for i in range(len(k))]
        for n, k in jobs.items():
            self.shape.content[n] = self.content(n, k)
        self.bads, self.vague, self.judged = {}, set(), 0

    def pid(self, n, i):
        return self.M.pid(10 * n + i + 1)

    def status(self, kind, n, i):
        F = self.F
        v = [x for x in F.adts[WS]['variants'] if x['name'] == kind][0]
        p = self.pid(n, i)
        return mk('adt', WS, kind, *[p if j == 0 else mk('in', '%s%d.%d.%d' % (kind, n, i, j), t) for j, t in enumerate(v['ftys'])])

    def content(self, n, kinds):
        M, J = self.M, self.shape.content[n]
        a = list(J.a)
        ps = []
        for i, p in enumerate(a[2 + M.jprocs].a):
            b = list(p.a)
            b[2 + M.pstatus] = NONE if kinds[i] is None else SOME(self.status(kinds[i], n, i))
            ps.append(mk('adt', *b))
        a[2 + M.jprocs] = mk('vec', *ps)
        if kinds and None not in kinds:
            stopped = 'Stopped' in kinds
            a[2 + M.jstate] = mk('adt', 'jobs::JobState', 'Stopped' if stopped else 'Finished')
            a[2 + M.jstop] = self.status(kinds[-1], n, len(kinds) - 1)
        return mk('adt', *a)

    def bad(self, key, msg, span=None):
        w = '%s:%s' % tuple(span[:2]) if span else p17.where(self.F, self.key)
        self.bads.setdefault(key, (msg, w, [x[0] for x in self.e.stack] or [self.key]))

    def truth(self, st):
        return dict(get(st, 'truth', ()))

    def running(self, st, n):
        t = self.truth(st)
        return [i for i in range(len(self.jobs[n])) if (n, i) not in t and self.jobs[n][i] is None]

    def kind(self, st, n, i):
        return self.truth(st).get((n, i), self.jobs[n][i])

    def wait(self, e, st, c):
        flags = e.val(st, c.args[1]) if len(c.args) > 1 else NONE
        who = e.res(st, e.val(st, c.args[0]))
        while who.k == 'adt' and len(who.a) == 3:
            who = e.res(st, e.val(st, who.a[2]))
        block = not mask.nohang(flags)
        if who.k != 'int':
            self.vague.add('process waited for')
            return []
        only = who.a[0] if who.a[0] > 0 else None
        traced = any('WUNTRACED' in str(y) for y in alla(flags)) or any(isinstance(y, int) and y & 2 for y in alla(flags))
        out = []
        t = self.truth(st)
        if block and self.given is not None and not self.running(st, self.given):
            self.bad('blocks', 'the wait blocks although no process of the job runs any more', c.span)
            return []
        for n, i in self.all:
            was = self.kind(st, n, i)
            if was in ENDED or was == 'Stopped' or only is not None and only != 10 * n + i + 1:
                continue
            for k in self.kinds:
                if k == 'Stopped' and not traced:
                    continue
                s = st.fork()
                put(s, 'truth', tuple(sorted({**t, (n, i): k}.items())))
                out.append((s, OK(self.status(k, n, i))))
        if only is None and not get(st, 'stray') and self.given is not None:
            s = st.fork()
            put(s, 'stray', True)
            out.append((s, OK(mk('adt', WS, 'Exited', I(9999), mk('in', 'straycode', 'i32')))))
        if not get(st, 'eintr'):
            s = st.fork()
            put(s, 'eintr', True)
            out.append((s, ERR(mk('adt', 'nix::errno::Errno', 'EINTR'))))
        s = st.fork()
        left = [x for x in self.all if self.kind(st, *x) not in ENDED and (only is None or only == 10 * x[0] + x[1] + 1)]
        if not left:
            out.append((s, ERR(mk('adt', 'nix::errno::Errno', 'ECHILD'))))
        elif not block:
            out.append((s, OK(mk('adt', WS, 'StillAlive'))))
        return out

    def start(self, key):
        F, M = self.F, self.M
        self.key = key
        e = self.e = ai.Engine(F)
        e.disj, e.mem_disj, e.gens, e.widen_at, e.max_states = 64, 4000, 12, 12, 60000
        e.policy = lambda e, st, c, k: 'inline' if not F.fns[k]['local'] or F.fns[k].get('closure') or not self.plain(k) else 'opaque'
        for n in base.WAIT:
            e.hooks[n] = self.wait

        def pre(e, st, c):
            k = c.inst
            if k and k in F.local and not F.fns[k].get('closure') and self.plain(k):
                r = F.fns[k]['locals'][0]['ty']
                if not any('&mut' in t for t in proc.arg_types(F.fns[k])):
                    return [(st, e.fresh(st, 'call', c.site, c.rty))]
            return None
        e.pre.insert(0, pre)
        for n in ('try_borrow', 'try_borrow_mut'):
            e.hooks['std::cell::RefCell::<T>::' + n] = lambda e, st, c: [(st, OK(c.args[0]))]
        e.on_panic = lambda *a: None
        proc.flag_loads(F, e)
        for n in base.KILL | base.EXIT:
            e.hooks[n] = lambda e, st, c: self.vague.add('%s on the way' % c.name) or []
        st = ai.St()
        ctl = self.shape.control(st, e)
        s = F.adts[p17.SHELL]['variants'][0]
        self.loc, _ = e.deref(mk('static', 'shell::SHELL'))
        e.set_root(st, self.loc, mk('adt', p17.SHELL, '', *[ctl if i == M.ctl else mk('in', 's%d' % i, t) for i, t in enumerate(s['ftys'])]))
        return st

    def plain(self, k):
        """a function with nothing to do with waiting, the jobs or the flags of the handler, that may say something"""
        F = self.F
        memo = F.__dict__.setdefault('_p18plain', {})
        r = memo.get(k)
        if r is None:
            n, ks = F.reach(k)
            tys = ' '.join(proc.arg_types(F.fns[k])) + ' ' + F.fns[k]['locals'][0]['ty']
            r = memo[k] = not (n & base.WAIT or p17.touches(F, k) or 'jobs::' in tys or F.fns[k]['locals'][0]['ty'] == 'bool' or any('Atomic' in x for x in n)
                               or sum(len(F.fns[x]['blocks']) for x in ks if x in F.local) <= 6)
        return r

    def run(self, key, args):
        st = self.start(key)
        f = self.F.fns[key]
        a = []
        for t in proc.arg_types(f):
            v = args(t)
            a.append(v if v is not None else mk('in', len(a), t))
        return base.run(self.e, key, a, st)

    def judge(self, st):
        e, M = self.e, self.M
        f = lambda i: e.load(st, self.loc, (('', M.ctl), ('', i)))
        T = p17.decode(e, st, f(M.table))
        table = None if T is None or any(k.k != 'int' for k in T) else {k.a[0] for k in T}
        if p17.murky(e, st):
            self.vague.add('a value decides that the analysis does not know')
            return
        self.judged += 1
        t = self.truth(st)
        for n, ks in self.jobs.items():
            J = e.val(st, self.shape.T[n])
            if J.k != 'adt':
                self.vague.add('job')
                continue
            fld = lambda i: e.val(st, e.proj(st, J, ('', i)))
            ps = fld(M.jprocs)
            if ps.k != 'vec' or len(ps.a) != len(ks):
                self.vague.add('processes')
                continue
            now = [self.kind(st, n, i) for i in range(len(ks))]
            for i in range(len(ks)):
                have = e.val(st, e.proj(st, e.val(st, ps.a[i]), ('', M.pstatus)))
                have = None if have is NONE else e.val(st, have.a[2]) if have.k == 'adt' and have.a[1] == 'Some' else have
                want = None if now[i] is None else self.status(now[i], n, i)
                if have is None and want is None or have is not None and self.same(st, have, want):
                    continue
                if have is not None and have.k != 'adt':
                    self.vague.add('status')
                elif want is None:
                    self.bad('wrong-process', 'a status is recorded for a process it was not reported for')
                elif have is None:
                    self.bad('unrecorded', 'a status collected for a process of %s is not recorded' % ('the job' if n == self.given else 'another job' if self.given is not None else 'a job'))
                else:
                    self.bad('wrong-status', 'a process is recorded with another status than the one reported for it')
            state = fld(M.jstate)
            state = state.a[1] if state.k == 'adt' else None
            if state is None:
                self.vague.add('state')
                continue
            run = any(k is None for k in now)
            ended = all(k in ENDED for k in now)
            if state == 'Finished' and not ended:
                self.bad('finished', 'a job counts as finished although one of its processes %s' % ('runs' if run else 'is stopped only'))
            if state == 'Stopped' and 'Stopped' not in now:
                self.bad('stopped', 'a job counts as stopped although none of its processes is')
            if n == self.given:
                if run:
                    self.bad('early', 'the wait for a job returns while one of its processes runs')
                elif ended and state != 'Finished':
                    self.bad('not-finished', 'all processes of the job have ended and it does not count as finished when the wait returns')
                elif not ended and state != 'Stopped':
                    self.bad('not-stopped', 'the job has stopped and does not count as stopped when the wait returns')
            if table is None:
                self.vague.add('table')
            elif n not in table and not ended:
                self.bad('dropped', 'a job leaves the table although not all of its processes have ended')

    def same(self, st, a, b):
        e = self.e
        if b is None or a.k != 'adt' or a.a[1] != b.a[1]:
            return False
        return all(e.val(st, x) is e.val(st, y) for x, y in zip(a.a[2:], b.a[2:]))


def alla(t, acc=None):
    acc = [] if acc is None else acc
    if isinstance(t, T):
        for y in t.a:
            if isinstance(y, T):
                alla(y, acc)
            else:
                acc.append(y)
    return acc


def waiters(F):
    """functions that wait for a job handed to them and say how it ended"""
    out = []
    for k in sorted(F.reach('main')[1]):
        f = F.fns.get(k)
        if not f or not f['local'] or f.get('closure'):
            continue
        n = F.reach(k)[0]
        ty = proc.arg_types(f)
        if n & base.WAIT and not n & (base.FORK | base.KILL) and f['locals'][0]['ty'] == WS and any(p17.CELL in t for t in ty):
            out.append(k)
    return out


def handlers(F):
    out = []
    for k in sorted(F.reach('main')[1]):
        f = F.fns.get(k)
        if f and f['local'] and not f.get('closure') and proc.arg_types(f) == ['i32'] and f['locals'][0]['ty'] == '()' and F.reach(k)[0] & base.WAIT and not F.reach(k)[0] & (base.SIGACT | base.FORK):
            out.append(k)
    return out


def scenarios(tier):
    """(name, jobs, job waited for, background jobs, kinds of status)"""
    A, B_ = ('Exited', 'Stopped'), ('Exited', 'Signaled', 'Stopped')
    N = None
    S = [('one process', {3: [N]}, (), B_), ('two processes', {3: [N, N]}, (), B_), ('three processes', {3: [N, N, N]}, (), A),
         ('beside a background job', {1: [N], 3: [N]}, (1,), B_), ('before a background job', {3: [N, N], 4: [N]}, (4,), A),
         ('the last ended already', {3: [N, 'Exited']}, (), B_), ('the first ended already', {3: ['Signaled', N]}, (), A), ('all ended already', {3: ['Exited', 'Exited']}, (), A),
         ('the first stopped already', {3: ['Stopped', N]}, (), A), ('the middle stopped already', {3: ['Exited', 'Stopped', N]}, (), A), ('beside a background pipeline', {1: [N, N], 3: [N]}, (1,), A)]
    if tier == 'thorough':
        S += [('three processes, killed', {3: [N, N, N]}, (), B_), ('beside background pipelines', {1: [N, N], 3: [N, N], 5: [N]}, (1, 5), ('Exited',)), ('four processes', {3: [N] * 4}, (), A)]
    return S


def check(F, R):
    R.rule = RULE
    M = p17.Model(F)
    if not M.ok or WS not in F.adts:
        R.note('the job control tables have another form than this check knows')
        R.ob('tables known', 'undecided')
        return
    W, H = waiters(F), handlers(F)
    R.ob('a function waits for a job', 'ok' if W else 'undecided')
    R.ob('a signal handler collects children', 'ok' if H else 'undecided')
    for name, jobs, back, kinds in scenarios(R.tier):
        for key in W:
            w = Wait(F, R, M, name, jobs, 3, back, kinds)
            cell = w.shape.T[3]
            go(R, w, key, lambda t: SOME(cell) if JOBOPT == t else cell if t == p17.CELL else None, 'wait')
        for key in H:
            for bk in ({3} | set(back), set(back)):
                w = Wait(F, R, M, name + (', in the background' if 3 in bk else ''), jobs, None, tuple(bk), kinds)
                go(R, w, key, lambda t: I(17), 'handler')


def go(R, w, key, args, what):
    n = '%s %s: %s' % (what, key, w.name)
    R.count('configurations')
    lost = R.__dict__.setdefault('p18lost', [])
    if len(lost) > 3:
        R.ob(n, 'undecided')
        return
    try:
        outs = w.run(key, args)
    except ai.Budget:
        lost.append(n)
        R.ob(n, 'undecided')
        return
    for st, v in outs:
        w.judge(st)
    R.functions |= {x for x in w.e.stats['inlined'] if x in w.F.local}
    R.count('orders of events judged', w.judged)
    R.ob(n, 'ok' if w.judged and not w.vague else 'undecided')
    for x in w.vague:
        R.note('%s: %s' % (n, x))
    for k, (msg, where, path) in w.bads.items():
        R.ob(n, 'violated')
        R.violation('%s-%s' % (what, k), '%s (%s: %s)' % (msg, key, w.name), where, path)
