"""P30: fg and bg continue every process of the job, and only fg waits."""
import ai
import base
import cmds
import effects
import proc
from proc import get, put
from checks.p24 import sub
from terms import *

RULE = ('On every path of handling the command names fg and bg: the job is looked up by what the word says (%n a job number, otherwise a process id); '
        'without a job nothing is signalled or waited for and an error is returned; with one, exactly one SIGCONT goes to the pid of every element of '
        'its process list and to nothing else, its state is Running and its background flag false (fg) or true (bg) before anything is waited for, fg then waits '
        'for this job and hands what the wait returns to the exit status, bg waits for nothing.')
THEJOB = 'in(93'
JOB = mk('in', 93, 'jobs::Job')
CELL = ('H', mk('thejob'))
JOBOPT = 'std::option::Option<std::rc::Rc<std::cell::RefCell<jobs::Job>>>'


def partial(it, begin=False):
    """an iterator that may leave elements out"""
    while it.k in ('rev', 'cloned', 'enum', 'map', 'peek'):
        it = it.a[0]
    return it.k in ('take', 'skip', 'filter', 'fmap', 'tw', 'zip', 'once') or begin and it.k == 'iter' and it.a[2].k == 'int' and it.a[2] is not I(0)


class Run:
    def __init__(self, F, R, name):
        self.F, self.R, self.name = F, R, name
        self.bads = {}
        self.unk = set()
        self.n = {'kill': 0, 'wait': 0, 'lookup': 0}
        adt = F.adts['jobs::Job']['variants'][0]
        self.f = {n: i for i, n in enumerate(adt['fields'])}
        self.pidf = F.adts['jobs::Process']['variants'][0]['fields'].index('pid')

    def bad(self, key, msg, span):
        self.bads.setdefault(key, (msg, '%s:%s' % tuple(span[:2]) if span else None, [x[0] for x in self.e.stack]))

    def more(self, k):
        F = self.F
        f = F.fns[k]
        if JOBOPT in f['locals'][0]['ty']:
            return False
        eff = effects.reach(F, k, self.stop)
        if 'kill' in eff or 'status-write' in eff and not 'wait' in eff and len(F.reach(k)[1]) < 40:
            return True
        return False

    def setup(self, e, st, loc, path):
        F = self.F
        self.e = e
        e.max_states = 6000
        e.mem_disj = 64
        live = F.reach('main')[1]
        jobty = 'jobs::Job'

        def lookup(e, st, c):
            """a function that returns the job for an id"""
            if not (c.inst and c.inst in F.local) or F.fns[c.inst]['locals'][0]['ty'] != JOBOPT:
                return None
            if not any(t in ('usize', 'nix::unistd::Pid', 'i32', 'u32') for t in proc.arg_types(F.fns[c.inst])):
                return None
            if effects.reach(F, c.inst, self.stop) & {'job-insert', 'job-remove'}:
                return None
            self.n['lookup'] += 1
            idt = [(t, e.res(st, e.val(st, a))) for t, a in zip(proc.arg_types(F.fns[c.inst]), c.args) if t in ('usize', 'nix::unistd::Pid', 'i32', 'u32')]
            t, v = idt[-1]
            self.meaning(e, st, c, 'Pid' in t, v)
            a, b = st, st.fork()
            put(a, 'nojob', True)
            j = mk('in', 93, jobty)
            l = CELL
            e.store(b, l, (), j)
            put(b, 'job', (t == 'nix::unistd::Pid', v))
            return [(a, NONE), (b, SOME(e.ref(l)))]

        def isjob(st, v):
            v = e.val(st, v) if v.k == 'ref' and v.a[0] and v.a[0][0] == 'L' else v
            seen = 0
            while seen < 4:
                seen += 1
                if v is CELL[1]:
                    return True
                if v.k == 'adt' and v.a[1] == 'Some':
                    v = v.a[2]
                elif v.k == 'ref':
                    l, p = e.deref(v)
                    if l == CELL:
                        return True
                    v = e.load(st, l, p)
                else:
                    return False
            return False

        def pre(e, st, c):
            if c.name.endswith('Atomic::<i32>::store'):
                put(st, 'status', e.res(st, e.val(st, c.args[1])))
                return None
            r = lookup(e, st, c)
            if r is not None:
                return r
            if c.inst and c.inst in F.local and not self.more(c.inst) and c.inst not in self.entry:
                eff = effects.reach(F, c.inst, self.stop)
                if 'wait' in eff and (not 'fork' in eff or any('jobs::Job' in t for t in proc.arg_types(F.fns[c.inst]))):
                    return self.wait(e, st, c, isjob)
            return None
        e.pre.insert(0, pre)

        def wait_sys(e, st, c):
            return self.wait(e, st, c, isjob)
        for n in base.WAIT:
            e.hooks[n] = wait_sys

        def kill(e, st, c):
            self.n['kill'] += 1
            p = e.res(st, e.val(st, c.args[0]))
            s = e.res(st, e.val(st, c.args[1]))
            while s.k == 'adt' and s.a[1] == 'Some':
                s = e.res(st, s.a[2])
            if not get(st, 'job'):
                self.bad('signal-without-job', '%s sends a signal although there is no such job' % self.name, c.span)
            if s.k == 'adt' and s.a[1] != 'SIGCONT' or s.k == 'adt' and s.a[1] == 'None':
                self.bad('signal', '%s sends %s instead of the continue signal' % (self.name, s.a[1]), c.span)
            elif s.k != 'adt':
                self.unk.add('signal sent')
            if 'killpg' in c.name:
                self.unk.add('a process group is signalled')
                put(st, 'all', True)
                return [(st, e.fresh(st, 'call', c.site, c.res))]
            due = get(st, 'due')
            if due is not None and (p is due or e.boolean(st, 'eq', p, due) is True):
                put(st, 'due', None)
                put(st, 'killed', True)
            elif get(st, 'job'):
                ps = e.res(st, e.load(st, CELL, (('', self.f['processes']),)))
                if THEJOB in show(p, 16) or any(y is ps for y in sub(p)):
                    self.unk.add('process signalled')
                    put(st, 'odd', True)
                else:
                    self.bad('target', '%s signals something else than a process of the job' % self.name, c.span)
            a, b = st, st.fork()
            return [(a, OK(UNIT)), (b, ERR(e.fresh(b, 'call', c.site, c.res)))]
        for n in base.KILL:
            e.hooks[n] = kill

        def on_iter(e, st, c, it, x, rty):
            if not get(st, 'job'):
                return
            if x is None:
                if get(st, 'inloop') or self.over(it):
                    if get(st, 'due') is not None:
                        self.skip(st, c)
                    elif not get(st, 'skipped') and not partial(it):
                        put(st, 'complete', True if get(st, 'inloop') else get(st, 'complete') or 'empty')
                    for k in ('inloop', 'due', 'killed', 'skipped'):
                        put(st, k, None)
                return
            p = self.pid_of(st, x)
            if p is not None:
                if partial(it, True) and not get(st, 'inloop'):
                    put(st, 'skipped', True)
                if get(st, 'due') is not None:
                    self.skip(st, c)
                put(st, 'due', p)
                if get(st, 'complete') == 'empty':
                    put(st, 'complete', None)
                put(st, 'inloop', True)
        e.on_iter = on_iter
        e.on_panic = lambda *a: None

    def meaning(self, e, st, c, bypid, v):
        """%n names job n, n the process n"""
        x, n = v, 0
        while n < 8 and (x.k == 'cast' or x.k == 'f' or x.k == 'adt' and len(x.a) == 3):
            x, n = e.res(st, x.a[2] if x.k == 'adt' else x.a[0]), n + 1
        if x.k in ('add', 'sub'):
            self.bad('number', '%s looks up another number than the one given' % self.name, c.span)
            return
        if not (x.k == 'app' and str(x.a[0]).startswith('parse')):
            self.unk.add('number looked up')
            return
        w = x.a[1]
        pct = None
        if 'strip(' in show(w, 12) and "'%'" in show(w, 12):
            pct = True
        for t, f in st.facts.items():
            if t.k == 'pred' and t.a[0] == 'starts_with' and "'%'" in show(t.a[2], 3) and f[0] == 'c' and (t.a[1] is w or show(t.a[1], 9) in show(w, 12)):
                pct = f[1] is TRUE or f[1] is True
        if pct is None:
            self.unk.add('meaning of the number')
        elif pct == bypid:
            self.bad('meaning', '%s takes %s' % (self.name, 'the number of a job for a process id' if pct else 'a process id for the number of a job'), c.span)

    def over(self, it):
        """an iterator over something in the job"""
        todo = [it]
        while todo:
            x = todo.pop()
            if x is CELL[1]:
                return True
            if x.k == 'ref':
                if self.e.deref(x)[0] == CELL:
                    return True
            elif x is JOB:
                return True
            else:
                todo += [y for y in x.a if isinstance(y, T)]
        return False

    def skip(self, st, c):
        put(st, 'skipped', True)
        put(st, 'due', None)

    def pid_of(self, st, x):
        e = self.e
        n = 0
        while n < 3:
            n += 1
            if x.k == 'ref':
                l, p = e.deref(x)
                if THEJOB not in show(e.load(st, l, p), 8) and l != CELL:
                    return None
                v = e.load(st, l, p)
                if v.k == 'ref':
                    x = v
                    continue
                return e.res(st, e.load(st, l, p + (('', self.pidf),)))
            if x.k in ('tup',):
                x = x.a[-1]
                continue
            break
        ps = e.res(st, e.load(st, CELL, (('', self.f['processes']),)))
        if THEJOB not in show(x, 10) and not any(y is ps for y in sub(x)):
            return None
        if x.k == 'f' and x.a[0].k in ('ix', 'elem') and x.a[0].a[0] is ps:
            return x
        return e.res(st, e.proj(st, x, ('', self.pidf)))

    def judge(self, st, span, when):
        e = self.e
        for fld, want in (('state', 'Running'), ('background', TRUE if self.name == 'bg' else FALSE)):
            v = e.res(st, e.load(st, CELL, (('', self.f[fld]),)))
            if fld == 'state':
                ok = v.a[1] == want if v.k == 'adt' else None
            else:
                ok = v is want if v in (TRUE, FALSE) else None
            if ok is None and v.k == 'f' and THEJOB in show(v, 6):
                ok = False
            if ok is False:
                self.bad('mark-' + fld, '%s leaves the %s of the job other than %s %s' % (self.name, fld, want if fld == 'state' else show(want), when), span)
            elif ok is None:
                self.unk.add('%s of the job' % fld)
        if get(st, 'odd') and not get(st, 'complete'):
            self.unk.add('whether every process is continued')
        elif not get(st, 'complete'):
            self.bad('not-continued', '%s can get to the point %s without having continued every process of the job' % (self.name, when), span)

    def wait(self, e, st, c, isjob):
        self.n['wait'] += 1
        if not get(st, 'job'):
            self.bad('wait-without-job', '%s waits although there is no such job' % self.name, c.span)
        elif self.name == 'bg':
            self.bad('bg-waits', 'bg waits for a process', c.span)
        else:
            self.judge(st, c.span, 'when the wait begins')
            mine = [isjob(st, a) for a in c.args]
            if c.inst and not any(mine):
                if any('Job' in t for t in c.at):
                    self.bad('wait-other', 'fg waits for something else than the job it continued', c.span)
                else:
                    self.unk.add('what is waited for')
            put(st, 'waited', True)
            put(st, 'status', None)
        r = e.opaque_call(st, c, c.inst)
        for s, v in r:
            put(s, 'waitres', v)
        return r

    def run(self):
        F = self.F
        self.stop = cmds.stops(F)
        self.entry = set(cmds.entries(F))
        n = {'unknown job': 0, 'job': 0}
        outs = cmds.run(F, self.name, self.R, inline_more=self.more, setup=self.setup)
        seen = set()
        for o in outs:
            st, e = o.st, o.eng
            if o.how == 'diverges':
                continue
            w = F.fns[o.key]['span'][:2]
            job = get(st, 'job')
            status = get(st, 'status')
            if not job:
                n['unknown job'] += 1
                if status is None:
                    self.unk.add('status without a job')
                else:
                    z = e.boolean(st, 'eq', status, I(0))
                    if z is TRUE or z is True:
                        self.bad('unknown-succeeds', '%s without a job of that name ends with status 0' % self.name, w)
                    elif z is not FALSE and z is not False:
                        self.unk.add('status without a job')
                continue
            n['job'] += 1
            self.judge(st, w, 'when %s ends' % self.name)
            if self.name == 'fg':
                if not get(st, 'waited'):
                    self.bad('fg-waits-not', 'fg can end without waiting for the job', w)
                    continue
                r = get(st, 'waitres')
                if status is None:
                    seen.add('none')
                elif status.k == 'int' and not any(show(r, 6) in show(t, 12) for t in st.facts):
                    self.bad('status', 'the status of fg can be %s whatever the job ended with' % show(status), w)
                else:
                    seen.add('some')
            elif status is not None and status.k == 'int' and status is not I(0):
                self.bad('status', 'bg ends with status %s although it continued the job' % show(status), w)
        if self.name == 'fg' and seen == {'none'}:
            self.bad('status', 'fg does not report the status of the job', w)
        self.paths = n
        return outs


def check(F, R):
    for name in ('fg', 'bg'):
        r = Run(F, R, name)
        try:
            r.run()
        except ai.Budget as x:
            R.note(str(x))
            R.ob(name, 'undecided')
            continue
        for k, (msg, where, path) in sorted(r.bads.items()):
            R.violation('%s-%s' % (name, k), msg, where, path)
        for u in sorted(r.unk):
            R.note('%s: %s' % (name, u))
        full = r.n['kill'] and r.n['lookup'] and all(r.paths.values()) and (name == 'bg' or r.n['wait'])
        R.ob('%s with a job' % name, 'violated' if r.bads else 'ok' if full and not r.unk else 'undecided')
        R.ob('%s without a job' % name, 'violated' if r.bads else 'ok' if full and not r.unk else 'undecided')
        R.count('%s: paths' % name, sum(r.paths.values()))
