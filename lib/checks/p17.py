"""P17: the job table, the process table and the background set agree."""
import ai
import base
import effects
import pipes
import proc
import words
from proc import get, put
from terms import *

RULE = ('Every live function that enters, registers, deletes, lists or looks up jobs (found by its types and by the tables it changes) is interpreted on job control tables of every shape listed '
        'in the evidence, with each kind of job: running, finished, stopped, empty, in the background or not, of one to three processes. On every path: a job is created under an identifier that no listed job has, '
        'which it carries, with exactly the given processes and flag, and the next identifier stays above all; registering a process enters it for its job; deleting removes the job, each of its processes and its background entry, '
        'unless it is stopped, in which case nothing changes; listing removes no job but finished ones, entirely; a lookup answers with the job entered for the number or the process, or nothing; nothing else changes.')
CONTROL, JOB, PROCESS, SHELL, PID = 'jobs::JobControl', 'jobs::Job', 'jobs::Process', 'shell::Shell', 'nix::unistd::Pid'
CELL = 'std::rc::Rc<std::cell::RefCell<jobs::Job>>'
BIG = {'fork', 'wait', 'exec', 'parse', 'kill', 'open', 'exit'}
WS = 'nix::sys::wait::WaitStatus'


def one(l):
    return l[0] if len(l) == 1 else None


class Model:
    def __init__(self, F):
        self.F = F
        self.ok = all(t in F.adts for t in (CONTROL, JOB, PROCESS, SHELL, PID))
        if not self.ok:
            return
        c = F.adts[CONTROL]['variants'][0]['ftys']
        maps = [i for i, t in enumerate(c) if 'Map<' in t or 'Set<' in t]
        self.table = one([i for i in maps if JOB in c[i]])
        self.pids = one([i for i in maps if PID in c[i] and JOB not in c[i]])
        self.back = one([i for i in maps if PID not in c[i] and JOB not in c[i]])
        nums = [i for i, t in enumerate(c) if t == 'usize']
        self.next = one(nums)
        s = F.adts[SHELL]['variants'][0]['ftys']
        self.ctl = one([i for i, t in enumerate(s) if t == CONTROL])
        j = F.adts[JOB]['variants'][0]
        self.jf = {n: i for i, n in enumerate(j['fields'])}
        self.jprocs = one([i for i, t in enumerate(j['ftys']) if t == 'std::vec::Vec<%s>' % PROCESS])
        self.jid = one([i for i, t in enumerate(j['ftys']) if t == 'usize'])
        self.jstate = one([i for i, t in enumerate(j['ftys']) if t == 'jobs::JobState'])
        self.jstop = one([i for i, t in enumerate(j['ftys']) if t == WS])
        self.jback = self.jf.get('background')
        p = F.adts[PROCESS]['variants'][0]
        self.ppid = one([i for i, t in enumerate(p['ftys']) if t == PID])
        self.pstatus = one([i for i, t in enumerate(p['ftys']) if WS in t])
        self.ok = None not in (self.table, self.pids, self.back, self.next, self.ctl, self.jprocs, self.jid, self.jstate, self.jstop, self.jback, self.ppid, self.pstatus) \
            and {v['name'] for v in F.adts['jobs::JobState']['variants']} >= {'Running', 'Finished', 'Stopped'}

    def pid(self, n):
        return I(n)

    def status(self, kind, pid, i):
        n = {'exited': 'Exited', 'killed': 'Signaled', 'stopped': 'Stopped', 'alive': 'StillAlive'}[kind]
        v = [x for x in self.F.adts[WS]['variants'] if x['name'] == n] if WS in self.F.adts else []
        k = {'Exited': 2, 'Signaled': 3, 'Stopped': 2, 'StillAlive': 0}[n]
        return mk('adt', WS, n, *([pid] + [mk('in', 'ws%s%d' % (kind, j), 'i32') for j in range(k - 1)] if k else []))

    def job(self, num, kind, n, background):
        """(the pointer, its content): job `num` of n processes with pids 10*num+1.."""
        F = self.F
        ps = []
        st = {'running': ['none'] * n, 'finished': ['exited'] * (n - 1) + ['killed' if num % 2 else 'exited'], 'stopped': ['exited' if n == 3 and i != 1 else 'stopped' for i in range(n)]}[kind]
        pf = F.adts[PROCESS]['variants'][0]['ftys']
        for k in range(n):
            pid = self.pid(10 * num + k + 1)
            s = NONE if st[k] == 'none' else SOME(self.status(st[k], pid, k))
            ps.append(mk('adt', PROCESS, '', *[pid if i == self.ppid else s if i == self.pstatus else mk('in', 'p%d.%d.%d' % (num, k, i), t) for i, t in enumerate(pf)]))
        stop = self.status('alive', None, 0) if kind == 'running' or not n else ps[1 if kind == 'stopped' and n == 3 else -1].a[2 + self.pstatus].a[2]
        state = mk('adt', 'jobs::JobState', {'running': 'Running', 'finished': 'Finished', 'stopped': 'Stopped'}[kind])
        fs = []
        for i, t in enumerate(F.adts[JOB]['variants'][0]['ftys']):
            fs.append(mk('vec', *ps) if i == self.jprocs else I(num) if i == self.jid else state if i == self.jstate else stop if i == self.jstop else B(background) if i == self.jback
                      else mk('in', 'job%d.%d' % (num, i), t))
        return mk('in', 'job%d' % num, 'cell'), mk('adt', JOB, '', *fs)


class Shape:
    """one set of tables: jobs [(number, kind, processes, background flag, in the background set)]"""

    def __init__(self, M, name, jobs, unregistered=False):
        self.M, self.name, self.jobs = M, name, jobs
        self.kind = {j[0]: j[1] for j in jobs}
        self.n = {j[0]: j[2] for j in jobs}
        self.T = {}
        self.content = {}
        self.P = {}
        self.B = set()
        for num, kind, n, flag, inset in jobs:
            p, c = M.job(num, kind, n, flag)
            self.T[num] = p
            self.content[num] = c
            for k in range(n):
                self.P[10 * num + k + 1] = num
            if inset:
                self.B.add(num)
        self.N = max(self.T, default=0) + 1

    def control(self, st, e):
        M = self.M
        t = mk('emptymap')
        for n in sorted(self.T):
            t = mk('ins', t, I(n), self.T[n])
            e.set_root(st, ('H', self.T[n]), self.content[n])
        p = mk('emptymap')
        for n in sorted(self.P):
            p = mk('ins', p, M.pid(n), I(self.P[n]))
        b = mk('emptymap')
        ctys = M.F.adts[CONTROL]['variants'][0]['ftys']
        for n in sorted(self.B):
            b = mk('ins', b, I(n), UNIT if 'Set<' in ctys[M.back] else I(n))
        fs = []
        for i, ty in enumerate(ctys):
            v = t if i == M.table else p if i == M.pids else b if i == M.back else I(self.N) if i == M.next else mk('in', 'ctl%d' % i, ty)
            if i in (M.table, M.pids, M.back) and ty.startswith('std::rc::Rc<'):
                h = mk('in', 'tables%d' % i, 'cell')
                e.set_root(st, ('H', h), v)
                v = h
            fs.append(v)
        return mk('adt', CONTROL, '', *fs)


def decode(e, st, v):
    """the entries of a map term {key: value} or None"""
    v = e.val(st, v)
    ops = []
    while v.k in ('ins', 'mrem'):
        ops.append(v)
        v = e.val(st, v.a[0])
    if v.k != 'emptymap':
        return None
    out = {}
    for o in reversed(ops):
        k = e.val(st, o.a[1])
        if k.k == 'adt' and len(k.a) == 3:
            k = e.val(st, k.a[2])
        if o.k == 'ins':
            out[k] = o.a[2]
        else:
            out.pop(k, None)
    return out


class Run:
    def __init__(self, F, R, M, shape, key, op):
        self.F, self.R, self.M, self.shape, self.key, self.op = F, R, M, shape, key, op

    def start(self):
        F, M = self.F, self.M
        e = base.engine(F, interesting=())
        e.disj, e.mem_disj, e.gens, e.widen_at = 64, 64, 8, 12

        def pol(e, st, c, key):
            f = F.fns[key]
            if not f['local'] or len(F.reach(key)[1]) < 60 or touches(F, key):
                return 'inline'
            return 'opaque'
        e.policy = pol
        self.e = e
        st = ai.St()
        ctl = self.shape.control(st, e)
        s = F.adts[SHELL]['variants'][0]
        sh = mk('adt', SHELL, '', *[ctl if i == M.ctl else mk('in', 's%d' % i, t) for i, t in enumerate(s['ftys'])])
        self.loc, p = e.deref(mk('static', 'shell::SHELL'))
        e.set_root(st, self.loc, sh)
        return st

    def args(self, given):
        """arguments by type"""
        out = []
        for t in proc.arg_types(self.F.fns[self.key]):
            if t in given:
                out.append(given[t])
            elif SHELL in t:
                out.append(self.e.ref(self.loc))
            elif CONTROL in t:
                out.append(self.e.ref(self.loc, (('', self.M.ctl),)))
            else:
                out.append(mk('in', len(out), t))
        return out

    def go(self, given):
        st = self.start()
        return base.run(self.e, self.key, self.args(given), st)

    def after(self, st):
        e, M = self.e, self.M
        f = lambda i: e.load(st, self.loc, (('', M.ctl), ('', i)))
        return decode(e, st, f(M.table)), decode(e, st, f(M.pids)), decode(e, st, f(M.back)), e.val(st, f(M.next))

    def pointer(self, st, v):
        """the job a pointer names: a number of the shape, or the content"""
        e, n = self.e, 0
        while n < 8:
            for num, p in self.shape.T.items():
                if v is p or v.k == 'ref' and v.a[0] == ('H', p) and not v.a[1]:
                    return num
            if v.k != 'ref':
                break
            v = e.load(st, v.a[0], v.a[1])
            n += 1
        return v


class Started(pipes.Launch):
    """the start of a pipeline of n commands in a shell that has jobs already"""

    def __init__(self, F, R, M, shape, n, background):
        S_ = words.Shape(F)
        pipes.Launch.__init__(self, F, n, background, [pipes.command(S_, i) for i in range(n)])
        self.R, self.M, self.shape = R, M, shape
        self.judged, self.bads, self.vague = 0, {}, 0
        for name in base.FORK:
            self.e.hooks[name] = self.counting(self.e.hooks[name])
        self.e.pre.insert(0, self.waits)

    def counting(self, old):
        def fork(e, st, c):
            out = old(e, st, c)
            s, v = out[0]
            put(s, 'pids', get(s, 'pids', ()) + (e.val(s, e.proj(s, e.val(s, e.proj(s, v, ('Ok', 0))), ('Parent', 0))),))
            return [out[0]]
        return fork

    def policy(self, e, st, c, k):
        if touches(self.F, k) and not self.info(k)[3]:
            return 'inline'
        return pipes.Launch.policy(self, e, st, c, k)

    def process(self, t):
        p = pipes.Launch.process(self, t)
        a = list(p.a)
        a[2 + self.M.ppid] = self.M.pid(-1)
        return mk('adt', *a)

    def prepare(self, st):
        e, M = self.e, self.M
        ctl = self.shape.control(st, e)
        s = self.F.adts[SHELL]['variants'][0]
        self.loc, _ = e.deref(mk('static', 'shell::SHELL'))
        e.set_root(st, self.loc, mk('adt', SHELL, '', *[ctl if i == M.ctl else mk('in', 's%d' % i, t) for i, t in enumerate(s['ftys'])]))

    def waits(self, e, st, c):
        if (c.name in base.WAIT or c.inst and c.inst in self.F.local and not self.F.fns[c.inst].get('closure') and self.info(c.inst)[3] and not self.info(c.inst)[0]) and not get(st, 'child'):
            self.judge(st)
            return []
        return None

    def judge(self, st):
        e, M = self.e, self.M
        pids = get(st, 'pids', ())
        if get(st, 'forkfail') or len(pids) != self.n:
            return
        f = lambda i: e.load(st, self.loc, (('', M.ctl), ('', i)))
        T, P = decode(e, st, f(M.table)), decode(e, st, f(M.pids))
        new = [k for k in T or () if k.k == 'int' and k.a[0] not in self.shape.T]
        if T is None or P is None or len(new) != 1:
            self.vague += 1
            return
        J = e.val(st, T[new[0]])
        ps = e.val(st, J.a[2 + M.jprocs]) if J.k == 'adt' else J
        self.judged += 1
        for i, pid in enumerate(pids):
            if P.get(pid) is None or e.val(st, P[pid]) is not new[0]:
                if P.get(pid) is None or e.val(st, P[pid]).k == 'int':
                    self.bads['registered'] = 'a process of a pipeline is not entered in the process table for the job created for it'
                else:
                    self.vague += 1
            have = e.val(st, e.proj(st, e.val(st, ps.a[i]), ('', M.ppid))) if ps.k == 'vec' and len(ps.a) == self.n else None
            while have is not None and have.k == 'adt' and len(have.a) == 3:
                have = e.val(st, have.a[2])
            if have is None:
                self.vague += 1
            elif have is not pid and e.boolean(st, 'eq', have, pid) is not TRUE:
                if have.k in ('int', 'pid', 'in'):
                    self.bads['pid'] = 'a process of a pipeline does not carry the process id of the child started for it'
                else:
                    self.vague += 1


def launches(F, R, M, S):
    for key in proc.pipeline_entry(F):
        for n in range(1, 4 if R.tier == 'quick' else 7):
            for background in (True, False):
                run = Started(F, R, M, S, n, background)
                name = 'start of %d commands%s' % (n, ' in the background' if background else '')
                try:
                    for st, v in run.run(key):
                        if not get(st, 'child'):
                            run.judge(st) if background else None
                except ai.Budget:
                    R.ob(name, 'undecided')
                    continue
                R.functions |= {x for x in run.e.stats['inlined'] if x in F.local}
                R.count('pipeline starts judged', run.judged)
                R.ob(name, 'ok' if run.judged and not run.vague else 'undecided')
                for k, msg in run.bads.items():
                    R.ob(name, 'violated')
                    R.violation('start-' + k, '%s (%s, %d commands)' % (msg, key, n), where(F, key), [key])


def touches(F, k):
    return any(x[:3] in ('job', 'pid') for x in effects.reach(F, k)) and not effects.reach(F, k) & {'fork', 'exec', 'parse'}


def entries(F):
    """{operation: [function]}"""
    out = {'create': [], 'register': [], 'delete': [], 'list': [], 'lookup': []}
    for k in sorted(F.reach('main')[1]):
        f = F.fns.get(k)
        if not f or not f['local'] or f.get('closure'):
            continue
        ty = [t for t in proc.arg_types(f) if SHELL not in t and CONTROL not in t]
        r = f['locals'][0]['ty']
        eff = effects.reach(F, k)
        if eff & BIG:
            continue
        if 'job-insert' in eff and r.endswith(CELL) and any(t == 'std::vec::Vec<%s>' % PROCESS for t in ty) and 'bool' in ty:
            out['create'].append(k)
        elif 'pid-insert' in eff and sorted(ty) == sorted(['usize', PID]):
            out['register'].append(k)
        elif 'job-remove' in eff and ty in (['usize'], [PID]):
            out['delete'].append(k)
        elif 'job-remove' in eff and not ty:
            out['list'].append(k)
        elif r == 'std::option::Option<%s>' % CELL and ty in (['usize'], [PID]) and not eff & {'job-remove', 'job-insert'}:
            out['lookup'].append(k)
    return out


def shapes(M, tier):
    S = [Shape(M, 'no jobs', []), Shape(M, 'one job', [(1, 'running', 1, False, False)]),
         Shape(M, 'running', [(1, 'running', 1, True, True), (2, 'running', 2, False, False), (3, 'running', 3, True, True)]),
         Shape(M, 'finished', [(1, 'finished', 3, True, True), (2, 'finished', 1, False, False), (4, 'finished', 2, False, True)]),
         Shape(M, 'gaps', [(2, 'finished', 1, True, True), (5, 'running', 2, True, True)]),
         Shape(M, 'stopped', [(1, 'stopped', 1, False, False), (3, 'stopped', 2, True, True), (4, 'finished', 2, True, True), (6, 'stopped', 3, False, False)]),
         Shape(M, 'empty', [(3, 'running', 0, False, False)])]
    if tier == 'thorough':
        for k in ('running', 'finished', 'stopped'):
            for k2 in ('running', 'finished', 'stopped'):
                for n in (1, 2, 3, 4):
                    for f in (False, True):
                        S.append(Shape(M, '%s/%s/%d/%s' % (k, k2, n, f), [(1, k, n, f, f), (2, k2, 1, True, not f), (6, k, 2, f, True), (7, k2, n, not f, False)]))
    return S


def check(F, R):
    M = Model(F)
    if not M.ok:
        R.note('the job control tables have another form than this check knows')
        R.ob('tables known', 'undecided')
        return
    E = entries(F)
    R.rule = RULE
    for op in ('create', 'register', 'delete', 'lookup'):
        R.ob('%s: a function does it' % op, 'ok' if E[op] else 'undecided')
    for op, ks in E.items():
        R.count('functions: ' + op, len(ks))
        for k in ks:
            R.functions |= {x for x in F.reach(k)[1] if x in F.fns and F.fns[x]['local']}
    for shape in shapes(M, R.tier):
        R.count('table shapes')
        for op, ks in E.items():
            for k in ks:
                cases(F, R, M, shape, k, op)
        if shape.name == 'gaps':
            launches(F, R, M, shape)


def cases(F, R, M, shape, key, op):
    ty = [t for t in proc.arg_types(F.fns[key]) if SHELL not in t and CONTROL not in t]
    todo = []
    if op == 'create':
        PS = mk('vec', *[mk('adt', PROCESS, '', *[M.pid(0) if i == M.ppid else NONE if i == M.pstatus else mk('in', 'n%d.%d' % (k, i), t)
                                                 for i, t in enumerate(F.adts[PROCESS]['variants'][0]['ftys'])]) for k in range(2)])
        todo = [({'std::vec::Vec<%s>' % PROCESS: PS, 'bool': B(b)}, (PS, b)) for b in (True, False)]
    elif op == 'register':
        todo = [({'usize': I(n), PID: M.pid(p)}, (n, p)) for n in list(shape.T)[:2] for p in [77] + list(shape.P)[-1:]]
    elif op == 'list':
        todo = [({}, None)]
    elif ty == ['usize']:
        todo = [({'usize': I(n)}, n) for n in list(shape.T) + [9]]
    else:
        todo = [({PID: M.pid(n)}, n) for n in list(shape.P) + [99]]
    for given, what in todo:
        run = Run(F, R, M, shape, key, op)
        name = '%s of %s on [%s]%s' % (op, key, shape.name, '' if op in ('create', 'list') else ' of %s' % (what,))
        try:
            outs = run.go(given)
        except ai.Budget:
            R.ob(name, 'undecided')
            continue
        R.count('paths', len(outs))
        R.ob(name, 'ok' if outs else 'undecided')
        for st, v in outs:
            state = judge(R, M, run, st, v, what, ty)
            R.ob(name, state)


def murky(e, st):
    """the path depends on something the analysis does not know, other than the outcome of a system call or of printing"""
    for t in st.facts:
        for x in pipes.subterms(t):
            if x.k == 'w' or x.k == 'app' or x.k == 'call' and not str(x.a[-1]).startswith(('nix::', 'libc::', 'std::io::', '<std::io::')):
                return True
    return False


def judge(R, M, run, st, v, what, ty):
    e, shape, op, key = run.e, run.shape, run.op, run.key
    T, P, Bk, N = run.after(st)
    if T is None or P is None or Bk is None or any(k.k != 'int' for m in (T, P, Bk) for k in m):
        return 'undecided'
    T = {k.a[0]: run.pointer(st, x) for k, x in T.items()}
    P = {k.a[0]: e.val(st, x) for k, x in P.items()}
    if any(x.k != 'int' for x in P.values()):
        return 'undecided'
    P = {k: x.a[0] for k, x in P.items()}
    Bk = {k.a[0] for k in Bk}
    state = ['ok']

    vague = murky(e, st)

    def bad(kind, msg):
        if vague:
            state[0] = 'undecided' if state[0] == 'ok' else state[0]
            return
        state[0] = 'violated'
        R.violation('%s-%s' % (op, kind), '%s (%s; tables: %s)' % (msg, key, shape.name), where(run.F, key), [key])
    wantT, wantP, wantB = dict((n, n) for n in shape.T), dict(shape.P), set(shape.B)
    if op == 'create':
        new = set(T) - set(shape.T)
        if len(T) != len(shape.T) + 1 or len(new) != 1:
            bad('number', 'a new job is not entered under a number of its own')
            return state[0]
        n = new.pop()
        j = T.pop(n)
        cell = run.pointer(st, v)
        J = e.val(st, v)
        inside = e.val(st, j) if not isinstance(j, int) else None
        if inside is None or isinstance(cell, int) or e.strip_upd(cell) is not e.strip_upd(j) and cell is not j:
            if inside is not None and J is not inside:
                state[0] = 'undecided'
            elif inside is None:
                bad('entry', 'the job returned is not the one entered')
        if J.k == 'adt':
            f = lambda i: e.val(st, J.a[2 + i])
            if f(M.jid).k == 'int' and f(M.jid).a[0] != n:
                bad('identifier', 'a job carries another identifier than the one it is entered under')
            elif f(M.jid).k != 'int':
                state[0] = 'undecided'
            ps = f(M.jprocs)
            if ps.k == 'vec' and ([e.val(st, x) for x in ps.a] != [e.val(st, x) for x in what[0].a]):
                bad('processes', 'a new job does not hold exactly the processes it was created with')
            elif ps.k != 'vec':
                state[0] = 'undecided'
            if f(M.jback).k == 'bool' and f(M.jback) is not B(what[1]):
                bad('flag', 'a new job has another background flag than it was created with')
            stt = f(M.jstate)
            if stt.k == 'adt' and stt.a[1] in ('Finished', 'Stopped'):
                bad('state', 'a new job counts as %s' % stt.a[1].lower())
            if what[1]:
                wantB.add(n)
        else:
            state[0] = 'undecided'
        if N.k == 'int' and N.a[0] <= n:
            bad('next', 'the next job would get the identifier of the one just created')
    elif op == 'register':
        wantP[what[1]] = what[0]
    elif op == 'delete':
        num = what if ty == ['usize'] else shape.P.get(what)
        if num in shape.T and shape.kind[num] != 'stopped':
            wantT.pop(num)
            wantB.discard(num)
            wantP = {p: n for p, n in wantP.items() if n != num}
    elif op == 'list':
        gone = {n for n in shape.T if n not in T}
        if any(shape.kind[n] != 'finished' for n in gone):
            bad('unfinished', 'listing the jobs removes one that has not finished')
        for n in gone:
            wantT.pop(n, None)
            wantB.discard(n)
            wantP = {p: x for p, x in wantP.items() if x != n}
    elif op == 'lookup':
        num = what if ty == ['usize'] else shape.P.get(what)
        some = e.variant_of(st, v)
        if some == 'None':
            if num in shape.T:
                bad('missing', 'a lookup does not find a job that is in the table')
        elif some == 'Some':
            x = run.pointer(st, e.proj(st, e.val(st, v), ('Some', 0)))
            if not isinstance(x, int) and x.k == 'adt' and x.a[0] == JOB and e.val(st, x.a[2 + M.jid]).k == 'int':
                x = e.val(st, x.a[2 + M.jid]).a[0]
            if num not in shape.T:
                bad('surplus', 'a lookup finds a job for what is not in the tables') if isinstance(x, int) else None
            elif isinstance(x, int):
                if x != num:
                    bad('wrong', 'a lookup finds another job than the one entered')
            else:
                state[0] = 'undecided'
        else:
            state[0] = 'undecided'
    # the entries
    for n in sorted(set(wantT) | set(T)):
        if n not in T:
            bad('lost', 'a %s job is removed from the table' % ('stopped' if shape.kind[n] == 'stopped' else 'listed') if op == 'delete' else 'an operation that must not removes a job from the table')
        elif n not in wantT:
            bad('stays', 'a finished job stays in the table')
        elif not isinstance(T[n], int):
            state[0] = 'undecided' if state[0] == 'ok' else state[0]
        elif T[n] != n:
            bad('moved', 'a job stands under another number than its own')
    for p in sorted(set(wantP) | set(P)):
        if P.get(p) != wantP.get(p):
            bad('process-table', 'the process table %s' % ('keeps a process of a job that is gone' if p not in wantP else 'lost a process of a listed job' if p not in P else 'names another job for a process'))
    for n in Bk - wantB:
        bad('background', 'the background set keeps or gets a job that does not belong there')
    for n in wantB - Bk:
        bad('background', 'the background set lacks a background job')
    if N.k == 'int':
        if any(N.a[0] <= n for n in T):
            bad('next', 'the next job would get an identifier that a listed job has')
    else:
        state[0] = 'undecided' if state[0] == 'ok' else state[0]
    return state[0]


def where(F, key):
    s = F.fns[key].get('span')
    return '%s:%s' % tuple(s[:2]) if s else None
