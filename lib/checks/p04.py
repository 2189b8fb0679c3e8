"""P04: the interactive shell survives terminal signals and reaps every child."""
import ai
import base
import effects
import mainrun
import proc
from checks import p31
from mask import nohang
from proc import get, put
from terms import *

RULE = ('On every path of main to the first line read from the terminal, INT and TSTP are ignored or handled and CHLD is '
        'handled; each installed handler returns on every path without exit, exec, raise, stop, read or a wait that blocks; on CHLD it '
        'goes on waiting for any child (also stopped ones, never blocking) until there is none to collect; no later path of '
        'the shell process returns with one of the three dispositions reset.')
NEED = {'SIGINT': ('Handler', 'SigIgn'), 'SIGTSTP': ('Handler', 'SigIgn'), 'SIGCHLD': ('Handler',)}
NUM = {'SIGINT': 2, 'SIGTSTP': 20, 'SIGCHLD': 17}
BLOCKING = {'std::thread::sleep', 'nix::unistd::sleep', 'nix::unistd::pause', 'libc::pause', 'libc::sigsuspend', 'libc::sleep', 'std::io::Stdin::read_line',
            'std::io::BufRead::read_line', 'std::io::Read::read_to_string', 'std::io::Read::read_to_end', 'std::process::Command::output', 'std::process::Command::status',
            'nix::sys::signal::SigSet::wait', 'nix::sys::signal::raise', 'libc::raise', 'libc::sigwait'} | base.KILL


class Install(p31.Start):
    def __init__(self, F, R):
        p31.Start.__init__(self, F, R, 'interactive', ['p'], 'tty', None)
        self.want = base.SIGACT
        self.at_prompt = []

    def setup(self, e):
        p31.Start.setup(self, e)
        proc.flag_loads(self.F, e)

    def more(self, k, n, ks):
        if n & base.SIGACT and not ks & self.evalfns:
            return True
        if k in p31.mainrun.lazy(self.F):
            return False
        return p31.Start.more(self, k, n, ks)

    def read(self, e, st, c, src):
        self.statics = {k: v for k, v in st.heap.items() if k[0] == 'H' and k[1].k == 'static'} if not self.at_prompt else {
            k: v for k, v in self.statics.items() if st.heap.get(k) is v}
        self.at_prompt.append((dict(get(st, 'disp', ())), '%s:%s' % tuple(c.span[:2])))
        return []


def statics_init(F, e, st):
    """the lazily initialised statics as their initialisers leave them, where these have one outcome"""
    for k in sorted(F.fns):
        if not k.endswith('::__static_ref_initialize'):
            continue
        name = k[1:].split(' as ')[0]
        size = sum(len(F.fns[x]['blocks']) for x in F.reach(k)[1] if x in F.local)
        if size > 30:
            continue
        pol = e.policy
        e.policy = lambda e, st, c, k: 'inline'
        outs = base.run(e, k, None, st)
        e.policy = pol
        if len(outs) == 1:
            st = outs[0][0]
            e.store(st, ('H', mk('static', name)), (), e.val(st, outs[0][1]))
    return st


def check_install(F, R):
    m = Install(F, R)
    st = ai.St()
    p31.interactive(F, st)
    st = statics_init(F, ai.Engine(F), st)
    try:
        m.run('main', st=st)
    except ai.Budget as x:
        R.ob('handlers at the prompt', 'undecided')
        return {}, {}
    hs = {}
    if not m.at_prompt:
        R.ob('handlers at the prompt', 'undecided')
    for d, where in m.at_prompt:
        for s, ok in NEED.items():
            kind, fn = d.get(s, (None, None))
            n = 'at the prompt, %s is taken care of' % s
            if kind is None or kind == 'SigDfl':
                R.violation('disposition-%s' % s, 'the terminal is read with the default disposition of %s' % s, where)
                R.ob(n, 'violated')
            elif kind == '?':
                R.ob(n, 'undecided')
            elif kind not in ok:
                R.violation('disposition-%s' % s, '%s is ignored at the prompt, so that its children are not collected when it arrives' % s, where)
                R.ob(n, 'violated')
            else:
                R.ob(n, 'ok')
                if kind == 'Handler' and fn is not None:
                    hs.setdefault(s, set()).add(fn)
    return hs, getattr(m, 'statics', {})


class Handler:
    """interprets a signal handler for one signal"""

    def __init__(self, F, R, key, sig):
        self.F, self.R, self.key, self.sig = F, R, key, sig
        self.bads = {}
        self.ends = {'ok': 0}

    def bad(self, key, msg, c):
        self.bads.setdefault('%s@%s' % (key, c.fn), (msg, '%s:%s' % tuple(c.span[:2]), [x[0] for x in self.e.stack]))

    def run(self):
        F = self.F
        e = self.e = ai.Engine(F)
        e.max_states = 6000
        stop = set(proc.eval_entry(F)) | proc.andor_fns(F)
        eff = base.WAIT | base.EXIT | base.EXEC | BLOCKING | base.SIGACT

        def pol(e, st, c, k):
            if not F.fns[k]['local']:
                return 'inline'
            n, ks = F.reach(k)
            size = sum(len(F.fns[x]['blocks']) for x in ks if x in F.local)
            return 'inline' if n & eff or size <= 40 else 'opaque'
        e.policy = pol

        def wait(e, st, c):
            who = e.res(st, e.val(st, c.args[0]))
            fl = e.val(st, c.args[1]) if len(c.args) > 1 else None
            if fl is None or not nohang(fl):
                self.bad('blocks', 'the handler of %s waits for a child without WNOHANG, so that it can block' % self.sig, c)
            put(st, 'n', min(get(st, 'n', 0) + 1, 2))
            t = e.fresh(st, 'call', c.site, c.res)
            out = []
            for kind in ('Exited', 'Signaled', 'Stopped', 'StillAlive', 'err'):
                s = st.fork()
                put(s, 'last', kind)
                if kind == 'err':
                    out.append((s, ERR(mk('f', t, 'Err', 0))))
                elif kind == 'StillAlive':
                    out.append((s, OK(mk('adt', 'nix::sys::wait::WaitStatus', kind))))
                else:
                    n = {'Exited': 2, 'Signaled': 3, 'Stopped': 2}[kind]
                    out.append((s, OK(mk('adt', 'nix::sys::wait::WaitStatus', kind, *[mk('f', t, kind, i) for i in range(n)]))))
            return out
        for n in base.WAIT:
            e.hooks[n] = wait

        def stopper(what):
            def f(e, st, c):
                self.bad('ends', 'the handler of %s can %s' % (self.sig, what), c)
                return []
            return f
        for n in base.EXIT:
            e.hooks[n] = stopper('end the shell')
        for n in base.EXEC:
            e.hooks[n] = stopper('replace the shell by a program')
        for n in BLOCKING:
            e.hooks[n] = stopper('block or stop the shell (%s)' % n.rsplit('::', 1)[-1])

        def sigact(e, st, c):
            s = e.val(st, c.args[0])
            act = e.val(st, c.args[1])
            txt = show(act, 6)
            if 'SigDfl' in txt and s.k == 'adt' and s.a[1] in NEED:
                self.bad('resets', 'the handler of %s resets the disposition of %s' % (self.sig, s.a[1]), c)
            return [(st, OK(mk('oldact', c.args[0])))]
        for n in base.SIGACT:
            e.hooks[n] = sigact
        e.on_panic = lambda *a: None
        proc.flag_loads(F, e)
        st = ai.St()
        st = statics_init(F, e, st)
        outs = base.run(e, self.key, [I(NUM[self.sig])], st)
        for s, v in outs:
            last = get(s, 'last')
            if self.sig != 'SIGCHLD':
                self.ends['ok'] += 1
            elif last in ('StillAlive', 'err'):
                self.ends['ok'] += 1
            elif last is None:
                # nothing collected: a value this analysis does not know decided it, or it is unconditional
                if s.facts:
                    self.ends['unknown'] = self.ends.get('unknown', 0) + 1
                else:
                    f = F.fns[self.key]
                    self.bads.setdefault('collects-none@%s' % self.key, (
                        'the handler of SIGCHLD can return without collecting anything', '%s:%s' % tuple(f['span'][:2]), [self.key]))
            else:
                f = F.fns[self.key]
                self.bads.setdefault('collects-some@%s' % self.key, (
                    'the handler of SIGCHLD can return after collecting a child (%s) although more may have ended' % last.lower(), '%s:%s' % tuple(f['span'][:2]), [self.key]))
        return outs



class Dirty(proc.Proc):
    """what a function leaves behind in the shell process"""

    def __init__(self, F):
        proc.Proc.__init__(self, F, {'P04'})
        self.failing = True
        self.lines = {}

def exits(F, k, statics, known):
    """dispositions with which k returns in the shell process, entered with all handled: [dict]; known: those of callees"""
    P = Dirty(F)
    P.failing = False
    P.parent_only = True
    b = proc.boundary_of(F) - {k}
    eff = base.SIGACT | base.FORK
    e = proc.make_engine(F, P, parent_eff=eff, pre_eff=eff, child_eff=base.SIGACT)
    e.disj, e.mem_disj, e.widen_at = 2, 8, 1 if proc.limited_reach(F, k, b)[0] & base.FORK else 33
    e.on_panic = lambda *a: None
    proc.flag_loads(F, e)

    handled = tuple(sorted((s, 'Handler') for s in NEED))

    def pre(e, st, c):
        ds = known.get(c.inst)
        if ds is None:
            return None
        out = []
        for s, v in e.opaque_call(st, c, c.inst):
            for d in ds:
                s2 = s.fork()
                if d != handled or not get(s2, 'disp'):
                    put(s2, 'disp', d)
                out.append((s2, v))
        return out
    e.pre.insert(0, pre)
    st = ai.St()
    for q, v in statics.items():
        e.store(st, q, (), v)
    put(st, 'disp', handled)
    outs = base.run(e, k, None, st)
    return [dict(get(s, 'disp', ())) for s, v in outs if not get(s, 'child')]


def check_kept(F, R, statics):
    live = F.reach('main')[1]
    callers = {}
    for k in live:
        if k in F.fns:
            for n, i in F.callees.get(k, ()):
                if i:
                    callers.setdefault(i, set()).add(k)
    known = {}
    tops = set(proc.pipeline_entry(F)) | set(proc.eval_entry(F)) | {'main'}
    bound = proc.boundary_of(F)
    for x in sorted(k for k in live if k in F.local and any(n in base.SIGACT for n, i in F.callees.get(k, ()))):
        todo, done = [x], set()
        state = 'ok'
        while todo:
            k = todo.pop()
            if k in done or len(done) > 12:
                continue
            done.add(k)
            R.functions.add(k)
            try:
                outs = exits(F, k, statics, {q: v for q, v in known.items() if q != k})
                known[k] = {tuple(sorted((s, d.get(s)) for s in NEED)) for d in outs}
            except ai.Budget:
                state = 'undecided' if state == 'ok' else state
                continue
            worst = set()
            for d in outs:
                for s in NEED:
                    worst.add((s, d.get(s)))
            dirty = sorted(s for s, v in worst if v == 'SigDfl')
            unk = sorted(s for s, v in worst if v == '?')
            if not dirty and not unk:
                continue
            ups = {c for c in callers.get(k, ()) if c in F.local}
            if k in tops or k in bound or not ups:
                if k == 'main':
                    continue
                if dirty:
                    f = F.fns[k]
                    R.violation('kept@%s' % x, 'the shell goes on with the default disposition of %s after %s' % (', '.join(dirty), x), '%s:%s' % tuple(f['span'][:2]), sorted(done))
                    state = 'violated'
                elif state == 'ok':
                    state = 'undecided'
                continue
            todo += sorted(ups)
        R.ob('what %s sets is undone or set in a child' % x, state)


def check(F, R):
    hs, statics = check_install(F, R)
    for s, fns in sorted(hs.items()):
        for fn in fns:
            key = fn.a[0] if fn.k == 'fn' else None
            n = 'the handler of %s' % s
            if key is None or key not in F.fns:
                R.ob(n, 'undecided')
                continue
            h = Handler(F, R, key, s)
            try:
                h.run()
            except ai.Budget:
                R.ob(n, 'undecided')
                continue
            R.functions.add(key)
            for k, (msg, where, path) in sorted(h.bads.items()):
                R.violation('%s-%s' % (s, k), msg, where, path)
            R.ob(n, 'violated' if h.bads else 'undecided' if h.ends.get('unknown') or not h.ends['ok'] else 'ok')
            R.sample('%s for %s: %d paths' % (key, s, h.ends['ok']))
    check_kept(F, R, statics)
