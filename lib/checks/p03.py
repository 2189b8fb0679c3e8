"""P03: programs start with default dispositions and an empty mask."""
import ai
import base
import mask
import proc
from proc import get, put
from terms import *

RULE = ('At every exec call, on every path from the function that calls it (or, where that is not enough, from its callers up '
        'to the fork or the builtin), the dispositions of INT, QUIT, TERM, TSTP, TTIN, TTOU and CHLD have been set to the '
        'default and not set to anything else since, and the signal mask is known to be empty.')
SIGS = ('SIGINT', 'SIGQUIT', 'SIGTERM', 'SIGTSTP', 'SIGTTIN', 'SIGTTOU', 'SIGCHLD')


class Start(proc.Proc):
    def __init__(self, F):
        proc.Proc.__init__(self, F, {'P03'})
        self.res = {}       # (exec fn) -> {state: (message, where, path)}

    def on_exec(self, e, st, c, kind):
        r = self.res.setdefault((c.fn, c.name.rsplit('::', 1)[-1]), {})
        d = dict(get(st, 'disp', ()))
        bad = [s for s in SIGS if d.get(s) not in ('SigDfl', '?')]
        unk = [s for s in SIGS if d.get(s) == '?']
        m = get(st, 'mask')
        where = '%s:%s' % tuple(c.span[:2])
        path = [x[0] for x in e.stack]
        if bad and not get(st, 'dispunk'):
            r.setdefault('violated', ('a program is started while %s %s not reset to the default' % (', '.join(bad), 'is' if len(bad) == 1 else 'are'), 'disposition', where, path))
        elif m is not None and m != (False, frozenset()):
            r.setdefault('violated', ('a program is started with signals blocked', 'mask', where, path))
        elif bad or unk or m is None:
            r.setdefault('undecided', ('', '', where, path))
        else:
            r.setdefault('ok', ('', '', where, path))


def exec_fns(F):
    live = F.reach('main')[1]
    return sorted(k for k in live if k in F.local and any(n in base.EXEC for n, i in F.callees.get(k, ())))


def run(F, root, entry):
    """interpret root; entry: mask and dispositions on entry"""
    P = Start(F)
    P.failing = False
    b = proc.boundary_of(F) - {root}
    eff = base.EXEC | base.MASK | base.SIGACT | base.FORK
    e = proc.make_engine(F, P, parent_eff=eff, pre_eff=eff, child_eff=eff)
    forks = bool(proc.limited_reach(F, root, b)[0] & base.FORK)
    e.disj, e.mem_disj, e.widen_at = 2, 8, 1 if forks else 33
    e.on_panic = lambda *a: None
    flow = mask.Flow(F)

    def pre(e, st, c):
        if c.inst and c.inst in F.local and c.inst not in b and flow.relevant(c.inst) and not proc.limited_reach(F, c.inst, b)[0] & (base.EXEC | base.FORK | base.SIGACT):
            return flow.apply(e, st, c, {})
        return None
    e.pre.insert(0, pre)
    st = ai.St()
    if entry is not None:
        put(st, 'mask', entry)
    else:
        put(st, 'mask', None)
    try:
        base.run(e, root, None, st)
    except ai.Budget as x:
        P.budget = str(x)
        for k in P.res:
            P.res[k].setdefault('undecided', ('', '', None, ()))
    return P, e


def check(F, R):
    callers = {}
    live = F.reach('main')[1]
    for k in live:
        if k in F.fns:
            for n, i in F.callees.get(k, ()):
                if i:
                    callers.setdefault(i, set()).add(k)
    tops = set(proc.pipeline_entry(F))
    for x in exec_fns(F):
        todo, done = [x], set()
        state = 'ok'
        n = 0
        while todo:
            k = todo.pop()
            if k in done:
                continue
            done.add(k)
            P, e = run(F, k, None)
            n += 1
            R.functions.add(k)
            mine = {kk: v for kk, v in P.res.items() if kk[0] == x}
            if not mine and not hasattr(P, 'budget'):
                continue
            if mine and all(set(v) == {'ok'} for v in mine.values()):
                R.sample('%s: dispositions and mask reset on every path to exec, seen from %s' % (x, k))
                continue
            if k == x and mine and all('violated' not in v for v in mine.values()):
                # the masks it is called with settle it where they are all known
                ms = mask.Flow(F).entries(x)
                if None not in ms:
                    mine, bud = {}, False
                    for m in sorted(ms, key=repr):
                        P, e = run(F, k, m)
                        bud = bud or hasattr(P, 'budget')
                        for kk, v in P.res.items():
                            if kk[0] == x:
                                for y, z in v.items():
                                    mine.setdefault(kk, {}).setdefault(y, z)
                    if mine and not bud and all(set(v) <= {'ok', 'violated'} for v in mine.values()):
                        for (fn, ex), v in mine.items():
                            if 'violated' in v:
                                msg, kind, where, path = v['violated']
                                R.violation('%s@%s' % (kind, fn), '%s (%s)' % (msg, ex), where, path)
                                state = 'violated'
                        R.sample('%s: judged with the %d masks it is called with' % (x, len(ms)))
                        continue
                    mine = {kk: v for kk, v in P.res.items() if kk[0] == x}
            ups = {c for c in callers.get(k, ()) if c in F.local} - proc.boundary_of(F)
            forks = bool(proc.limited_reach(F, k, proc.boundary_of(F) - {k})[0] & base.FORK)
            if ups and not forks and n < 12:
                todo += sorted(ups)
                continue
            if not mine and state == 'ok':
                state = 'undecided'
            for (fn, ex), v in mine.items():
                if 'violated' in v:
                    msg, kind, where, path = v['violated']
                    R.violation('%s@%s' % (kind, fn), '%s (%s, called from %s)' % (msg, ex, k), where, path)
                    state = 'violated'
                elif 'undecided' in v and state == 'ok':
                    state = 'undecided'
        R.ob('exec in %s' % x, state)
    R.count('functions with an exec call', len(exec_fns(F)))
