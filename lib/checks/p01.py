"""P01: a forked child ends; it never returns into the shell's own reading and evaluating."""
import time
import ai
import base
import proc
from facts import norm
from proc import get, put

RULE = ('Every function that can fork is interpreted over all its paths with the fork splitting parent and child; in the '
        'child no path may return from the function, reach another fork of the same function, or call the evaluation of a '
        'next command in the shell; it must end in exec, exit or a diverging call.')


class Child(proc.Proc):
    def __init__(self, F, R):
        proc.Proc.__init__(self, F, {'P01'})
        self.R = R

    def on_fork(self, e, st, c):
        if get(st, 'child'):
            self.report('P01', 'fork-in-child@%s' % c.fn, 'a forked child gets back to the place that forks the next process', e, c.span[:2])
            return 'stop'

    def on_exit(self, e, st, c):
        if get(st, 'child'):
            self.tick('ends of a child: exit')

    def on_exec(self, e, st, c, kind):
        if get(st, 'child'):
            self.tick('ends of a child: exec')


def roots(F):
    r = proc.pipeline_entry(F) + proc.subst_roots(F)
    live = F.reach('main')[0:2][1]
    have = set()
    bnd = proc.boundary_of(F)
    for k in r:
        have |= proc.limited_reach(F, k, bnd - {k})[1]
    for k in sorted(live):
        if k in F.local and proc.base_fork(F, k) and k not in have:
            r.append(k)
            have.add(k)
    return r


def check(F, R):
    live = F.reach('main')[1]
    sites = {(k, b) for k in live if k in F.local for b in proc.fork_sites(F, k)}
    seen = set()
    for root in roots(F):
        P = Child(F, R)
        P.failing = True
        eff = base.FORK
        e = proc.make_engine(F, P, parent_eff=eff, pre_eff=eff, child_eff=base.EXEC | base.EXIT | base.FORK)
        e.disj, e.mem_disj, e.widen_at = 2, 8, 1
        ended = set()

        def diverge(e, st, c):
            if get(st, 'child'):
                P.tick('ends of a child: diverging call')
        e.on_diverge = diverge
        e.on_panic = lambda *a: None
        try:
            outs = base.run(e, root)
        except ai.Budget as x:
            R.ob('every child forked in %s ends' % root, 'undecided')
            R.note('%s: %s' % (root, x))
            outs = []
        R.functions |= set(e.stats.get('inlined', ())) | {root}
        for s, v in outs:
            if get(s, 'child'):
                P.report('P01', 'child-returns@%s' % root, 'a forked child can return from %s into the code that evaluates the next command' % root, e, F.fns[root]['span'][:2])
        for (p, key), (msg, where, path) in sorted(P.viol.items()):
            R.violation(key, msg, where, path)
        seen |= P.forks_seen
        n = sum(v for k, v in P.count.items() if k.startswith('ends'))
        for k, v in P.count.items():
            if k.startswith('ends'):
                R.count(k, v)
        R.ob('every child forked in %s ends' % root, 'violated' if P.viol else 'ok' if n else 'undecided')
        R.sample('%s: %d forking call(s), child ends %s' % (root, len(P.forks_seen), dict((k, v) for k, v in P.count.items() if k.startswith('ends'))))
    for (k, line) in sorted(sites):
        R.ob('fork site in %s followed' % k, 'ok' if any(f == k for f, _ in seen) else 'undecided')
