"""P02: SIGCHLD is held back from before a fork until the child is in the process table, and while the shell waits for
a job; after a pipeline nothing stays blocked."""
import ai
import base
import effects
import mask
import proc
from proc import get, put, mask_blocks
from terms import *

RULE = ('The evaluation of a pipeline is interpreted with the signal mask as typestate (set, block, unblock of known sets). '
        'Every fork, every registration-pending point and every blocking wait must have SIGCHLD in the mask; every return '
        'must have an empty mask.')
SIG = 'SIGCHLD'


class Mask(proc.Proc):
    def __init__(self, F):
        proc.Proc.__init__(self, F, {'P02'})
        self.parent_only = True
        self.seen = {}

    def held(self, e, st, c, what, key):
        m = get(st, 'mask')
        self.seen.setdefault(what, set())
        if m is None:
            self.seen[what].add('undecided')
        elif not mask_blocks(m, SIG):
            self.seen[what].add('violated')
            self.report('P02', '%s@%s' % (key, c.fn), '%s while SIGCHLD is not blocked' % what, e, c.span[:2])
        else:
            self.seen[what].add('ok')

    def held_mask(self, e, m, fn, c):
        w = self.seen.setdefault('the shell waits for a child', set())
        if m is None:
            w.add('undecided')
        elif not mask_blocks(m, SIG):
            w.add('violated')
            self.report('P02', 'wait@%s' % fn, 'the shell waits for a child in %s while SIGCHLD is not blocked' % fn, e, c.span[:2])
        else:
            w.add('ok')

    def on_fork(self, e, st, c):
        if get(st, 'unreg'):
            self.seen.setdefault('registered', set()).add('violated')
            self.report('P02', 'unregistered@%s' % c.fn, 'the next child is forked before the previous one is entered in the process table', e, c.span[:2])
        self.held(e, st, c, 'a child is forked', 'fork')

    def on_mask(self, e, st, c):
        if get(st, 'unreg'):
            self.held(e, st, c, 'a forked child is not in the process table yet', 'unblocked-before-registration')

    def on_body(self, e, st, c):
        put(st, 'mask', None)

    def after_body(self, e, st, c):
        put(st, 'mask', (False, frozenset()))


def check(F, R):
    for root in proc.pipeline_entry(F):
        P = Mask(F)
        flow = mask.Flow(F)
        eff = base.FORK
        e = proc.make_engine(F, P, parent_eff=eff, pre_eff=eff, child_eff=frozenset())
        e.disj, e.mem_disj, e.widen_at = 2, 8, 1

        def pre(e, st, c):
            u = get(st, 'unreg')
            if u is not None and (c.inst and c.inst in F.local and 'pid-insert' in effects.reach(F, c.inst) or effects.of_call(c.name, c.res, c.targs or []) == 'pid-insert'):
                if any(e.res(st, e.val(st, a)) is u for a in c.args):
                    put(st, 'unreg', None)
                    P.ob('registration', (c.fn, c.span[0]))
            if c.inst and c.inst in F.local and c.inst not in P.boundary and flow.relevant(c.inst) and not proc.limited_reach(F, c.inst, P.boundary)[0] & base.FORK:
                ev = {}
                r = flow.apply(e, st, c, ev)
                for (kind, fn, ln), m in ev.items():
                    if kind == 'wait':
                        P.held_mask(e, m, fn, c)
                for s, _ in r:
                    P.on_mask(e, s, c)
                return r
            return None
        e.pre.insert(0, pre)
        e.on_panic = lambda *a: None
        st = ai.St()
        put(st, 'mask', (False, frozenset()))
        try:
            outs = base.run(e, root, None, st)
        except ai.Budget as x:
            R.note('%s: %s' % (root, x))
            R.ob('%s: all paths followed' % root, 'undecided')
            outs = []
        R.functions |= set(e.stats.get('inlined', ())) | {root}
        n = 0
        for s, v in outs:
            m = get(s, 'mask')
            n += 1
            w = P.seen.setdefault('return', set())
            if m is None:
                w.add('undecided')
            elif m != (False, frozenset()):
                w.add('violated')
                P.report('P02', 'left-blocked@%s' % root, 'the evaluation of a pipeline can end with signals still blocked (%s)' % (
                    'a set' if not m[0] else 'all but ' + ' '.join(sorted(m[1]))), e, F.fns[root]['span'][:2])
            else:
                w.add('ok')
        for (p, key), (msg, where, path) in sorted(P.viol.items()):
            R.violation(key, msg, where, path)
        for what in ('a child is forked', 'the shell waits for a child', 'return'):
            w = P.seen.get(what, set())
            R.ob('%s: %s' % (root, what), 'violated' if 'violated' in w else 'undecided' if 'undecided' in w or not w else 'ok')
        w = P.seen.get('registered', set()) | P.seen.get('a forked child is not in the process table yet', set())
        R.ob('%s: every child is entered in the process table' % root, 'violated' if 'violated' in w else 'ok' if P.sites.get('registration') and 'undecided' not in w else 'undecided')
        R.count('returns checked', n)
        R.count('fork sites', len(P.forks_seen))
