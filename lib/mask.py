"""Signal-mask summaries: for a function and a mask at entry, the masks it can return with, and the waits and masks it
performs on the way. Flow-sensitive over each function's control-flow graph; the masks that a function sets itself are
computed by abstract interpretation of that function alone."""
import ai
import base
import proc
from facts import norm
from proc import get, put
from terms import *

CLEAR = (False, frozenset())


def call_of(b):
    t = b['t']
    if t['k'] == 'call':
        c = t['f'].get('k')
        if isinstance(c, dict) and 'fn' in c:
            return c
    return None


class Flow:
    def __init__(self, F):
        self.F = F
        self.subst = set(proc.subst_roots(F))      # fork a child that evaluates; leave the mask of the shell alone
        self.boundary = proc.andor_fns(F) | set(proc.eval_entry(F)) | set(proc.pipeline_fns(F))
        self.memo = {}
        self.busy = set()

    def relevant(self, k):
        n = self.F.reach(k)[0]
        return bool(n & (base.MASK | base.WAIT))

    def direct(self, k):
        return any(n in base.MASK or n in base.WAIT for n, i in self.F.callees.get(k, ()))

    def summary(self, k, m):
        """(masks at return, {(what, fn, line): mask}) ; a mask of None is an unknown one"""
        key = (k, m)
        r = self.memo.get(key)
        if r is not None:
            return r
        if key in self.busy:
            return ({None}, {})
        if not self.relevant(k):
            r = ({m}, {})
        elif k in self.boundary:
            r = ({CLEAR}, {})
        elif k in self.subst:
            r = ({m}, {})
        else:
            self.busy.add(key)
            r = self.leaf(k, m) if self.direct(k) else self.flow(k, m)
            self.busy.discard(key)
        self.memo[key] = r
        return r

    # ------------------------------------------------------------ a function that sets the mask itself
    def leaf(self, k, m):
        F = self.F
        events = {}
        flow = self

        class P(proc.Proc):
            def on_wait(self, e, st, c):
                f = e.val(st, c.args[1]) if len(c.args) > 1 else None
                events[('nohang' if f is not None and nohang(f) else 'wait', c.fn, c.span[0])] = get(st, 'mask')
        p = P(F, set())
        p.parent_only = True
        e = ai.Engine(F)
        e.disj, e.mem_disj, e.widen_at = 2, 8, 1 if any(n in base.WAIT for n, i in F.callees.get(k, ())) else 33
        e.policy = lambda e, st, c, key: 'opaque' if F.fns[key]['local'] and not F.fns[key].get('closure') else 'inline'
        p.install(e, set())

        def pre(e, st, c):
            if c.inst and c.inst in F.local and flow.relevant(c.inst):
                return flow.apply(e, st, c, events)
            return None
        e.pre.insert(0, pre)
        e.on_panic = lambda *a: None
        st = ai.St()
        put(st, 'mask', m)
        e.max_states = 1500
        try:
            outs = base.run(e, k, None, st)
        except ai.Budget:
            return ({None}, events)
        return ({get(s, 'mask') for s, _ in outs}, events)

    def apply(self, e, st, c, events):
        """replace a call in the engine by the summary of its callee"""
        outs, ev = self.summary(c.inst, get(st, 'mask'))
        for x, mk_ in ev.items():
            events[x] = mk_ if x not in events else events[x] if events[x] == mk_ else worst(events[x], mk_)
        r = []
        for i, m in enumerate(sorted(outs, key=repr)):
            s = st.fork()
            for s2, v in e.opaque_call(s, c, c.inst):
                put(s2, 'mask', m)
                r.append((s2, v))
        return r

    # ------------------------------------------------------------ a function that only calls others
    def flow(self, k, m):
        f = self.F.fns[k]
        blocks = f['blocks']
        inm = {0: {m}}
        todo = [0]
        out = set()
        events = {}
        while todo:
            b = todo.pop()
            ms = set(inm[b])
            t = blocks[b]['t']
            c = call_of(blocks[b])
            if c is not None:
                n = norm(c['fn'])
                inst = c.get('inst') or c.get('xinst')
                if self.watch and self.watch == inst and not self.busy:
                    self.seen |= ms
                if norm(c.get('res') or '') in base.WAIT or n in base.WAIT:
                    for x in ms:
                        self.note(events, ('wait', k, line(blocks[b])), x)
                else:
                    targets = {i for nm, i in self.F.callees.get(k, ()) if i and (i == inst or nm in (n, norm(c.get('res') or '')))} if inst is None else {inst}
                    for i in targets:
                        if i in self.F.fns and self.relevant(i):
                            nm = set()
                            for x in ms:
                                o, ev = self.summary(i, x)
                                nm |= o
                                for y, z in ev.items():
                                    self.note(events, y, z)
                            ms = nm
            if t['k'] == 'ret':
                out |= ms
            for s in ai.Engine.succs(t):
                if blocks[s].get('cu'):
                    continue
                old = inm.get(s)
                if old is None or not ms <= old:
                    inm[s] = (old or set()) | ms
                    todo.append(s)
        return (out, events)

    # ------------------------------------------------------------ masks a function is called with
    def entries(self, x, busy=frozenset()):
        """the masks x can be called with (None: one that is not known)"""
        r = set()
        live = self.F.reach('main')[1]
        callers = [k for k in sorted(live) if k in self.F.fns and any(i == x for n, i in self.F.callees.get(k, ()))]
        if not callers:
            return {None}
        for k in callers:
            ms = self.at_calls(k, None, x)
            if None in ms:
                if k in busy or k in self.boundary or len(busy) > 8 or self.direct(k):
                    return {None}
                for m in self.entries(k, busy | {x, k}):
                    if m is None:
                        return {None}
                    ms |= self.at_calls(k, m, x)
                ms.discard(None)
            r |= ms
        return r or {None}

    def at_calls(self, k, m, x):
        if self.direct(k):
            return {None}
        self.watch, self.seen = x, set()
        self.flow(k, m)
        self.watch = None
        return self.seen

    watch = None

    def note(self, events, y, z):
        events[y] = z if y not in events else worst(events[y], z)


def line(b):
    sp = b.get('sp')
    return sp[1] if isinstance(sp, list) and len(sp) > 1 and isinstance(sp[1], int) else sp[0] if isinstance(sp, list) else sp


def worst(a, b):
    """the mask that blocks less"""
    if a == b:
        return a
    if a is None or b is None:
        x = b if a is None else a
        return x if not proc.mask_blocks(x, 'SIGCHLD') else None
    return a if not proc.mask_blocks(a, 'SIGCHLD') else b


def nohang(f):
    todo = [f]
    while todo:
        x = todo.pop()
        if isinstance(x, T):
            if any('WNOHANG' in str(y) for y in x.a if not isinstance(y, T)):
                return True
            if x.k == 'int' and isinstance(x.a[0], int) and x.a[0] & 1:
                return True
            todo += list(y for y in x.a if isinstance(y, T))
    return False
