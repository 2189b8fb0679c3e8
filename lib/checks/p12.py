"""P12: every scope opened for a function or a file is closed again."""
import ai
import base
import proc
from proc import get, put
from terms import *

RULE = ('The functions that push to or pop from the stack of scopes change its depth by exactly one on every normal return (for a stack of more than one scope); '
        'every other function, up to the evaluators, the dispatch of commands and main, returns normally only with the depth it was entered with, and a function '
        'call and a loaded context file do open one in between.')
OPS = {'push': 1, 'pop': -1}


def is_ctx(c):
    ts = [t for t in c.targs or () if not t.startswith('std::alloc::')]
    return bool(ts) and ts[-1].endswith('context::Context>>') and ts[-1].startswith('std::rc::Rc<')


def op_of(fn, targs):
    """change of depth by a library call on the stack of scopes, None if it is none, 'other' if unknown"""
    if not (fn.startswith('std::vec::Vec::<T, A>::') or fn.startswith('std::vec::Vec::<T>::') or fn.startswith('std::collections::VecDeque')):
        return None
    ts = [t for t in targs or () if not t.startswith('std::alloc::')]
    if not ts or not (ts[-1].startswith('std::rc::Rc<') and ts[-1].endswith('context::Context>>')):
        return None
    n = fn.rsplit('::', 1)[-1]
    if n in ('push', 'push_back'):
        return 1
    if n in ('pop', 'pop_back'):
        return -1
    if n in ('truncate', 'clear', 'remove', 'insert', 'append', 'extend', 'drain', 'swap_remove', 'split_off', 'retain', 'extend_from_slice'):
        return 'other'
    return None


def direct(F, k):
    out = []
    for b in F.fns[k]['blocks']:
        t = b['t']
        if b.get('cu') or t['k'] != 'call':
            continue
        c = t['f'].get('k')
        if isinstance(c, dict) and 'fn' in c:
            o = op_of(base.norm(c['fn']) if hasattr(base, 'norm') else c['fn'], c.get('targs'))
            if o is not None:
                out.append(o)
    return out


def deltas(F, k, known, bound):
    """changes of depth with which k returns"""
    e = ai.Engine(F)
    e.disj, e.mem_disj, e.widen_at, e.max_states = 4, 16, 1, 6000
    wrapper = bool(direct(F, k))
    odd = []

    def pol(e, st, c, key):
        if not F.fns[key]['local']:
            return 'inline'
        ks = F.reach(key)[1]
        if sum(len(F.fns[x]['blocks']) for x in ks if x in F.fns and F.fns[x]['local']) <= 16 and not ks & set(known):
            return 'inline'
        return 'opaque'
    e.policy = pol
    stopped = base.EXIT | base.EXEC

    def pre(e, st, c):
        if c.inst in bound and c.inst != k:
            return None
        o = None if c.local else op_of(c.name, c.targs)
        if o is None and c.res and not c.local:
            o = op_of(c.res, c.targs)
        if o == 'other':
            odd.append(c.span)
        elif o is not None:
            put(st, 'd', get(st, 'd', 0) + o)
            put(st, 'opened', True)
        ds = known.get(c.inst)
        if ds is not None and c.inst != k and ds != {0}:
            out = []
            for s, v in e.opaque_call(st, c, c.inst):
                for d in ds:
                    s2 = s.fork()
                    n = get(s2, 'd', 0) + d
                    if abs(n) > 3:
                        odd.append(c.span)
                        n = 3
                    put(s2, 'd', n)
                    out.append((s2, v))
            return out
        return None
    e.pre.append(pre)
    for n in stopped & base.EXIT:
        e.hooks[n] = lambda e, st, c: []
    e.on_panic = lambda *a: None
    f = F.fns[k]
    st = ai.St()
    args = base.inputs(f)
    if wrapper:
        # the stack holds the outermost scope and the one in question
        for a, t in zip(args, proc.arg_types(f)):
            if t.startswith('&') and ai.base_ty(t) in F.adts:
                for i, fty in enumerate(F.adts[ai.base_ty(t)]['variants'][0]['ftys']):
                    if 'context::Context>>' in fty and 'Vec<' in fty:
                        loc, path = e.deref(a)
                        v = e.load(st, loc, path + (('', i),))
                        e.assume(st, e.boolean(st, 'lt', I(1), e.vlen(v)), True)
    outs = base.run(e, k, args, st)
    return {get(s, 'd', 0) for s, v in outs}, odd, e


def check(F, R):
    live = F.reach('main')[1]
    callers = {}
    for k in live:
        if k in F.fns:
            for n, i in F.callees.get(k, ()):
                if i:
                    callers.setdefault(i, set()).add(k)
    bound = proc.boundary_of(F) | {'main'}
    local = lambda k: k in F.local or (k in F.fns and F.fns[k].get('closure'))
    wr = sorted(k for k in live if k in F.fns and local(k) and direct(F, k))
    known = {}
    # scopes closed when a guard is dropped are not followed
    drops = [k for k in F.local if k.endswith('::drop') and ' as std::ops::Drop>' in k and F.reach(k)[1] & set(wr)]
    if drops:
        R.note('scopes are closed by %s' % drops[0])
        R.ob('scopes are opened and closed', 'undecided')
        return
    if not wr:
        R.ob('the stack of scopes is found', 'undecided')
    kinds = set()
    closed = []
    rel = set(wr)
    todo = list(wr)
    while todo:
        for c in callers.get(todo.pop(), ()):
            if local(c) and c not in rel:
                rel.add(c)
                if c not in bound:
                    todo.append(c)
    state = {}

    def visit(k):
        if k in state:
            return
        state[k] = 'busy'
        for n, i in sorted(F.callees.get(k, ()), key=str):
            if i in rel and i not in bound:
                visit(i)
        summarise(k)

    def summarise(k):
        R.functions.add(k)
        name = '%s: depth of the scopes' % k
        w = '%s:%s' % tuple(F.fns[k]['span'][:2])
        try:
            ds, odd, e = deltas(F, k, known, bound)
        except ai.Budget:
            R.ob(name, 'undecided')
            return
        if odd:
            R.ob(name, 'undecided')
            return
        prim = k in wr and set(direct(F, k)) in ({1}, {-1}) and not F.reach(k)[1] & bound
        if prim:
            want = set(direct(F, k))
            kinds.update(want)
            if ds != want and ds:
                R.violation('wrapper@%s' % k, '%s can return having changed the depth of the scopes by %s instead of %+d' % (k, sorted(ds), list(want)[0]), w)
                R.ob(name, 'violated')
                ds = want
            else:
                R.ob(name, 'ok')
        known[k] = ds or {0}
        if k == 'main' or prim:
            return
        if ds <= {0}:
            closed.append(k)
            R.ob(name, 'ok')
            R.sample('%s: returns with the depth it was entered with' % k)
            return
        ups = {c for c in callers.get(k, ()) if local(c)}
        if len(ds) > 1 or k in bound or not ups:
            R.violation('unbalanced@%s' % k, '%s can return with %s' % (k, ' or '.join('%d scope%s %s' % (abs(d), '' if abs(d) == 1 else 's', 'left open' if d > 0 else 'too many closed') for d in sorted(ds - {0}))), w)
            R.ob(name, 'violated')
            known[k] = {0}
    for k in sorted(rel):
        visit(k)
    users = [k for k in closed if any(known.get(i, {0}) != {0} for _, i in F.callees.get(k, ()) if i)]
    R.ob('scopes are opened and closed', 'ok' if kinds == {1, -1} and len(users) >= 2 else 'undecided')
    R.count('functions that open and close scopes', len(users))
