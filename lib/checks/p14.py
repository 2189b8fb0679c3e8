"""P14: names resolve to the innermost scope."""
import re
import ai
import base
import effects
import proc
from facts import norm
from checks import p13
from checks.p13 import mapop
from terms import *

RULE = ('Each function that looks up, assigns, defines or removes a variable or function by name is interpreted (MIR) on a stack of three scopes and a table of exported scopes whose contents are unknown, for a name that is unknown. '
        'On every path, given what the path has found out about which scopes hold the name: the scope read or changed is the innermost that holds it, with every scope further in known not to; a new entry goes into the current scope; '
        'no other scope changes; nothing is the answer only if no scope holds it; a name of the form scope::name is read from and removed in that exported scope alone.')
MGR, CTX, SHELL = 'context::ContextManager', 'context::Context', 'shell::Shell'
DEPTH = 3


def strip(t):
    return re.sub(r"^&('\w+ )?(mut )?", '', t)


def textual(t):
    return strip(t) in ('str', 'std::string::String')


def lazies(F):
    return {k for k in F.fns if k.startswith('<') and k.split(' as ')[0][1:] in F.statics}


class Model:
    def __init__(self, F):
        self.F = F
        self.ok = all(t in F.adts for t in (MGR, CTX, SHELL))
        if not self.ok:
            return
        c = F.adts[CTX]['variants'][0]['ftys']
        one = lambda l: l[0] if len(l) == 1 else None
        self.vars = one([i for i, t in enumerate(c) if 'context::Var' in t])
        self.funs = one([i for i, t in enumerate(c) if 'FunctionBody' in t])
        m = F.adts[MGR]['variants'][0]['ftys']
        self.stack = one([i for i, t in enumerate(m) if t.startswith('std::vec::Vec<') and CTX in t])
        self.exported = one([i for i, t in enumerate(m) if 'Map<' in t and CTX in t])
        s = F.adts[SHELL]['variants'][0]['ftys']
        self.mgr = one([i for i, t in enumerate(s) if t == MGR])
        v = F.adts['context::Var']['variants'][0]['fields']
        self.ro = v.index('readonly') if 'readonly' in v else None
        self.ok = None not in (self.vars, self.funs, self.stack, self.exported, self.mgr, self.ro)
        n = max(DEPTH, 1)
        self.scopes = [mk('in', 'scope%d' % i, CTX) for i in range(n)]
        self.exp = mk('in', 'exported', 'map')
        self.N, self.P, self.Q, self.V = [mk('in', x, 'str') for x in ('name', 'space', 'inner', 'value')]
        self.SET = mk('in', 'set', 'str')

    def manager(self):
        v = self.F.adts[MGR]['variants'][0]
        return mk('adt', MGR, '', *[mk('vec', *self.scopes) if i == self.stack else self.exp if i == self.exported else mk('in', 'm%d' % i, t) for i, t in enumerate(v['ftys'])])

    def shell(self):
        v = self.F.adts[SHELL]['variants'][0]
        return mk('adt', SHELL, '', *[self.manager() if i == self.mgr else mk('in', 's%d' % i, t) for i, t in enumerate(v['ftys'])])


def mapops(F, k):
    """{(kind, operation)} of the maps of variables and functions used below k"""
    cache = F.__dict__.setdefault('_mapops', {})
    kinds = tuple({t.split('<')[0] for t in F.adts[CTX]['variants'][0]['ftys'] if t.startswith('std::collections::')})

    def own(x):
        r = cache.get(x)
        if r is None:
            r = set()
            for b in F.fns[x]['blocks']:
                t = b['t']
                if t['k'] == 'call' and isinstance(t['f'].get('k'), dict) and 'fn' in t['f']['k']:
                    c = t['f']['k']
                    if any(n.startswith('std::collections::') and not n.startswith(kinds) for n in (norm(c['fn']), norm(c.get('res') or c['fn']))):
                        continue
                    m = mapop(norm(c['fn']), c.get('targs')) or mapop(norm(c.get('res') or c['fn']), c.get('targs'))
                    if m:
                        r.add(m)
            cache[x] = r
        return r
    out = set()
    for x in proc.limited_reach(F, k, lazies(F))[1] | {k}:
        if x in F.fns:
            out |= own(x)
    return out


def marks(F, keys):
    """one of the functions sets the readonly mark of a variable that is kept"""
    d = F.__dict__.get('_marks')
    if d is None:
        d = F._marks = {k for k, l in p13.sites(F).items() if any(x[0] == 'write' and x[1] == 'readonly' for x in l)}
    return bool(keys & d)


def kind(F, k):
    """what a function on a name does: ('var'|'func', 'look'|'test'|'put'|'drop'), or None"""
    f = F.fns[k]
    if f.get('closure') or f['nargs'] < 1:
        return None
    ts = proc.arg_types(f)
    selfs = [t for t in ts if strip(t) in (MGR, SHELL)]
    rest = [t for t in ts if strip(t) not in (MGR, SHELL)]
    texts = [t for t in rest if textual(t)]
    if len(texts) != 1 or len(selfs) > 1:
        return None
    others = [t for t in rest if not textual(t)]
    ops = mapops(F, k)
    names, keys = proc.limited_reach(F, k, lazies(F))
    if any(n in base.FORK or n in base.EXEC or n.startswith(('std::fs::', 'std::env::', 'std::process::')) for n in names):
        return None
    ret = f['locals'][0]['ty']
    ks = {x for x, _ in ops}
    for w in ('var', 'func'):
        mine = {o for x, o in ops if x == w}
        if not mine:
            continue
        if w == 'var' and not others and ret == '()' and marks(F, {k} | keys):
            return w, 'mark'
        if mine & {'insert', 'entry'} and (w == 'func') == any('FunctionBody' in t for t in others) and len(others) <= (w == 'func') and ret == '()':
            return w, 'put'
        if others:
            continue
        gone = {x for x, o in ops if o.startswith('remove')}
        if gone and 'insert' not in {o for _, o in ops} and ret == '()' and ('func' not in ks or w == 'func' or 'get' not in {o for x, o in ops if x == 'func'}):
            return w, 'drop'
        if mine <= {'get', 'contains_key', 'get_key_value'} and len(ks) == 1:
            if ret == 'bool':
                return w, 'test'
            if ret.startswith('std::option::Option<') and ('context::Var' in ret or 'FunctionBody' in ret or 'String' in ret):
                return w, 'look'
    return None


def check(F, R):
    R.rule = RULE
    M = Model(F)
    R.ob('the scopes are found', 'ok' if M.ok else 'undecided')
    if not M.ok:
        return
    live = F.reach('main')[1]
    n = 0
    for k in sorted(live):
        if k not in F.local:
            continue
        w = kind(F, k)
        if not w:
            continue
        n += 1
        R.functions.add(k)
        run(F, R, M, k, w, False)
        if w[1] in ('look', 'test', 'drop'):
            run(F, R, M, k, w, True)
    R.count('functions on names', n)
    R.assume = ['three nested scopes stand for any number: the functions treat the scopes of the stack alike, one after the other']


def run(F, R, M, k, w, scoped):
    f = F.fns[k]
    what = {'look': 'lookup', 'test': 'test', 'put': 'assignment', 'drop': 'removal', 'mark': 'readonly mark'}[w[1]]
    ob = '%s of a %s %s by %s' % (what, {'var': 'variable', 'func': 'function'}[w[0]], 'scope::name' if scoped else 'name', k)
    where = '%s:%s' % tuple(f['span'][:2])
    e = ai.Engine(F)
    e.disj, e.mem_disj, e.max_states, e.widen_at = 64, 200, 8000, 8
    e.on_panic = lambda *a: None
    e.policy = lambda e, st, c, kk: 'inline'
    arg = M.SET if w == ('var', 'put') else M.N

    def pre(e, st, c):
        if not c.name.startswith('std::str::<impl str>::') or len(c.args) < 2:
            return None
        v = e.val(st, c.args[0])
        p = e.val(st, c.args[1])
        if c.name.endswith(('splitn', 'rsplitn')) and len(c.args) > 2:
            p = e.val(st, c.args[2])
        sep = p.a[0] if p.k == 'str' else chr(p.a[0]) if p.k == 'char' else None
        op = c.name.rsplit('::', 1)[1]
        parts = None
        if v is M.N:
            parts = [M.P, M.Q] if scoped and sep == '::' else [M.N] if sep in ('::', '=') else None
        elif v is M.SET:
            parts = [M.N, M.V] if sep == '=' else [M.SET] if sep == '::' else None
        elif v in (M.P, M.Q):
            parts = [v] if sep in ('::', '=') else None
        if parts is None:
            return None
        if op in ('split', 'splitn', 'split_terminator'):
            return [(st, mk('iter', mk('vec', *parts), 'v', I(0)))]
        if op in ('rsplit', 'rsplitn'):
            return [(st, mk('iter', mk('vec', *parts[::-1]), 'v', I(0)))]
        if op in ('split_once', 'rsplit_once'):
            return [(st, SOME(mk('tup', *parts)) if len(parts) == 2 else NONE)]
        if op == 'contains':
            return [(st, TRUE if len(parts) == 2 else FALSE)]
        if op in ('find', 'rfind') and len(parts) == 1:
            return [(st, NONE)]
        if op in ('starts_with', 'ends_with', 'strip_prefix', 'strip_suffix') and len(parts) == 1:
            return [(st, FALSE if op.endswith('with') else NONE)]
        return None
    e.pre.append(pre)
    st = ai.St()
    args = []
    body = mk('in', 'body', 'body')
    sloc = e.deref(mk('static', 'shell::SHELL'))
    for t in proc.arg_types(f):
        if strip(t) == MGR:
            loc = ('H', mk('in', 'mgr', MGR))
            e.set_root(st, loc, M.manager())
            args.append(mk('ref', loc, ()))
        elif strip(t) == SHELL:
            loc = ('H', mk('in', 'sh', SHELL))
            e.set_root(st, loc, M.shell())
            args.append(mk('ref', loc, ()))
        elif textual(t):
            args.append(arg)
        else:
            args.append(body)
    e.store(st, sloc[0], sloc[1], M.shell())
    try:
        outs = base.run(e, k, args, st)
    except ai.Budget as x:
        R.note('%s: %s' % (ob, x))
        R.ob(ob, 'undecided')
        return
    R.functions |= {x for x in e.stats['inlined'] if x in F.local}
    verdict = None
    for s, v in outs:
        R.count('paths judged')
        bad = judge(e, s, v, M, w, scoped, body)
        if bad is None:
            verdict = verdict or 'ok'
        elif bad == '?':
            verdict = verdict if verdict == 'violated' else 'undecided'
        else:
            verdict = 'violated'
            R.violation('%s@%s%s' % (bad.replace(' ', '-'), k, '-scoped' if scoped else ''), '%s: %s' % (k, bad), where, story(e, s, M, w))
    R.ob(ob, verdict or 'undecided')


def has(e, s, mp, key):
    r = e.decide(s, mk('pred', 'mhas', mp, key))
    return r


def initial(e, c, i):
    return e.proj(ai.St(), c, ('', i))


def story(e, s, M, w):
    fi = M.vars if w[0] == 'var' else M.funs
    out = []
    for i, c in enumerate(M.scopes):
        h = has(e, s, initial(e, c, fi), M.N)
        out.append('scope %d (%s): %s' % (i, 'innermost' if i == len(M.scopes) - 1 else 'outermost' if i == 0 else 'between', {True: 'holds the name', False: 'does not hold it', None: 'not looked at'}[h]))
    return out


def origin(t, M, fi):
    """{index of scope or 'x'} a value was read from, with its key"""
    out = set()

    def go(t):
        if not isinstance(t, T):
            return
        if t.k == 'mval':
            m, key = t.a
            for i, c in enumerate(M.scopes):
                if uses(m, c):
                    out.add((i, key))
                    return
            if uses(m, M.exp):
                if m is M.exp:
                    out.add(('space', key))
                else:
                    out.add(('x', m, key))
                return
        for x in t.a:
            if isinstance(x, T):
                go(x)
    go(t)
    return out


def uses(t, x):
    if t is x:
        return True
    return isinstance(t, T) and any(uses(y, x) for y in t.a if isinstance(y, T))


def changes(e, s, M, c, fi):
    """list of (op, key) applied to the map of scope c, or None if that is not known; plus writes to its entries"""
    m0 = initial(e, c, fi)
    m = e.res(s, e.val(s, e.load(s, ('H', c), (('', fi),))))
    out = []
    n = 0
    while m is not m0 and n < 20:
        n += 1
        if m.k == 'ins':
            out.append(('put', m.a[1]))
            m = e.res(s, m.a[0])
        elif m.k == 'mrem':
            out.append(('drop', m.a[1]))
            m = e.res(s, m.a[0])
        else:
            return None
    if m is not m0:
        return None
    return out


def judge(e, s, v, M, w, scoped, body):
    fi = M.vars if w[0] == 'var' else M.funs
    oi = M.funs if w[0] == 'var' else M.vars
    v = e.res(s, e.val(s, v))
    top = len(M.scopes) - 1
    holds = [has(e, s, initial(e, c, fi), M.N) for c in M.scopes]
    ch = [changes(e, s, M, c, fi) for c in M.scopes]
    other = [changes(e, s, M, c, oi) for c in M.scopes]
    if any(x is None for x in ch + other):
        return '?'
    for l in s.heap:
        # a write to a scope that is not known to be one of them
        if l[0] == 'H' and isinstance(l[1], T) and l[1].k not in ('in', 'static', 'mval') and s.heap[l] is not l[1] and (any(uses(l[1], c) for c in M.scopes) or uses(l[1], M.exp)):
            return '?'
    if any(other):
        return 'a %s of the name is changed' % ('function' if w[0] == 'var' else 'variable')
    written = set()
    for l, x in s.heap.items():
        if l[0] == 'H' and isinstance(l[1], T) and l[1].k == 'mval':
            for o in origin(l[1], M, fi):
                if isinstance(o[0], int) and len(o) == 2 and x.k != 'in':
                    written.add(o[0])
    changed = {i for i, c in enumerate(ch) if c} | written
    if w[1] in ('look', 'test') and changed:
        return 'a lookup changes a scope'
    if scoped:
        return scopedjudge(e, s, v, M, w, fi, changed)
    inner = None
    unknown = False
    for i in range(top, -1, -1):
        if holds[i] is True:
            inner = i
            break
        if holds[i] is None:
            unknown = True
            break
    if w[1] == 'look':
        some = e.is_variant(s, v, 'Some')
        if some is None:
            return '?'
        if some:
            o = origin(deep(e, s, v), M, fi)
            if len(o) != 1:
                return '?'
            o = next(iter(o))
            if not isinstance(o[0], int):
                return 'a name without a scope is looked up in an exported scope'
            if o[1] is not M.N:
                return '?' if o[1].k != 'in' else 'another name is looked up'
            if o[0] != inner:
                return 'a scope further out is preferred' if any(h is not False for h in holds[o[0] + 1:]) else '?'
            return None
        if inner is not None:
            return 'a name that is defined is not found'
        return 'a scope is not looked at' if unknown else None
    if w[1] == 'test':
        d = e.decide(s, v)
        if d is None or origin(v, M, fi):
            o = origin(v, M, fi)
            if len(o) == 1 and isinstance(next(iter(o))[0], int):
                # a mark of the entry found
                i, key = next(iter(o))
                return None if key is M.N and i == inner else 'a scope further out is preferred' if any(h is not False for h in holds[i + 1:]) else '?'
            o = v.k == 'pred' and v.a[0] == 'mhas'
            return '?' if not o else None if uses(v, M.scopes[0]) and not any(holds[1:]) and None not in holds[1:] else '?'
        if d and not any(holds):
            return 'a name that is defined nowhere is taken for one that is'
        if not d and inner is not None:
            return 'a name that is defined is not found'
        if not d and unknown:
            return 'a scope is not looked at'
        return None
    ops = [(i, o) for i, c in enumerate(ch) for o in c]
    if len(changed) > 1:
        return 'more than one scope is changed'
    kept = readonly(e, s, M, w, inner, initial(e, M.scopes[inner], fi)) if inner is not None else False
    if not changed:
        if w[1] == 'drop':
            if inner is not None:
                return None if kept is True else '?' if kept is None else 'a name that is defined is not removed'
            return 'a scope is not looked at' if unknown else None
        if inner is not None:
            return None if kept is True else '?' if kept is None else 'the assignment is lost'
        c = M.scopes[top]
        if kept_name(e, s, M, w, c):
            return None
        return 'the assignment is lost' if not unknown else '?'
    i = next(iter(changed))
    for _, (op, key) in ops:
        if key is not M.N:
            return '?' if key.k not in ('in', 'str') else 'another name is changed'
        if op == 'put' and w[1] == 'drop':
            return 'a removal makes an entry'
    if w[1] == 'put' and ops and ops[-1][1][0] == 'put' and False:
        return None
    if w[1] == 'put' and ch[i] and ch[i][0][0] == 'drop':
        return 'an assignment removes the name'
    if inner is None:
        if w[1] == 'drop':
            return 'a scope further out is preferred' if unknown else None
        if i != top:
            return 'a new name is put into another scope than the current one'
        return 'the assignment does not look for the scope that defines the name' if unknown else None
    if i != inner:
        return 'a scope that does not define the name is changed' if holds[i] is False else 'a scope further out is preferred' if i < inner else '?'
    return None


def kept_name(e, s, M, w, c):
    """the path has found the name in the set of readonly names of scope c"""
    for t in list(s.facts):
        if isinstance(t, T) and t.k == 'pred' and t.a[0] == 'mhas' and t.a[2] is M.N and uses(t.a[1], c) and t.a[1] not in (initial(e, c, M.vars), initial(e, c, M.funs)):
            if e.decide(s, t) is True:
                return True
    return False


def readonly(e, s, M, w, i, mp):
    """does the path know that the entry is readonly? True, False (known not to be, or not asked)"""
    if w[0] == 'func':
        return kept_name(e, s, M, w, M.scopes[i])
    t = e.res(s, e.proj(s, mk('mval', mp, M.N), ('', M.ro)))
    return e.decide(s, t) is True


def scopedjudge(e, s, v, M, w, fi, changed):
    if changed:
        return 'a scope of the stack is changed for a name of the form scope::name'
    xm = mk('mval', M.exp, M.P)
    known = has(e, s, M.exp, M.P)
    inner = e.proj(ai.St(), xm, ('', fi))
    hasin = has(e, s, inner, M.Q)
    for t, f in s.facts.items():
        if isinstance(t, T) and t.k == 'pred' and t.a[0] == 'mhas' and any(uses(t.a[1], c) for c in M.scopes) and t.a[2] in (M.Q, M.P):
            return 'a scope of the stack is searched for a name of the form scope::name'
    none = known is False or hasin is False
    if w[1] == 'test':
        d = e.decide(s, v)
        if d is None or origin(v, M, fi):
            return None if uses(v, M.P) and uses(v, M.Q) and not any(uses(v, c) for c in M.scopes) else '?'
        if d:
            return None if hasin is True else 'a name that is not defined there is taken for one that is'
        return None if none else 'the exported scope is not looked at'
    if w[1] == 'look':
        some = e.is_variant(s, v, 'Some')
        if some is None:
            return '?'
        if not some:
            return None if none else 'the exported scope is not looked at'
        o = origin(deep(e, s, v), M, fi)
        if len(o) != 1:
            return '?'
        o = next(iter(o))
        if isinstance(o[0], int):
            return 'a name of the form scope::name is found in a scope of the stack'
        if o[0] == 'x' and o[1] is inner and o[2] is M.Q:
            return None
        if o[0] == 'x' and uses(o[1], M.exp):
            return 'the name is looked up in the wrong exported scope, or another name is' if all(x.k in ('in',) for x in (o[2],)) else '?'
        return '?'
    m = e.res(s, e.val(s, e.load(s, ('H', xm), (('', fi),))))
    if m is inner:
        if none:
            return None
        ro = e.decide(s, e.res(s, e.proj(s, mk('mval', inner, M.Q), ('', M.ro)))) if w[0] == 'var' else None
        if ro is True:
            return None
        if known is None or hasin is None:
            return 'the exported scope is not looked at'
        return 'a name that is defined is not removed'
    if m.k == 'mrem' and m.a[0] is inner:
        return None if m.a[1] is M.Q else 'another name is removed'
    return '?'


def deep(e, s, v, n=0):
    v = e.res(s, e.val(s, v))
    if n > 8:
        return v
    if v.k in ('adt', 'tup'):
        return mk(v.k, *[deep(e, s, x, n + 1) if isinstance(x, T) else x for x in v.a])
    return v
