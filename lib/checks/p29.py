"""P29: the first `=` separates name and value."""
import ai
import base
import facts
import proc
from terms import *

RULE = ('Every function that cuts a text at an equals sign is interpreted (MIR), and every name and value it stores (variable tables, alias table, process environment, rewritten '
        'assignments) is traced back to the text: a name must be what stands before the first equals sign, a value all that stands after it (quotes removed or expanded), both of the '
        'same text.')

CUTS = ('split_once', 'split', 'splitn', 'find', 'rfind', 'rsplit', 'rsplit_once', 'rsplitn', 'split_terminator', 'rsplit_terminator', 'split_inclusive', 'strip_prefix', 'char_indices', 'position', 'bytes')
EQ = ({'char': 61}, {'str': '='})


def sites(F, key):
    """calls of string cutting functions with an equals sign"""
    out = []
    for b in F.fns[key]['blocks']:
        t = b['t']
        if t['k'] != 'call':
            continue
        q = t['f'].get('k')
        if isinstance(q, dict) and 'fn' in q:
            n = facts.norm(q['fn'])
            if n.startswith('std::str::') and n.rsplit('::', 1)[-1] in CUTS and any(a.get('k') in EQ for a in t['a'] if isinstance(a.get('k'), dict)):
                out.append((n.rsplit('::', 1)[-1], b.get('sp')))
    return out


def is_eq(t):
    return isinstance(t, T) and (t.k == 'str' and t.a[0] == '=' or t.k == 'char' and t.a[0] == 61)


def subterms(t):
    todo, seen = [t], set()
    while todo:
        y = todo.pop()
        if isinstance(y, T):
            if id(y) in seen:
                continue
            seen.add(id(y))
            yield y
            todo += list(y.a)
        elif isinstance(y, tuple):
            todo += list(y)


class Sink:
    def __init__(self, where, what, name, value):
        self.where, self.what, self.name, self.value = where, what, name, value


def pos_of(t):
    """the search an index comes from: ('find'|'rfind', text, added)"""
    add = 0
    while isinstance(t, T):
        if t.k == 'add' and isinstance(t.a[1], int):
            add += t.a[1]
            t = t.a[0]
        elif t.k == 'op' and t.a[0] == 'Add' and isinstance(t.a[2], T) and t.a[2].k == 'int':
            add += t.a[2].a[0]
            t = t.a[1]
        elif t.k in ('u',):
            t = t.a[0]
        elif t.k == 'f':
            t = t.a[0]
        else:
            break
    if isinstance(t, T) and t.k == 'app' and isinstance(t.a[0], str) and t.a[0].rsplit('::', 1)[-1] in ('find', 'rfind') and any(is_eq(x) for x in t.a[2:]):
        return t.a[0].rsplit('::', 1)[-1], t.a[1], add
    return None


def cut(t):
    """('before'|'after'|'rbefore'|'rafter'|'piece', text) for a term that is a part of a text cut at an equals sign"""
    if t.k in ('before', 'after', 'rbefore', 'rafter') and is_eq(t.a[1]):
        return t.k, t.a[0]
    if t.k == 'piece' and t.a[0].k == 'pieces' and any(is_eq(x) for x in t.a[0].a[2:]):
        p = t.a[1]
        if t.a[0].a[0] == 'split' and p.k == 'int' and p.a[0] == 0:
            return 'before', t.a[0].a[1]
        return 'piece', t.a[0].a[1]
    if t.k == 'ix':
        b = t.a[0]
        while b.k == 'app' and b.a[0] in ('collect', 'to_vec'):
            b = b.a[1]
        if b.k == 'iter':
            b = b.a[0]
        if b.k == 'pieces' and b.a[0] == 'split' and any(is_eq(x) for x in b.a[2:]):
            p = t.a[1]
            return ('before' if p.k == 'int' and p.a[0] == 0 else 'piece'), b.a[1]
    if t.k == 'app' and t.a[0] == 'slice' and t.a[2].k == 'adt':
        r = t.a[2]
        n = r.a[0].split('<')[0].rsplit('::', 1)[-1]
        if n == 'RangeTo':
            p = pos_of(r.a[2])
            if p and p[2] == 0:
                return ('before' if p[0] == 'find' else 'rbefore'), t.a[1]
        if n == 'RangeFrom':
            p = pos_of(r.a[2])
            if p and p[2] == 1:
                return ('after' if p[0] == 'find' else 'rafter'), t.a[1]
            if p:
                return 'piece', t.a[1]
    return None


def judge(s):
    """None if fine, else (key, message)"""
    nc = [cut(y) for y in subterms(s.name) if cut(y)]
    vc = [cut(y) for y in subterms(s.value) if cut(y)]
    for kind, _ in nc:
        if kind in ('rbefore', 'rafter'):
            return 'last', 'a name is cut at the last equals sign instead of the first'
        if kind in ('after', 'piece'):
            return 'name', 'a name is taken from behind the equals sign'
    for kind, _ in vc:
        if kind in ('rbefore', 'rafter'):
            return 'last', 'a value is cut at the last equals sign instead of the first'
        if kind == 'piece':
            return 'lost', 'a value ends at a further equals sign'
    after = {t for k, t in vc if k == 'after'}
    before = {t for k, t in nc if k == 'before'}
    if after and before and not (after & before):
        return 'mixed', 'a name and its value come from different texts'
    if after and not before and any(y in after for y in subterms(s.name)):
        return 'whole', 'the whole text is stored as the name of its own value'
    for y in subterms(s.value):
        if y.k == 'app' and isinstance(y.a[0], str) and y.a[0].rsplit('::', 1)[-1] in ('trim', 'trim_start', 'trim_end', 'to_lowercase', 'to_uppercase', 'trim_matches', 'trim_end_matches', 'trim_start_matches') \
                and any(cut(z) for z in subterms(y) if cut(z) and cut(z)[0] == 'after'):
            return 'altered', 'the text of a value is altered (%s)' % y.a[0].rsplit('::', 1)[-1]
    for y in subterms(s.value):
        c = cut(y)
        if c and c[0] == 'after':
            # the text that is cut must be a whole word, not a piece cut off at something that may occur in a value
            p = shortened(c[1])
            if p:
                return 'cut-before', 'a value ends where %r occurs in it' % p
    return None


def shortened(t):
    for z in subterms(t):
        if z.k == 'piece' and z.a[0].k == 'pieces' and z.a[0].a[0] == 'split' and len(z.a[0].a) > 2 and z.a[0].a[2].k in ('str', 'char'):
            p = z.a[0].a[2]
            p = p.a[0] if p.k == 'str' else chr(p.a[0])
            if p.strip() and p not in (';',):
                return p
    return None


def check(F, R):
    R.rule = RULE
    stop = set(proc.eval_entry(F))
    names, keys = F.reach('main')
    own = {k: sites(F, k) for k in F.local if k in keys}
    cutters = {k for k, v in own.items() if v}
    SETENV = {'std::env::set_var'}
    R.count('places where a text is cut at an equals sign', sum(len(v) for v in own.values()))
    roots = set(cutters)
    # who calls a helper that only cuts and hands the parts back decides what is stored
    gives = {k for k in cutters if 'str' in F.fns[k]['locals'][0]['ty'].lower() or 'usize' in F.fns[k]['locals'][0]['ty']}
    for _ in range(2):
        for k in F.local:
            if k in keys and any(inst in gives for _, inst in F.callees.get(k, ())) and k not in stop and not (F.reach(k)[1] & stop) and not k.startswith('main'):
                roots.add(k)
    if not cutters:
        R.ob('assignments are cut at an equals sign', 'undecided')
        return

    total = 0
    for key in sorted(roots):
        if key in stop:
            continue
        e = ai.Engine(F)
        e.disj, e.mem_disj = 4, 24
        sinks = []
        cache = {}

        def pol(e, st, c, k):
            r = cache.get(k)
            if r is None:
                nm, ks = F.reach(k)
                if ks & stop:
                    r = 'opaque'
                elif not F.fns[k]['local'] or k in gives:
                    r = 'inline'
                elif k in roots or ks & cutters:
                    r = 'opaque'
                elif any(x.startswith('std::collections::') and x.endswith('::insert') for x in nm) or 'std::env::set_var' in nm:
                    r = 'inline'
                else:
                    r = 'inline' if sum(len(F.fns[x]['blocks']) for x in ks if x in F.fns and F.fns[x]['local']) <= 30 else 'opaque'
                cache[k] = r
            return r
        e.policy = pol

        def pre(e, st, c):
            n = c.name
            if n == 'std::env::set_var':
                sinks.append(Sink('%s:%s' % tuple(c.span[:2]), 'the environment', deepval(e, st, c.args[0]), deepval(e, st, c.args[1])))
            elif n.startswith(('std::collections::HashMap', 'std::collections::BTreeMap')) and n.endswith('::insert') and len(c.args) == 3:
                sinks.append(Sink('%s:%s' % tuple(c.span[:2]), 'a table', deepval(e, st, c.args[1]), deepval(e, st, c.args[2])))
            if c.inst in cutters and c.inst not in gives:
                for a in c.args:
                    p = shortened(deepval(e, st, a))
                    if p:
                        short.append((p, '%s:%s' % tuple(c.span[:2])))
            return None
        e.pre.append(pre)
        short = []

        def piece(e, st, c, it, elem, rty):
            while isinstance(it, T) and it.k in ('peek', 'enum', 'cloned'):
                it = it.a[0]
            if elem is not None and isinstance(it, T) and it.k == 'iter' and it.a[0].k == 'pieces' and any(is_eq(x) for x in it.a[0].a[2:]) and it.a[0].a[0] == 'split':
                x = cut(elem) if isinstance(elem, T) else None
                if x and x[0] == 'piece':
                    pieces.append('%s:%s' % tuple(c.span[:2]))
        pieces = []
        e.on_iter = piece
        ob = '%s cuts at the first equals sign' % key
        try:
            outs = base.run(e, key)
        except ai.Budget:
            outs = []
            R.ob(ob, 'undecided')
        R.functions |= e.stats['inlined'] | {key}
        R.ob(ob)
        total += len(sinks)
        for kind, sp in own.get(key, ()):
            if kind in ('rsplit_once', 'rfind', 'rsplitn', 'rsplit', 'rsplit_terminator'):
                R.violation('last:%s' % key, '%s cuts a text at its last equals sign' % key, '%s:%s' % tuple(sp[:2]) if sp else None)
                R.ob(ob, 'violated')
        for p, w in short:
            R.violation('cut-before:%s' % key, '%s: a value ends where %r occurs in it' % (key, p), w)
            R.ob(ob, 'violated')
        for w in pieces:
            R.violation('lost:%s' % key, '%s goes on with what stands between two equals signs' % key, w)
            R.ob(ob, 'violated')
        for s in sinks:
            b = judge(s)
            if b:
                R.violation('%s:%s' % (b[0], key), '%s: %s' % (key, b[1]), s.where, ['name: %s' % show(s.name, 6), 'value: %s' % show(s.value, 6)])
                R.ob(ob, 'violated')
            else:
                R.sample('%s stores %s = %s' % (key, show(s.name, 4), show(s.value, 4)))
    R.count('stored names and values traced', total)
    R.assume = ['what is stored under a name by code that cuts no text is the business of other properties']


def deepval(e, st, v, d=0):
    v = e.val(st, v)
    v = e.res(st, v)
    if d < 6 and v.k in ('adt', 'tup', 'vec'):
        return mk(v.k, *[deepval(e, st, x, d + 1) if isinstance(x, T) else x for x in v.a])
    return v
