"""P13: a readonly variable keeps its value."""
import re
import ai
import base
import effects
import proc
from facts import norm
from proc import get, put
from terms import *

RULE = ('Every place that can change a variable the shell keeps (an entry put into, or taken out of, the map of variables of a scope; a write to a variable '
        'through a reference) is reached only where the analysis knows that the scope has no readonly variable of that name: established in the function itself or in '
        'each of its callers. The readonly mark is only ever set to true. A function entry is overwritten only where its name is known not to be in the set of readonly functions.')
HM = re.compile(r'std::collections::(?:HashMap|BTreeMap)(?:<[^>]*>)?(?:::<[^>]*>)?::(\w+)$')
WHOLE = ('clear', 'retain', 'drain', 'extend', 'append', 'into_iter', 'extract_if')
CELLOPS = ('std::mem::replace', 'std::mem::swap', 'std::mem::take', 'std::cell::RefCell::<T>::replace', 'std::cell::RefCell::<T>::swap', 'std::cell::RefCell::<T>::take')


def mapop(c_fn, targs):
    """('var'|'func', operation) of a library call on a map of variables or functions"""
    m = HM.match(c_fn)
    if not m or not targs:
        return None
    k = effects.mapkind(targs)
    if k in ('var', 'func') and targs[0] == 'std::string::String':
        return k, m.group(1)
    return None


def varplace(F, f, pl, byname={}):
    """(field) written by an assignment to pl if it is in a variable behind a reference"""
    ty = f['locals'][pl['l']]['ty']
    deref = False
    for i, p in enumerate(pl['p']):
        if p[0] == 'd':
            deref = True
            ty = strip(ty)
        elif p[0] == 'f':
            if ai.base_ty(ty) == 'context::Var' and deref:
                return p[2] if len(p) > 2 else p[1]
            a = F.adts.get(ai.base_ty(ty))
            ty = a['variants'][0]['ftys'][p[1]] if a and len(a['variants']) == 1 and p[1] < len(a['variants'][0]['ftys']) else ''
        else:
            ty = ''
    if deref and ai.base_ty(ty) == 'context::Var':
        return '*'
    return None


def strip(t):
    t = re.sub(r"^&('\w+ )?(mut )?", '', t)
    return re.sub(r'^\*(mut|const) ', '', t)


def sites(F):
    """{function: [(kind, what, span)]} of the places that change variables or functions"""
    out = {}
    for k in sorted(F.reach('main')[1]):
        f = F.fns.get(k)
        if not f or not (f['local'] or f.get('closure')):
            continue
        for b in f['blocks']:
            if b.get('cu'):
                continue
            for s in b['s']:
                if s[0] != '=':
                    continue
                w = varplace(F, f, s[1])
                if w:
                    out.setdefault(k, []).append(('write', w, tuple(s[3])))
                if s[2][0] == 'ref' and s[2][1] == 'mut':
                    w = varplace(F, f, s[2][2])
                    if w and w != '*':
                        out.setdefault(k, []).append(('borrow', w, tuple(s[3])))
            t = b['t']
            if t['k'] == 'call' and isinstance(t['f'].get('k'), dict) and 'fn' in t['f']['k']:
                c = t['f']['k']
                n = norm(c.get('res') or c['fn'])
                m = mapop(norm(c['fn']), c.get('targs')) or mapop(n, c.get('targs'))
                if m and m[1] in ('insert', 'remove', 'remove_entry', 'entry', 'get_mut_or', 'try_insert') + WHOLE:
                    out.setdefault(k, []).append((m[0], m[1], tuple(b.get('sp') or ())))
                if norm(c['fn']) in CELLOPS and (c.get('targs') or [''])[0].endswith('context::Var'):
                    out.setdefault(k, []).append(('cell', norm(c['fn']), tuple(b.get('sp') or ())))
    return out


class Run:
    """interprets root, judging the sites in the functions of `watch`"""

    def __init__(self, F, root, watch, chain=()):
        self.F, self.root, self.watch, self.chain = F, root, watch, set(chain)
        self.res = {}      # (fn, kind, what) -> {'ok'|'bad'|'unknown'|'fresh': (where, path)}
        v = F.adts['context::Var']['variants'][0]['fields']
        self.ro = v.index('readonly')

    def note(self, fn, kind, what, how, span):
        self.res.setdefault((fn, kind, what), {}).setdefault(how, ('%s:%s' % tuple(span[:2]), [x[0] for x in self.e.stack]))

    def known_writable(self, st, mp, key):
        """the map has no readonly variable under key: True, False, None"""
        e = self.e
        worst = True
        for s, v in e.mget(st.fork(), mp, key):
            if v is None:
                continue
            r = self.readonly_of(s, v)
            if r is FALSE or r is False:
                continue
            x = r.k
            worst = False if x in ('bool', 'f', 'in', 'mval', 'upd', 'hv') or True else None
        return worst

    def readonly_of(self, s, v):
        e = self.e
        n = 0
        v = e.val(s, v) if v.k == 'ref' else v
        return e.res(s, e.proj(s, v, ('', self.ro)))

    def shared(self, loc):
        return loc[0] != 'L' and not (loc[0] == 'A')

    def run(self):
        F = self.F
        e = self.e = ai.Engine(F)
        e.disj, e.mem_disj, e.widen_at, e.max_states = 6, 24, 1, 5000
        reach = {}

        def pol(e, st, c, k):
            if not F.fns[k]['local']:
                return 'inline'
            r = reach.get(k)
            if r is None:
                ks = F.reach(k)[1]
                size = sum(len(F.fns[x]['blocks']) for x in ks if x in F.fns and (F.fns[x]['local'] or F.fns[x].get('closure')))
                r = reach[k] = (bool(ks & self.watch) and size < 400) or size <= 24 or k in self.watch or k in self.chain
            return 'inline' if r else 'opaque'
        e.policy = pol
        e.on_panic = lambda *a: None

        def pre(e, st, c):
            if c.fn not in self.watch:
                return None
            m = mapop(c.name, c.targs) or mapop(c.res or '', c.targs)
            if m and m[1] in ('insert', 'remove', 'remove_entry', 'entry', 'try_insert') + WHOLE:
                loc, path = e.deref(c.args[0])
                mp = e.load(st, loc, path)
                if not self.shared(loc):
                    self.note(c.fn, m[0], m[1], 'fresh', c.span)
                elif m[1] in WHOLE:
                    self.note(c.fn, m[0], m[1], 'bad', c.span)
                elif m[0] == 'var':
                    key = e.val(st, c.args[1])
                    w = self.known_writable(st, mp, key)
                    self.note(c.fn, m[0], m[1], 'ok' if w else 'bad' if w is False else 'unknown', c.span)
                elif m[0] == 'func' and m[1] in ('insert', 'entry', 'try_insert'):
                    key = e.val(st, c.args[1])
                    self.note(c.fn, m[0], m[1], 'ok' if self.unmarked(st, loc, path, key) else 'bad', c.span)
            if c.name in CELLOPS and (c.targs or [''])[0].endswith('context::Var'):
                loc, path = e.deref(c.args[0])
                v = e.load(st, loc, path)
                r = e.res(st, e.proj(st, v, ('', self.ro)))
                self.note(c.fn, 'cell', c.name, 'fresh' if not self.shared(loc) else 'ok' if r is FALSE else 'bad', c.span)
            return None
        e.pre.append(pre)

        def assign(e, st, key, fid, pl, loc, path, v, span):
            if key not in self.watch:
                return
            w = varplace(F, F.fns[key], pl)
            if not w:
                return
            if not self.shared(loc):
                self.note(key, 'write', w, 'fresh', span)
                return
            p = path
            if w == 'readonly':
                x = e.res(st, v)
                self.note(key, 'write', w, 'ok' if x is TRUE else 'bad', span)
                return
            if w != '*':
                p = path[:-1]
            r = e.res(st, e.load(st, loc, p + (('', self.ro),)))
            self.note(key, 'write', w, 'ok' if r is FALSE else 'bad', span)
        e.on_assign = assign
        base.run(e, self.root)

    def unmarked(self, st, loc, path, key):
        """the scope's set of readonly functions is known not to have key"""
        e = self.e
        adt = self.F.adts['context::Context']['variants'][0]
        for i, t in enumerate(adt['ftys']):
            if 'HashSet<std::string::String>' in t or 'BTreeSet<std::string::String>' in t:
                mp = e.load(st, loc, path[:-1] + (('', i),))
                return all(v is None for s, v in e.mget(st.fork(), mp, key))
        return True


def outer(F, k):
    """the local function a closure is written in (None for library code)"""
    n = k.split('::{closure')[0]
    if F.fns.get(n, {}).get('local'):
        return n
    return k if F.fns[k]['local'] and '{closure' not in k else None


def check(F, R):
    ss = sites(F)
    live = F.reach('main')[1]
    callers = {}
    for k in live:
        if k in F.fns:
            for n, i in F.callees.get(k, ()):
                if i:
                    callers.setdefault(i, set()).add(k)
    if not any(s[0] == 'var' for v in ss.values() for s in v):
        R.ob('the variables of a scope are found', 'undecided')
    stop = proc.boundary_of(F) | {'main'}
    for x in sorted(ss):
        R.functions.add(x)
        first = outer(F, x)
        if first is None:
            for s in ss[x]:
                R.ob('%s: %s %s' % (x, s[0], s[1]), 'undecided')
            continue
        todo, done = [(first, 0)], set()
        final, lifted = {}, set()
        while todo:
            k, depth = todo.pop(0)
            if k in done:
                continue
            done.add(k)
            r = Run(F, k, {x}, done)
            try:
                r.run()
            except ai.Budget:
                for s in ss[x]:
                    final.setdefault((s[0], s[1]), 'undecided')
                continue
            mine = {(kk[1], kk[2]): v for kk, v in r.res.items() if kk[0] == x}
            for s in ss[x]:
                if (s[0], s[1]) not in mine and not any(m[0] == s[0] for m in mine) and depth == 0 and s[0] not in ('borrow',):
                    if s[0] != 'func' or s[1] == 'insert':
                        final.setdefault((s[0], s[1]), 'undecided')
            for q in final:
                if depth and q not in mine and final[q] == 'ok' and q in lifted:
                    final[q] = 'undecided'
            bad = {q: v['bad'] for q, v in mine.items() if 'bad' in v}
            for q, v in mine.items():
                if 'bad' not in v and final.get(q) is None:
                    final[q] = 'undecided' if 'unknown' in v else 'ok'
            if not bad:
                continue
            ups = {outer(F, c) for c in callers.get(k, ()) if c in F.fns} - {None, k}
            if ups and depth < 3 and k not in stop and len(done) < 24 and all(q[1] not in WHOLE and q != ('write', 'readonly') for q in bad):
                todo += [(c, depth + 1) for c in sorted(ups)]
                lifted |= set(bad)
                for q in bad:
                    final.pop(q, None) if final.get(q) == 'ok' else None
                    final.setdefault(q, 'ok')
                continue
            for q, (where, path) in bad.items():
                kind, what = q
                if kind == 'func':
                    msg = 'a function is redefined although it may be readonly'
                elif q == ('write', 'readonly'):
                    msg = 'a variable can be made writable again'
                elif what in ('remove', 'remove_entry') + WHOLE:
                    msg = 'a variable is removed although it may be readonly'
                else:
                    msg = 'a variable is overwritten although it may be readonly'
                R.violation('%s-%s@%s' % (kind, what, x), '%s (%s, reached from %s)' % (msg, x, k), where, path)
                final[q] = 'violated'
        for s in ss[x]:
            if s[0] == 'borrow':
                final.setdefault((s[0], s[1]), 'undecided')
        for q, v in sorted(final.items()):
            R.ob('%s: %s %s' % (x, q[0], q[1]), v)
    R.count('places that change a variable or function', sum(len(v) for v in ss.values()))
