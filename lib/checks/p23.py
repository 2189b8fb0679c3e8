"""P23: a program receives exactly the words of its command."""
import re
import ai
import base
import proc
import words
from facts import norm
from words import Changed, Lost, Words, deep, items, leaves, pieces
from terms import *

RULE = ('(1) Each function that rewrites a command (alias, expansion, quote removal) is interpreted (MIR) with a command of 0 to 3 arguments whose texts are unknown: on every path the words afterwards are the words '
        'before, in order, each made from one of them, none lost, none twice, none made from a redirection or an assignment. (2) In each function that makes the description of a process from a command, the argument '
        'vector is the program word followed by all words behind it, each once, in order and with its text unchanged. (3) At each exec call the vector passed is that of the process described.')
PROC = 'jobs::Process'
CHANGES = re.compile(r'(^|::)(trim\w*|to_lowercase|to_uppercase|to_ascii_\w+|replace\w*|repeat|truncate|strip_\w+|split\w*|slice)$')


def shape_of(F):
    if PROC not in F.adts:
        return None
    v = F.adts[PROC]['variants'][0]
    a = [i for i, t in enumerate(v['ftys']) if 'Vec<' in t and 'CString' in t]
    p = [i for i, n in enumerate(v['fields']) if n == 'argv0']
    return (a[0] if len(a) == 1 else None, p[0] if p else None)


def constructors(F, live):
    """functions with an aggregate of the process type"""
    out = set()
    for k in live:
        f = F.fns.get(k)
        if not f or not f['local'] or 'Clone' in k or 'clone' in k:
            continue
        for b in f['blocks']:
            for s in b['s']:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][2] == PROC:
                    out.add(k)
    return out


def argidx(f, ty):
    return [i for i in range(1, f['nargs'] + 1) if ai.base_ty(re.sub(r"^&('\w+ )?(mut )?", '', f['locals'][i]['ty'])) == ty]


def kinds(F):
    """(transformers, makers): functions that rewrite a command; functions that make a process from one"""
    live = F.reach('main')[1]
    fns = [k for k in live if k in F.local and k in F.fns and not F.fns[k].get('closure')]
    text = {k for k in fns if words.wordlevel(F.fns[k])}
    cons = constructors(F, live)
    callers = {}
    for k in live:
        for n, i in F.callees.get(k, ()) if k in F.fns else ():
            if i:
                callers.setdefault(i, set()).add(k)
    makers = set()
    todo, done = sorted(cons), set()
    while todo:
        k = todo.pop()
        if k in done:
            continue
        done.add(k)
        if k in F.fns and argidx(F.fns[k], words.CMD):
            makers.add(k)
        else:
            todo += sorted(callers.get(k, ()))
    pf = set(proc.pipeline_fns(F)) | proc.andor_fns(F) | set(proc.eval_entry(F))
    tr = set()
    for k in fns:
        f = F.fns[k]
        if not any(f['locals'][i]['ty'].startswith('&') and 'mut ' in f['locals'][i]['ty'] for i in argidx(f, words.CMD)):
            continue
        r = proc.limited_reach(F, k, text - {k})[1]
        if not r & (cons | pf | makers - {k}) and k not in makers:
            tr.add(k)
    # only the outermost
    return tr, makers, cons


def order(e, s, lst, n, what):
    """None, or why the list of words is not the words 0..n in order; Lost where it is not known"""
    seq = []
    for j, x in enumerate(lst):
        x = deep(e, s, x)
        l = leaves(x)
        if not l:
            if x.k == 'str':
                if x.a[0] == '' and j == 0:
                    continue
                return 'a word %r is added' % x.a[0]
            raise Lost(show(x, 3))
        if len(l) > 1:
            if l & {'r0', 'r1', 'a0'}:
                return 'a redirection or an assignment gets into a word'
            return 'words are put together'
        w = next(iter(l))
        if w[0] != 'w':
            return 'a redirection or an assignment becomes a word'
        seq.append((int(w[1:]), tuple(pieces(x))[::-1], x))
    for a, b in zip(seq, seq[1:]):
        if b[0] < a[0] or b[0] == a[0] and b[1] and a[1] and b[1] < a[1]:
            return 'the order of the words changes'
        if a[0] == b[0] and a[2] is b[2]:
            return 'a word is there twice'
        if a[0] == b[0] and a[0] > 0 and not (a[1] and b[1]):
            return 'a word is there twice'
    have = {x[0] for x in seq}
    for i in range(1, n + 1):
        if i not in have:
            return 'a word is lost'
    byw = {}
    for i, p, x in seq:
        for j in range(len(p)):
            byw.setdefault((i, p[:j]), set()).add(p[j])
    for ps in byw.values():
        if ps != {0, 1}:
            return 'a part of a word is lost'
    return None


def transformer(F, R, W, k):
    f = F.fns[k]
    ob = 'words after %s' % k
    verdict = 'ok'
    S = W.S
    for n in (None, 0, 1, 2, 3) if R.tier == 'thorough' else (None, 0, 1, 2):
        e = W.engine()
        st = ai.St()
        args = []
        loc = ('H', mk('in', 'cmd', words.CMD))
        for i in range(1, f['nargs'] + 1):
            if i in argidx(f, words.CMD):
                e.set_root(st, loc, S.command(n))
                args.append(mk('ref', loc, ()))
            else:
                args.append(mk('in', i, f['locals'][i]['ty']))
        try:
            outs = base.run(e, k, args, st)
        except ai.Budget:
            verdict = 'undecided' if verdict == 'ok' else verdict
            continue
        R.count('paths through functions that rewrite a command', len(outs))
        for s, v in outs:
            try:
                c = e.load(s, loc, ())
                name = e.val(s, e.load(s, loc, (('', S.name),)))
                suf = e.res(s, e.val(s, e.load(s, loc, (('', S.suffix),))))
                lst = [name]
                some = e.is_variant(s, suf, 'Some')
                if some is True:
                    w = e.proj(s, e.val(s, e.proj(s, suf, ('Some', 0))), ('', S.words))
                    lst += items(e, s, w)
                elif some is not False:
                    raise Lost(show(suf, 2))
                bad = order(e, s, lst, n or 0, k)
            except Changed as x:
                bad, lst = str(x), []
            except Lost as x:
                if verdict == 'ok':
                    verdict = 'undecided'
                R.note('%s: %s' % (k, x))
                continue
            if bad:
                R.violation('%s@%s' % (bad.replace(' ', '-'), k), '%s: %s' % (k, bad), '%s:%s' % tuple(f['span'][:2]), ['command of %s words' % n, 'words after: %s' % ', '.join(show(deep(e, s, x), 3) for x in lst)])
                verdict = 'violated'
    R.ob(ob, verdict)


def bare(x):
    """the word a text is, without conversions that keep it; (word, conversions that do not)"""
    n, bad = 0, []
    while isinstance(x, T) and n < 12:
        n += 1
        if x.k == 'in':
            return x.a[0], bad
        if x.k in ('u', 'box', 'adt') or x.k == 'app':
            ts = [y for y in x.a if isinstance(y, T) and leaves(y)]
            if len(ts) != 1:
                return None, bad
            if x.k == 'app':
                nm = str(x.a[0])
                if nm.startswith('by:') or CHANGES.search(nm):
                    bad.append(nm)
            x = ts[0]
            continue
        ts = [y for y in x.a if isinstance(y, T) and leaves(y)]
        if len(ts) != 1:
            return None, bad
        bad.append(x.k)
        x = ts[0]
    return None, bad


def judge(e, s, p, sh, n, name_only):
    """None, or why the process is not what the command says"""
    argv = items(e, s, e.proj(s, p, ('', sh[0])))
    idx, seen = [], []
    for j, x in enumerate(argv):
        x = deep(e, s, x)
        l = leaves(x)
        if not l:
            if x.k == 'str' or x.k == 'adt' and any(isinstance(y, T) and y.k == 'str' for y in x.a):
                return 'an argument is added'
            raise Lost(show(x, 3))
        if l & {'r0', 'r1', 'a0'}:
            return 'a redirection or an assignment becomes an argument'
        if len(l) > 1:
            return 'words are put together in an argument'
        w, bad = bare(x)
        if j and (w is None or bad):
            if any(CHANGES.search(b) for b in bad):
                return 'the text of an argument is changed (%s)' % ', '.join(sorted(set(bad)))
            raise Lost(show(x, 3))
        idx.append(int(next(iter(l))[1:]))
    if not idx:
        return 'the argument vector is empty'
    if sh[1] is not None:
        l = leaves(deep(e, s, e.proj(s, p, ('', sh[1]))))
        if len(l) != 1:
            raise Lost('program name')
        prog = int(next(iter(l))[1:])
    else:
        prog = idx[0]
    if idx[0] not in (prog, prog - 1):
        return 'the first argument is not the name of the program'
    want = list(range(prog + 1, n + 1))
    if idx[1:] != want:
        if sorted(idx[1:]) == want:
            return 'the arguments are in another order'
        if len(set(idx[1:])) < len(idx[1:]):
            return 'an argument is passed twice'
        if set(idx[1:]) < set(want):
            return 'an argument is lost'
        return 'the arguments are not the words behind the name of the program'
    return None


def maker(F, R, W, k, tr, makers):
    f = F.fns[k]
    S, sh = W.S, shape_of(F)
    ob = 'the argument vector made in %s' % k
    verdict, found = None, 0
    for n in ((None, 0, 1, 2, 3, 4, 5, 6, 7) if R.tier == 'thorough' else (None, 0, 1, 2, 3, 4, 5)):
        def pol(e, st, c, kk):
            g = F.fns[kk]
            if not g['local'] or g.get('closure'):
                return 'inline'
            if kk in makers or words.wordlevel(g) or proc.limited_reach(F, kk, set())[0] & (base.FORK | base.EXEC):
                return 'opaque'
            return 'inline'
        e = W.engine(pol)
        res = []

        def pre(e, st, c):
            if c.inst in tr:
                return e_fresh(e, st, c)
            if c.inst and c.inst in F.local and any(PROC in t for t in c.at) and e.policy(e, st, c, c.inst) == 'opaque':
                for a in c.args:
                    v = deep(e, st, a)
                    if v.k == 'adt' and v.a[0] == PROC:
                        res.append((st.fork(), v, '%s:%s' % tuple(c.span[:2])))
            return None

        def e_fresh(e, st, c):
            return [(s, v) for s, v in [(st, e.result_term(st, c))]]
        e.pre.insert(0, pre)
        st = ai.St()
        args = []
        loc = ('H', mk('in', 'cmd', words.CMD))
        for i in range(1, f['nargs'] + 1):
            if i in argidx(f, words.CMD):
                e.set_root(st, loc, S.command(n))
                args.append(mk('ref', loc, ()))
            else:
                args.append(mk('in', i, f['locals'][i]['ty']))
        try:
            outs = base.run(e, k, args, st)
        except ai.Budget as x:
            R.note('%s: %s' % (k, x))
            verdict = verdict or 'undecided'
            continue
        for s, v in outs:
            for p in processes(deep(e, s, v)):
                res.append((s, p, '%s:%s' % tuple(f['span'][:2])))
        for s, p, where in res:
            found += 1
            try:
                bad = judge(e, s, p, sh, n or 0, False)
            except Changed as x:
                bad = str(x)
            except Lost as x:
                R.note('%s: %s' % (k, x))
                verdict = verdict if verdict == 'violated' else 'undecided'
                continue
            if bad:
                R.violation('%s@%s' % (bad.split(' (')[0].replace(' ', '-'), k), '%s: %s' % (k, bad), where, ['command of %s words' % n])
                verdict = 'violated'
            elif verdict is None:
                verdict = 'ok'
    R.count('process descriptions', found)
    R.ob(ob, verdict or 'undecided')


def processes(t, acc=None):
    acc = [] if acc is None else acc
    if isinstance(t, T):
        if t.k == 'adt' and t.a[0] == PROC:
            acc.append(t)
        else:
            for x in t.a:
                if isinstance(x, T):
                    processes(x, acc)
    return acc


def execs(F, R):
    live = F.reach('main')[1]
    sh = shape_of(F)
    for k in sorted(live):
        f = F.fns.get(k)
        if not f or not f['local'] or not any(n in base.EXEC for n, i in F.callees.get(k, ())):
            continue
        R.functions.add(k)
        e = ai.Engine(F)
        e.on_panic = lambda *a: None
        e.policy = lambda e, st, c, kk: 'inline' if not F.fns[kk]['local'] or F.fns[kk].get('closure') else 'opaque'
        st = ai.St()
        args, mine = [], []
        for i in range(1, f['nargs'] + 1):
            t = f['locals'][i]['ty']
            if argidx(f, PROC) and i in argidx(f, PROC):
                loc = ('H', mk('in', 'p%d' % i, PROC))
                x = mk('in', 'argv', 'vec')
                v = F.adts[PROC]['variants'][0]
                e.set_root(st, loc, mk('adt', PROC, '', *[x if j == sh[0] else mk('in', 'p-' + nme, v['ftys'][j]) for j, nme in enumerate(v['fields'])]))
                mine.append(x)
                args.append(mk('ref', loc, ()))
            else:
                args.append(mk('in', i, t))
        res = []

        def ex(e, st, c):
            v = deep(e, st, c.args[1])
            if mine and v is mine[0]:
                res.append('ok')
            elif v.k in ('vec', 'push', 'append', 'rm', 'subslice') or any(x is mine[0] for x in subs(v)) if mine else False:
                res.append('violated')
                R.violation('vector@%s' % k, 'the vector passed to %s is not the argument vector of the process' % norm(c.name).rsplit('::', 1)[-1], '%s:%s' % tuple(c.span[:2]), [show(v, 4)])
            else:
                res.append('undecided')
            return None
        for n in base.EXEC:
            e.hooks[n] = ex
        try:
            base.run(e, k, args, st)
        except ai.Budget:
            res.append('undecided')
        R.ob('exec in %s passes the argument vector of its process' % k, 'violated' if 'violated' in res else 'ok' if res and set(res) == {'ok'} else 'undecided')


def subs(t):
    yield t
    if isinstance(t, T):
        for x in t.a:
            if isinstance(x, T):
                yield from subs(x)


def check(F, R):
    R.rule = RULE
    W = Words(F)
    if not W.S.ok or shape_of(F) is None or shape_of(F)[0] is None:
        R.ob('commands and processes are found', 'undecided')
        return
    tr, makers, cons = kinds(F)
    for k in sorted(tr):
        R.functions.add(k)
        transformer(F, R, W, k)
    for k in sorted(makers):
        R.functions.add(k)
        maker(F, R, W, k, tr, makers)
    execs(F, R)
    R.count('functions that rewrite a command', len(tr))
    R.count('functions that make a process from a command', len(makers))
