"""P28: completion offers only what starts with the text typed."""
import ai
import base
from checks.p24 import sub
from terms import *

RULE = ('The completer given to the line editor is interpreted (MIR) for an arbitrary line and cursor: every candidate in a list it may return must have been tested to start with the text of '
        'the line on the very path that puts it there, must be the name of an entry of a directory listed in PATH, and must replace the line from its beginning; no unwrap on the way may '
        'meet an error or an absence.')


def roots(F):
    return sorted(k for k, f in F.local.items() if k.startswith('<') and ' as rustyline::completion::Completer>::complete' in k)


def check(F, R):
    R.rule = RULE
    ks = roots(F)
    # a completer that only hands on to another is interpreted as well: its calls are inlined
    if not ks:
        R.ob('the line editor has a completer', 'undecided')
        return
    for k in ks:
        e = ai.Engine(F)
        e.max_states = 3000
        e.disj = 4
        e.policy = lambda e, st, c, k2: 'inline'
        ob = '%s offers only names from PATH that start with the line' % k
        ob2 = '%s cannot panic' % k
        R.ob(ob2)
        panics, soft = [], []

        def on_panic(e, st, fid, what, span, c=None):
            if what in ('unwrap',):
                panics.append((c, span))
            else:
                soft.append(what)
        e.on_panic = on_panic

        def on_div(e, st, c):
            panics.append((c, c.span))
        e.on_diverge = on_div

        def readdir(e, st, c):
            x = e.val(st, c.args[0])
            return [(st, OK(mk('app', 'rdir', x))), (st.fork(), ERR(mk('app', 'rdirerr', x)))]
        e.hooks['std::fs::read_dir'] = readdir
        e.hooks['std::path::Path::read_dir'] = readdir
        seen = [0]
        try:
            outs = base.run(e, k)
        except ai.Budget:
            R.ob(ob, 'undecided')
            continue
        R.functions |= e.stats['inlined'] | {k}
        n = und = 0
        where = '%s:%s' % tuple(F.fns[k]['span'][:2])
        line = None
        for st, v in outs:
            lines = {t for t in subs(st, v) if t.k == 'in' and t.a[0] == 1}
            r = e.res(st, e.proj(st, v, ('Ok', 0)))
            lst = e.res(st, e.proj(st, r, ('', 1)))
            start = e.res(st, e.proj(st, r, ('', 0)))
            for p in candidates(lst):
                n += 1
                fs = [x for x in p.a[2:] if isinstance(x, T)]
                rep = fs[-1]
                if any(y.k in ('u', 'w') for y in sub(rep)):
                    continue        # an element of a later turn of the loop: the first two stand for it
                if not any(y.k == 'app' and y.a[0] == 'rdir' for y in sub(rep)):
                    if rep.k in ('hv', 'call', 'any', 'f'):
                        und += 1
                        continue
                    R.violation('source:%s' % short(k), 'a completion is offered that is not the name of a file in a PATH directory', where, ['offered: %s' % show(rep, 6)])
                    R.ob(ob, 'violated')
                    continue
                if rep.k == 'cat':
                    R.violation('altered:%s' % short(k), 'a completion is offered that is not the name of a file', where, ['offered: %s' % show(rep, 6)])
                    R.ob(ob, 'violated')
                    continue
                d = [y for y in sub(rep) if y.k == 'app' and y.a[0] == 'rdir'][0]
                if not any(y.k == 'app' and 'file_name' in str(y.a[0]) for y in sub(rep)):
                    und += 1
                    R.note('the name of a directory entry is taken in an unknown way: %s' % show(rep, 4))
                if not any(y.k in ('str',) and y.a[0] == 'PATH' for y in sub(d)) and not any(y.k == 'call' and any('env::var' in str(a) for a in y.a) for y in sub(d)):
                    und += 1
                t = tested(st, rep)
                if t == 'yes':
                    R.sample('offered: %s, tested to start with the line' % show(rep, 4))
                    if not (start.k == 'int' and start.a[0] == 0):
                        if start.k == 'int' or start.k == 'in' or (start.k == 'app' and start.a[0] == 'len') or start.k == 'len':
                            R.violation('start:%s' % short(k), 'a completion that repeats the text typed does not replace it from its beginning', where, ['replaces from: %s' % show(start, 4)])
                            R.ob(ob, 'violated')
                        else:
                            und += 1
                elif t == 'no':
                    R.violation('prefix:%s' % short(k), 'a completion is offered that need not start with the text typed', where, ['offered: %s' % show(rep, 6)] +
                                ['known: %s = %s' % (show(a, 5), show(b[1], 2) if isinstance(b[1], T) else b[1]) for a, b in list(st.facts.items())[:8] if a.k in ('pred', 'app')])
                    R.ob(ob, 'violated')
                else:
                    und += 1
        R.count('abstract outcomes', len(outs))
        R.count('candidates judged', n)
        R.ob(ob, 'ok' if n and not und else 'undecided')
        for c, sp in panics:
            R.violation('panic:%s' % short(k), 'completing can abort the shell', '%s:%s' % tuple(sp[:2]) if sp else where, [c.name if c else ''])
            R.ob(ob2, 'violated')
        if soft:
            R.ob(ob2, 'undecided')
            R.note('bounds not decided: %s' % sorted(set(soft)))
    R.assume = ['the line editor hands the line and a cursor position on a character boundary within it', 'candidates of the third and later turns of a loop are put in the list like those of the first two']


def short(k):
    return k.split(' as ')[0].strip('<')


def subs(st, v):
    return list(sub(v))


def candidates(t):
    for y in sub(t):
        if y.k == 'adt' and y.a[0].split('<')[0].endswith('::Pair'):
            yield y


def is_line(t):
    """the line, or its part before the cursor"""
    if t.k == 'in':
        return t.a[0] == 1
    if t.k == 'app' and t.a[0] == 'slice' and t.a[1].k == 'in' and t.a[1].a[0] == 1:
        r = t.a[2]
        n = r.a[0].split('<')[0].rsplit('::', 1)[-1] if r.k == 'adt' else ''
        return n == 'RangeTo' and any(y.k == 'in' and y.a[0] == 2 for y in sub(r)) or n == 'Range' and isinstance(r.a[2], T) and r.a[2] is I(0) and any(y.k == 'in' and y.a[0] == 2 for y in sub(r))
    return False


def tested(st, rep):
    mine = {id(y) for y in sub(rep)}
    part = None
    for t, f in st.facts.items():
        if t.k == 'pred' and t.a[0] == 'starts_with' and f[0] == 'c' and f[1] is TRUE and id(t.a[1]) in mine:
            if is_line(t.a[2]):
                return 'yes'
            part = t.a[2]
    for t, f in st.facts.items():
        if t.k == 'app' and isinstance(t.a[0], str) and t.a[0].rsplit('::', 1)[-1] in ('strip_prefix', 'find') and any(isinstance(a, T) and id(a) in mine for a in t.a):
            if t.a[0].endswith('strip_prefix') and f == ('v', 'Some') and is_line(t.a[2]):
                return 'yes'
    if part is not None and part.k not in ('str', 'char', 'app'):
        return '?'
    return 'no'
