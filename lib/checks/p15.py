"""P15: an alias is replaced once and keeps every argument in order."""
import re
import ai
import base
import cmds
import effects
import proc
import words
from checks import p23
from facts import norm
from words import Changed, Lost, Words, deep, items, leaves
from terms import *

RULE = ('Abstract interpretation of the evaluation of a simple command (MIR) with a name and arguments whose texts are unknown, up to the point where the command is handed to a builtin or described as a process; '
        'the alias table answers each name asked with an alias of 1 to 5 words or with none. There, the words must be those of the alias followed by those of the command, each once and in order, if the name was found, and '
        'the words as written if it was not; no word may come from a further lookup; the redirections and assignments are the ones of the command.')
HM = re.compile(r'std::collections::(?:HashMap|BTreeMap)\b.*::(\w+)$')
READ = {'get', 'get_mut', 'get_key_value', 'contains_key', 'index', 'get_or_insert_with'}


def alias_read(F, k):
    """does the function ask the alias table itself?"""
    for b in F.fns[k]['blocks']:
        t = b['t']
        if t['k'] == 'call' and isinstance(t['f'].get('k'), dict) and 'fn' in t['f']['k']:
            c = t['f']['k']
            m = HM.match(norm(c['fn'])) or HM.match(norm(c.get('res') or c['fn']))
            if m and m.group(1) in READ and effects.mapkind(c.get('targs') or []) == 'alias':
                return True
    return False


def check(F, R):
    R.rule = RULE
    W = Words(F)
    sh = p23.shape_of(F) if W.S.ok else None
    es = cmds.entries(F)
    if not W.S.ok or sh is None or sh[0] is None or not es:
        R.ob('the evaluation of a simple command is found', 'undecided')
        return
    stop = cmds.stops(F)
    readers = {k for k in F.local if alias_read(F, k)}
    asks = {k for k in F.local if k in F.fns and proc.limited_reach(F, k, set(stop) - {k})[1] & readers}
    tr = {k for k in p23.kinds(F)[0] if k not in asks}
    top = 7 if R.tier == 'thorough' else 5
    lens = (None,) + tuple(range(top))
    for k in sorted(es):
        R.functions.add(k)
        for n in lens:
            for m in range(1, top + 1):
                one(F, R, W, k, n, m, stop, asks, tr, sh)
    R.assume = ['alias texts are split at white space; an alias of blanks only is not considered']


def one(F, R, W, key, n, m, stop, asks, tr, sh):
    S = W.S
    disc = cmds.discriminating(F)
    ob = 'a command of %s words whose name is an alias of %d words or none' % (n if n is not None else 'no further', m)

    def handler(k, memo={}):
        if k not in memo:
            memo[k] = bool(effects.reach(F, k, stop)) or bool(proc.limited_reach(F, k, set())[0] & (base.FORK | base.EXEC))
        return memo[k] and not p23_maker(k)

    def p23_maker(k):
        return 'jobs::Process' in F.fns[k]['locals'][0]['ty']

    def pol(e, st, c, kk):
        g = F.fns[kk]
        if not g['local'] or g.get('closure'):
            return 'inline'
        if disc(kk) or kk in asks:
            return 'inline'
        return 'opaque' if words.wordlevel(g) or handler(kk) else 'inline'
    e = W.engine(pol)
    res = []
    where = '%s:%s' % tuple(F.fns[key]['span'][:2])

    def text(st, i):
        return mk('in', '%s%d' % ('t', i), 'std::string::String')

    def pre(e, st, c):
        k = c.inst
        if k in tr:
            return [(st, e.result_term(st, c))]
        if k and k in F.local and k not in asks and not disc(k) and not words.wordlevel(F.fns[k]):
            for a, t in zip(c.args, c.at):
                if ai.base_ty(re.sub(r"^&('\w+ )?(mut )?", '', t)) == words.CMD and handler(k):
                    res.append((st.fork(), deep(e, st, a), '%s:%s' % tuple(c.span[:2])))
                    return []
        mm = HM.match(c.name) or HM.match(c.res)
        if mm and mm.group(1) in READ and effects.mapkind(c.targs or []) == 'alias':
            what = deep(e, st, c.args[1])
            asked = proc.get(st, 'asked', ())
            hit = [y for x, y in asked if x is what]
            outs = []
            for found in ([hit[0] is not None] if hit else [True, False]):
                s = st.fork()
                if hit:
                    t = hit[0]
                else:
                    t = mk('in', 't%d' % len(asked), 'std::string::String') if found else None
                    proc.put(s, 'asked', asked + ((what, t),))
                    if what.k in ('in', 'app') and t is None:
                        pass
                if mm.group(1) == 'contains_key':
                    outs.append((s, TRUE if found else FALSE))
                    continue
                if not found:
                    outs.append((s, NONE))
                    continue
                loc = ('H', mk('in', 'al-' + t.a[0], 'std::string::String'))
                e.set_root(s, loc, t)
                r = mk('ref', loc, ())
                outs.append((s, r if mm.group(1) == 'index' else SOME(mk('tup', r, r) if mm.group(1) == 'get_key_value' else r)))
            return outs
        if c.name.startswith('std::str::<impl str>::split') and c.name.rsplit('::', 1)[1] in ('split_whitespace', 'split_ascii_whitespace', 'split'):
            v = deep(e, st, c.args[0])
            if v.k == 'in' and isinstance(v.a[0], str) and re.match(r't\d$', v.a[0]):
                i = int(v.a[0][1:])
                l = mk('vec', *[mk('in', ('q%d' if i == first(st) else 'z%d') % j, 'str') for j in range(m)])
                return [(st, mk('iter', l, 'v', I(0)))]
        return None

    def first(st):
        """the lookup of the command's own name"""
        for i, (x, y) in enumerate(proc.get(st, 'asked', ())):
            if leaves(x) == {'w0'}:
                return i
        return None
    e.pre.insert(0, pre)
    f = F.fns[key]
    st = ai.St()
    args = []
    loc = ('H', mk('in', 'cmd', words.CMD))
    ci = cmds.cmd_arg(f)
    for i, t in enumerate(proc.arg_types(f)):
        if i == ci:
            c = S.command(n)
            if ai.base_ty(t) == 'ast::Command':
                c = mk('adt', 'ast::Command', 'SimpleCommand', c)
            e.set_root(st, loc, c)
            args.append(mk('ref', loc, ()) if t.startswith('&') else c)
        else:
            args.append(mk('in', i + 1, t))
    try:
        outs = base.run(e, key, args, st)
    except ai.Budget as x:
        R.note('%s: %s' % (ob, x))
        R.ob(ob, 'undecided')
        return
    for s, v in outs:
        for p in p23.processes(deep(e, s, v)):
            res.append((s, p, where))
    R.functions |= e.stats['inlined']
    verdict = None
    for s, x, at in res:
        R.count('points where a command is handed on')
        asked = proc.get(s, 'asked', ())
        i = first(s)
        lst = []
        try:
            if x.k != 'adt':
                raise Lost(show(x, 2))
            rest = None
            if x.a[0] == p23.PROC:
                lst = items(e, s, e.proj(s, x, ('', sh[0])))
            else:
                lst, rest = parts(e, s, S, x)
            bad = judge(e, s, lst, rest, asked, i, n, m)
        except Changed as y:
            bad = str(y)
        except Lost as y:
            R.note('%s: %s' % (ob, y))
            verdict = verdict if verdict == 'violated' else 'undecided'
            continue
        if bad:
            verdict = 'violated'
            R.violation(bad.split(' (')[0].replace(' ', '-'), bad, at, ['command of %s words, alias of %d words' % (n, m), 'words handed on: %s' % ', '.join(show(deep(e, s, y), 3) for y in lst)])
        elif verdict is None:
            verdict = 'ok'
    R.ob(ob, verdict or 'undecided')


def parts(e, s, S, x):
    lst = [e.proj(s, x, ('', S.name))]
    suf = e.res(s, e.val(s, e.proj(s, x, ('', S.suffix))))
    red = leaves(deep(e, s, e.proj(s, x, ('', S.prefix))))
    some = e.is_variant(s, suf, 'Some')
    if some is True:
        y = e.val(s, e.proj(s, suf, ('Some', 0)))
        lst += items(e, s, e.proj(s, y, ('', S.words)))
        red |= leaves(deep(e, s, e.proj(s, y, ('', S.sred))))
    elif some is not False:
        raise Lost(show(suf, 2))
    return lst, red


def judge(e, s, lst, rest, asked, i, n, m):
    seq = []
    for x in lst:
        x = deep(e, s, x)
        l = leaves(x)
        if len(l) != 1:
            if any(isinstance(y, str) and re.match(r't\d$', y) for y in texts(x)):
                return 'the whole text of an alias becomes one word' if m > 1 else None
            if not l and x.k == 'str':
                return 'a word is added'
            raise Lost(show(x, 3))
        seq.append(next(iter(l)))
    own = ['w%d' % j for j in range(1, (n or 0) + 1)]
    hit = i is not None and asked[i][1] is not None
    want = ['q%d' % j for j in range(m)] + own if hit else ['w0'] + own
    if any(x[0] == 'z' for x in seq):
        return 'the replacement is looked up again' if any('q' in y[0] for x, t in asked for y in leaves(x)) else 'another word than the name of the command is replaced'
    if hit and 'q0' not in seq and seq[:1] == ['w0']:
        return 'the alias is not used'
    if i is None and not hit:
        return 'the alias table is not asked for the name'
    if rest is not None and not {'r0', 'a0'} | ({'r1'} if n is not None else set()) <= rest:
        return 'a redirection or an assignment of the command is lost'
    if seq == want:
        return None
    if not hit:
        return 'a command whose name is no alias is changed'
    if sorted(seq) == sorted(want):
        return 'the words of the alias and of the command are in the wrong order'
    if set(seq) < set(want):
        return 'a word of the alias or of the command is lost'
    return 'the words are not those of the alias followed by those of the command'


def texts(t, acc=None):
    acc = set() if acc is None else acc
    if isinstance(t, T):
        if t.k == 'in':
            acc.add(t.a[0])
        for x in t.a:
            if isinstance(x, T):
                texts(x, acc)
    return acc
