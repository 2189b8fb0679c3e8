"""P32: a function call sees its own arguments and its body alone."""
import re
import ai
import base
import cmds
import proc
import words
from checks import p12, p14
from checks.p23 import argidx
from words import Words, deep, leaves
from terms import *

RULE = ('(1) The function that calls a shell function is interpreted (MIR) with a command of 0 to 12 words (thorough: 30) of unknown text on a stack of scopes of unknown contents. Where it evaluates a body, that body is the entry found under the name of the '
        'command; the innermost scope is a new one, holding the name as 0 and each word of the call under its number, nothing else; the scopes of the caller are as before; the body is evaluated once, and the status returned is the one of the '
        'body, or not zero where that failed. (2) A definition enters the body of the definition under its name.')
SPLITS = re.compile(r'^std::str::<impl str>::(split|splitn|split_once|contains|find|split_terminator)$')
UNITY = re.compile(r'^(\(\)|std::result::Result<\(\),.*)$')   # ends without a status: a builtin


def callers(F):
    """functions that open a scope for, and evaluate, a function looked up by the name of a command"""
    live = F.reach('main')[1]
    bound = set(cmds.stops(F))
    push = {k for k in live if k in F.local and 1 in p12.direct(F, k)}
    looks = {k for k in live if k in F.local and p14.kind(F, k) == ('func', 'look')}
    out = set()
    for k in sorted(live):
        f = F.fns.get(k)
        if k not in F.local or f.get('closure') or not argidx(f, words.CMD) or k in bound:
            continue
        r = proc.limited_reach(F, k, bound | builtin_entries(F))[1]
        if k in builtin_entries(F):
            continue
        evals = r & bound or bound & {i for x in r | {k} if x in F.fns for _, i in F.callees.get(x, ()) if i}
        if r & push and r & looks and evals:
            out.add(k)
    inner = set()
    for k in out:
        if proc.limited_reach(F, k, bound)[1] & (out - {k}):
            inner.add(k)
    return (out - inner) or out


def builtin_entries(F):
    return {k for k in F.local if k in F.fns and UNITY.match(F.fns[k]['locals'][0]['ty']) and argidx(F.fns[k], words.CMD)}


def check(F, R):
    R.rule = RULE
    W = Words(F)
    M = p14.Model(F)
    if not W.S.ok or not M.ok:
        R.ob('commands and scopes are found', 'undecided')
        return
    M.scopes = M.scopes[:2]
    cs = callers(F)
    R.ob('the call of a function is found', 'ok' if cs else 'undecided')
    for k in sorted(cs):
        R.functions.add(k)
        for n in (None, 0, 1, 2, 3, 4, 5, 8, 12, 30) if R.tier == "thorough" else (None, 1, 2, 4, 12):
            call(F, R, W, M, k, n)
    define(F, R, M)


def policy(F, stop):
    def pol(e, st, c, k):
        g = F.fns[k]
        if not g['local'] or g.get('closure'):
            return 'inline'
        if k in stop or proc.limited_reach(F, k, set())[0] & (base.FORK | base.EXEC):
            return 'opaque'
        if words.wordlevel(g) and not p14.mapops(F, k) and 'context' not in g['locals'][0]['ty']:
            return 'opaque'
        return 'inline'
    return pol


def engine(F, W):
    stop = cmds.stops(F)
    pol = policy(F, stop)
    e = W.engine(pol)
    e.disj, e.mem_disj, e.gens = 64, 300, 60
    e.widen_at = 60

    def pre(e, st, c):
        if c.res.endswith('as std::clone::Clone>::clone') and c.rty.startswith('ast::'):
            return [(st, deep(e, st, c.args[0]))]
        if SPLITS.match(c.name) and len(c.args) > 1:
            # set texts made here: a name without separators, then the first `=`
            v = e.val(st, c.args[0])
            p = e.val(st, c.args[2 if c.name.endswith('splitn') else 1])
            sep = p.a[0] if p.k == 'str' else chr(p.a[0]) if p.k == 'char' else None
            if v.k == 'in' and v.a[0] == 'w0' and sep == '::':
                # a plain name
                return [(st, FALSE if c.name.endswith('contains') else NONE if c.name.endswith(('split_once', 'find')) else mk('iter', mk('vec', v), 'v', I(0)))]
        return None
    e.pre.insert(0, pre)
    return e, pol, stop


def call(F, R, W, M, k, n):
    f = F.fns[k]
    where = '%s:%s' % tuple(f['span'][:2])
    ob = '%s with %s' % (k, 'no words' if not n else '%d words' % n)
    e, pol, stop = engine(F, W)
    sloc, spath = e.deref(mk('static', 'shell::SHELL'))
    verdict = ['ok']
    seen = [0]
    fi, vi = M.funs, M.vars

    def bad(msg, st=None, lines=()):
        verdict[0] = 'violated'
        R.violation('%s@%s' % (msg.replace(' ', '-').replace('$', ''), k), '%s: %s' % (k, msg), where, ['command of %s words' % n] + list(lines))

    def lost(msg):
        R.note('%s: %s' % (ob, msg))
        if verdict[0] == 'ok':
            verdict[0] = 'undecided'

    def event(st, c):
        seen[0] += 1
        R.count('evaluations of a body judged')
        stack = e.res(st, e.val(st, e.load(st, sloc, spath + (('', M.mgr), ('', M.stack)))))
        l = stack_items(e, st, stack)
        if l is None:
            return lost('stack of scopes %s' % show(stack, 3))
        new = [x for x in l if x not in M.scopes]
        if not new:
            return bad('the body is evaluated in the scope of the caller')
        if len(new) > 1 or l[-1] is not new[0]:
            return lost('new scopes')
        for x in M.scopes:
            ch = [p14.changes(e, st, M, x, i) for i in (vi, fi)]
            if None in ch:
                return lost('scope of the caller')
            if any(ch):
                return bad('a call changes a scope of the caller')
        top = new[0]
        while top.k == 'ref':
            y = e.load(st, *top.a)
            if y.k != 'ref':
                break
            top = y
        mp = e.res(st, e.val(st, e.load(st, top.a[0], top.a[1] + (('', vi),)) if top.k == 'ref' else e.proj(st, top, ('', vi))))
        got = {}
        steps = 0
        while mp.k == 'ins' and steps < 99:
            steps += 1
            key = e.res(st, e.val(st, mp.a[1]))
            if key.k != 'str':
                return lost('name %s' % show(key, 3))
            got.setdefault(key.a[0], mp.a[2])
            mp = e.res(st, e.val(st, mp.a[0]))
        if mp.k != 'emptymap':
            return lost('scope %s' % show(mp, 3))
        want = {str(i): 'w%d' % i for i in range((n or 0) + 1)}
        for i, w in sorted(want.items()):
            if i not in got:
                return bad('$%s is missing' % i, lines=['names in the new scope: %s' % ', '.join(sorted(got))])
            v = valued(F, deep(e, st, got[i]))
            if 'w(' in show(v, 9) or 'join(' in show(v, 9):
                return lost('value of %s' % i)
            ls = leaves(v)
            if ls != {w}:
                # the names of a set text may be kept with it
                if not ls:
                    return lost('value of %s: %s' % (i, show(v, 4)))
                return bad('$%s is not the %s' % (i, 'name' if i == '0' else 'word of that number'), lines=['it is made from %s' % ', '.join(sorted(ls))])
            al = altered(v)
            if al is True:
                return bad('$%s is not the whole word' % i, lines=[show(v, 5)])
            if al:
                return lost('value of %s: %s' % (i, show(v, 4)))
        more = sorted(set(got) - set(want))
        if any(x.isdigit() for x in more):
            return bad('there are more numbered variables than words', lines=more)
        # the body
        srcs = set()
        for a in c.args:
            srcs |= funs(deep(e, st, a), M)
        if not srcs:
            return lost('body %s' % ', '.join(show(deep(e, st, a), 3) for a in c.args))
        for key in srcs:
            if leaves(key) != {'w0'}:
                return bad('the body is not the one of the name called')
            al = altered(key)
            if al is True:
                return bad('the body is not the one of the name called', lines=[show(key, 5)])
            if al:
                lost('name looked up: %s' % show(key, 4))

    def pre(e, st, c):
        kk = c.inst
        if kk and kk in F.local and pol(e, st, c, kk) == 'opaque' and not words.wordlevel(F.fns[kk]) and any('ast::' in t and 'SimpleCommand' not in t for t in c.at):
            event(st, c)
            out = []
            for s, v in e.opaque_call(st, c, kk):
                proc.put(s, 'ran', proc.get(s, 'ran', ()) + (v,))
                out.append((s, v))
            return out
        return None
    e.pre.insert(0, pre)
    st = ai.St()
    loc = ('H', mk('in', 'cmd', words.CMD))
    e.set_root(st, loc, W.S.command(n))
    e.store(st, sloc, spath, M.shell())
    args = [mk('ref', loc, ()) if i in argidx(f, words.CMD) else mk('in', i, f['locals'][i]['ty']) for i in range(1, f['nargs'] + 1)]
    try:
        outs = base.run(e, k, args, st)
    except ai.Budget as x:
        lost(str(x))
        R.ob(ob, verdict[0])
        return
    R.functions |= {x for x in e.stats['inlined'] if x in F.local}
    for s, v in outs:
        R.count('paths judged')
        ran = proc.get(s, 'ran', ())
        held = [e.decide(s, mk('pred', 'mhas', p14.initial(e, x, fi), w0())) for x in M.scopes]
        if not ran:
            if any(h is True for h in held):
                bad('a function that is defined is not run')
            continue
        if len(ran) > 1:
            bad('the body is evaluated more than once')
            continue
        judge_status(e, s, v, ran[0], bad, lost)
    if not seen[0]:
        lost('no evaluation of a body')
    R.ob(ob, verdict[0])


def judge_status(e, s, v, r, bad, lost):
    v = e.res(s, e.val(s, v))
    r = e.res(s, e.val(s, r))
    rok = e.is_variant(s, r, 'Ok')
    vok = e.is_variant(s, v, 'Ok')
    if rok is None:
        # passed on as it is?
        if v is r:
            return
        rok = None
    if vok is True:
        x = e.res(s, e.proj(s, v, ('Ok', 0)))
        if rok is True:
            y = e.res(s, e.proj(s, r, ('Ok', 0)))
            if x is y:
                return
            if x.k == 'int' and y.k != 'int' or x.k not in ('int',) and not has(x, y) and known(x):
                return bad('the status of the call is not that of the body')
            return lost('status %s' % show(x, 3))
        if rok is False:
            if x.k == 'int' and x.a[0] == 0:
                return bad('a call whose body fails has status zero')
            return
        if x.k == 'int':
            return bad('the status of the call is not that of the body')
        return lost('status %s' % show(x, 3))
    if vok is False:
        if rok is True:
            return bad('a call whose body succeeds is reported as failed')
        return
    if v is not r:
        lost('status %s' % show(v, 3))


def known(t):
    return t.k in ('int', 'in')


def has(t, x):
    return t is x or isinstance(t, T) and any(has(y, x) for y in t.a if isinstance(y, T))


def altered(v):
    """None: the word itself; True: changed by an operation that loses text; '?': not known"""
    while v.k == 'app' and isinstance(v.a[0], str) and v.a[0].startswith('by:') and len(v.a) > 1:
        v = v.a[1]
    if v.k == 'in':
        return None
    while True:
        if v.k in ('before', 'after') and isinstance(v.a[0], T):
            if plain(v.a[1:]):
                return True
        elif v.k == 'app' and isinstance(v.a[0], str) and re.search(r'::(replace|replacen|to_lowercase|to_uppercase|to_ascii_lowercase|to_ascii_uppercase|repeat)$', v.a[0]):
            if plain(v.a[2:]):
                return True
        elif v.k != 'app':
            return '?'
        nx = [x for x in v.a if isinstance(x, T) and leaves(x)]
        if len(nx) != 1:
            return '?'
        v = nx[0]
        if v.k == 'in':
            return '?'


def plain(args):
    """constants without a quote in them"""
    return all(x.k in ('str', 'char', 'int') and not (x.k == 'str' and set(x.a[0]) & set('"\'\\') or x.k == 'char' and x.a[0] in (34, 39, 92)) for x in args if isinstance(x, T))


def valued(F, v):
    """the text of a variable without its name"""
    if v.k == 'adt':
        a = F.adts.get(v.a[0])
        if a and len(a['variants']) == 1:
            fs = [i for i, x in enumerate(a['variants'][0]['fields']) if x == 'value']
            if len(fs) == 1:
                return v.a[2 + fs[0]]
    return v


def w0():
    return mk('in', 'w0', 'std::string::String')


def stack_items(e, st, v):
    v = e.res(st, e.val(st, v))
    if v.k == 'vec':
        return list(v.a)
    if v.k == 'push':
        l = stack_items(e, st, v.a[0])
        return None if l is None else l + [v.a[1]]
    return None


def funs(t, M, acc=None):
    """keys under which functions found in the term were looked up"""
    acc = set() if acc is None else acc
    if isinstance(t, T):
        if t.k == 'mval' and (any(p14.uses(t.a[0], c) for c in M.scopes) or p14.uses(t.a[0], M.exp)):
            acc.add(t.a[1])
        for x in t.a:
            if isinstance(x, T):
                funs(x, M, acc)
    return acc


def define(F, R, M):
    """a definition enters its own body under its own name"""
    ty = 'ast::FunctionDefinition'
    live = F.reach('main')[1]
    if ty not in F.adts:
        R.ob('definitions are found', 'undecided')
        return
    stop = set(cmds.stops(F))
    puts = {k for k in live if k in F.local and p14.kind(F, k) == ('func', 'put')}
    cand = []
    for k in sorted(live):
        f = F.fns.get(k)
        if k in F.local and not f.get('closure') and k not in stop and (argidx(f, ty) or argidx(f, 'ast::Command')) and proc.limited_reach(F, k, stop)[1] & puts:
            cand.append(k)
    own = [k for k in cand if argidx(F.fns[k], ty)] or cand
    R.ob('definitions are found', 'ok' if own else 'undecided')
    v = F.adts[ty]['variants'][0]
    for k in own:
        f = F.fns[k]
        R.functions.add(k)
        where = '%s:%s' % tuple(f['span'][:2])
        W = Words(F)
        e, pol, _ = engine(F, W)
        verdict = []
        name = [i for i, t in enumerate(v['ftys']) if t == 'std::string::String']
        body = [i for i, t in enumerate(v['ftys']) if 'FunctionBody' in t]
        if len(name) != 1 or len(body) != 1:
            R.ob('the definition by %s' % k, 'undecided')
            continue
        d = mk('adt', ty, '', *[mk('in', 'w0', 'std::string::String') if i == name[0] else mk('in', 'body', t) if i == body[0] else mk('in', 'd%d' % i, t) for i, t in enumerate(v['ftys'])])

        def pre(e, st, c):
            if c.inst in puts:
                a = [deep(e, st, x) for x in c.args]
                txt = [x for x, t in zip(a, c.at) if p14.textual(t)]
                bod = [x for x, t in zip(a, c.at) if 'FunctionBody' in t]
                proc.put(st, 'put', proc.get(st, 'put', 0) + 1)
                okn = len(txt) == 1 and leaves(txt[0]) == {'w0'}
                okb = len(bod) == 1 and has(bod[0], mk('in', 'body', v['ftys'][body[0]]))
                al = altered(txt[0]) if okn else '?'
                if al is True:
                    R.violation('name@%s' % k, '%s enters the function under another name than that of the definition' % k, where)
                verdict.append('violated' if al is True else 'ok' if okn and okb and al is None else 'undecided')
                return [(st, UNIT)]
            return None
        e.pre.insert(0, pre)
        st = ai.St()
        loc = ('H', mk('in', 'def', ty))
        if argidx(f, ty):
            e.set_root(st, loc, d)
        else:
            e.set_root(st, loc, mk('adt', 'ast::Command', 'FunctionDefinition', d))
        args = [mk('ref', loc, ()) if i in argidx(f, ty) + argidx(f, 'ast::Command') else mk('in', i, f['locals'][i]['ty']) for i in range(1, f['nargs'] + 1)]
        try:
            outs = base.run(e, k, args, st)
        except ai.Budget:
            R.ob('the definition by %s' % k, 'undecided')
            continue
        for s, x in outs:
            R.count('paths judged')
            n = proc.get(s, 'put', 0)
            if n == 0 and e.is_variant(s, x, 'Err') is not True:
                verdict.append('violated')
                R.violation('undefined@%s' % k, '%s can end without having defined the function' % k, where)
        R.ob('the definition by %s' % k, 'violated' if 'violated' in verdict else 'ok' if verdict and set(verdict) == {'ok'} else 'undecided')
