"""P06: redirections open the named file the right way, on the right descriptor."""
import re
import ai
import base
import cmds
import effects
import pipes
import proc
import words
from checks import p23
from pipes import tab
from proc import get, put
from terms import *
from words import Words, deep

RULE = ('(1) The code that starts a command is interpreted (MIR) over every path for commands with up to three redirections of every kind, before and after the name, with and without a descriptor number, keeping the table of descriptors of the '
        'child. Where the program is started (or the function evaluated) each redirected descriptor stands for the file named by the last redirection for it, opened read-only for <, write/create/truncate for >, append/create for >>; other '
        'descriptors are unchanged; no path on which a file could not be opened gets there, and such a child does not exit with 0. (2) Every function that rewrites a command, and the one that hands it on, keeps its lists of redirections.')
WANT = {'Input': {'read'}, 'Output': {'write', 'create', 'truncate'}, 'Append': {'append', 'create'}}
DEFAULT = {'Input': 0, 'Output': 1, 'Append': 1}


class Run(pipes.Launch):
    def __init__(self, F, R, key, n, bg, commands, reds, desc):
        self.R, self.key, self.reds, self.desc = R, key, reds, desc
        self.verdict = 'ok'
        self.seen = 0
        pipes.Launch.__init__(self, F, n, bg, commands)

    def bad(self, key, msg, st, c):
        if inside(st):
            self.verdict = 'violated'
        self.R.violation('%s@%s' % (key, c.fn) if inside(st) else key, msg, '%s:%s' % tuple(c.span[:2]), [self.desc] + ['descriptor %s: %s' % (show(a, 2), show(b, 4)) for a, b in tab(st)])

    def lose_(self, msg):
        self.R.note(msg)
        if self.verdict == 'ok':
            self.verdict = 'undecided'

    def on_exit(self, e, st, c):
        if not get(st, 'child') or not get(st, 'openfail'):
            return
        self.R.count('ends of a child whose file could not be opened')
        v = e.res(st, e.val(st, c.args[0])) if c.args else None
        if v is None or v.k != 'int' and not (e.decide(st, mk('pred', 'eq', v, I(0))) is False):
            return self.lose_('status %s of a child whose redirection failed' % (show(v, 3) if v is not None else '?'))
        if v.k == 'int' and v.a[0] % 256 == 0:
            self.bad('status', 'a command whose redirection failed ends with status zero', st, c)

    def on_bad_fd(self, e, st, c):
        if inside(st):
            self.bad('not-open', 'the command is not started: the descriptor of the file is closed before it is duplicated', st, c)

    def on_event(self, kind, e, st, c):
        within = inside(st)
        if get(st, 'lost'):
            return
        i = get(st, 'nth') if within else 0
        reds = self.reds[i] if i < len(self.reds) else []
        if not within:
            if reds and not self.background and self.n == 1:
                o = {a.a[0]: b for a, b in tab(st) if a.k == 'int'}
                if o.get(1) is S('out') and o.get(0) is S('in') and not get(st, 'openfail'):
                    self.bad('function-in-shell', 'a function run by the shell itself is run without its redirections', st, c)
            return
        self.seen += 1
        self.R.count('starts of a command judged')
        if get(st, 'openfail'):
            return self.bad('runs-anyway', 'a command is started although the file of one of its redirections could not be opened', st, c)
        t = {a.a[0]: b for a, b in tab(st) if a.k == 'int'}
        want = {}
        for kind_, label, num in reds:
            want[DEFAULT[kind_] if num is None else num] = (kind_, label)
        for fd, (kind_, label) in sorted(want.items()):
            o = t.get(fd)
            what = {'Input': '<', 'Output': '>', 'Append': '>>'}[kind_]
            if o is None or o.k != 'file':
                return self.bad('not-performed', 'a command is started without its redirection: descriptor %d is not the file of %s' % (fd, what), st, c)
            ls = pipes.labels(deep(e, st, o.a[0]))
            if ls != {label}:
                if not ls:
                    return self.lose_('file name %s' % show(o.a[0], 4))
                return self.bad('wrong-file', 'descriptor %d is not the file of its last redirection' % fd, st, c)
            fl = set(o.a[1])
            if any('?' in x for x in fl):
                return self.lose_('flags %s' % sorted(fl))
            if 'append' in fl:
                fl -= {'write'}
            if fl != WANT[kind_]:
                return self.bad('opened-%s' % kind_, 'the file of %s is opened with %s' % (what, ', '.join(sorted(o.a[1])) or 'nothing'), st, c)
        for fd in (0, 1, 2):
            if fd not in want and self.n == 1 and t.get(fd) is not S(('in', 'out', 'err')[fd]):
                return self.bad('other-descriptor', 'a redirection changes descriptor %d, which is not redirected' % fd, st, c)
        for fd, o in t.items():
            if o.k == 'file' and fd not in want:
                return self.bad('other-descriptor', 'a redirection changes descriptor %d, which is not redirected' % fd, st, c)


def inside(st):
    return get(st, 'child')


def shapes(F, thorough):
    ks = [k for k in pipes.kinds(F) if k in WANT]
    one = [(k, n) for k in ks for n in (None, 0, 1, 2, 7)]
    out = [[]] + [[x] for x in one]
    small = [(k, n) for k in ks for n in (None, 2)]
    out += [[x, y] for x in small for y in small]
    if thorough:
        out += [[x, y, z] for x in small for y in small for z in small]
    else:
        out += [[x, y, z] for x in small[:4] for y in small[1:5] for z in (small[0], small[-1])]
    return ks, out


def check(F, R):
    R.rule = RULE
    W = Words(F)
    keys = proc.pipeline_entry(F)
    ks, sh = shapes(F, R.tier == 'thorough')
    R.ob('redirections and the code that starts a command are found', 'ok' if keys and W.S.ok and len(ks) == 3 else 'undecided')
    if not keys or not W.S.ok or len(ks) != 3:
        return
    for key in keys:
        R.functions.add(key)
        for l in sh:
            places = [(0, len(l))] if not l else [(0, len(l)), (len(l), len(l))] if len(l) == 1 else [(0, len(l)), (1, len(l)), (len(l), len(l))] if R.tier == 'thorough' else [(0, len(l)), (1, len(l))]
            for cut, _ in places:
                for bg in (False, True) if len(l) <= 1 else (False,):
                    one(F, R, W, key, 1, bg, [(l, cut)])
        five = [('Output', 5), ('Append', 4), ('Input', None), ('Output', None), ('Append', 2)]
        one(F, R, W, key, 1, False, [(five, 0)])
        one(F, R, W, key, 1, False, [(five, 5)])
        one(F, R, W, key, 3, False, [([('Output', None)], 0), ([('Input', None), ('Append', 2)], 1), ([('Output', 2), ('Append', None)], 2)])
    survive(F, R, W)
    R.assume = ['descriptors 0, 1 and 2 of the shell are open when a command is started']


def one(F, R, W, key, n, bg, spec):
    cs, reds, txt = [], [], []
    for i, (l, cut) in enumerate(spec):
        rs = [(k, 'file%d_%d' % (i, j), num) for j, (k, num) in enumerate(l)]
        obj = [pipes.redirect(F, k, lab, num) for k, lab, num in rs]
        reds.append(rs)
        cs.append(pipes.command(W.S, i, obj[:cut] if cut else None, obj[cut:]))
        sym = {'Input': '<', 'Output': '>', 'Append': '>>'}
        t = ['%s%s file%d' % ('' if num is None else num, sym[k], j) for j, (k, num) in enumerate(l)]
        txt.append(' '.join(t[:cut] + ['command'] + t[cut:]))
    desc = ' | '.join(txt) + (' &' if bg else '')
    r = Run(F, R, key, n, bg, cs, reds, desc)
    try:
        r.run(key)
    except ai.Budget as x:
        r.lose_('%s: %s' % (desc, x))
    R.functions |= {x for x in r.e.stats['inlined'] if x in F.local}
    for m in r.lost:
        r.lose_(m)
    if not r.seen:
        r.lose_('no start of a command')
    for k, v in r.count.items():
        R.count(k, v)
    R.ob(desc, r.verdict)


def lists(e, s, S_, c):
    """the two lists of redirections of a command, as terms"""
    out = []
    for opt, i in ((S_.prefix, S_.pred), (S_.suffix, S_.sred)):
        v = e.res(s, e.val(s, e.proj(s, c, ('', opt))))
        some = e.is_variant(s, v, 'Some')
        if some is None:
            out.append(None)
        elif not some:
            out.append(())
        else:
            l = e.res(s, e.val(s, e.proj(s, e.val(s, e.proj(s, v, ('Some', 0))), ('', i))))
            try:
                out.append(tuple(words.items(e, s, l)))
            except (words.Lost, words.Changed) as x:
                out.append('changed' if isinstance(x, words.Changed) else None)
    return out


def survive(F, R, W):
    S_ = W.S
    tr, makers, cons = p23.kinds(F)
    want = {0: mk('in', 'r0', 'ast::IoRedirect'), 1: mk('in', 'r1', 'ast::IoRedirect')}

    def judge(e, s, c, k, where, ob, n):
        l = lists(e, s, S_, c)
        verdict = 'ok'
        for j, x in enumerate(l):
            exp = (want[j],) if j == 0 or n is not None else ()
            if x is None:
                R.note('%s: redirections not followed' % ob)
                verdict = 'undecided' if verdict == 'ok' else verdict
            elif x == 'changed' or tuple(e.res(s, y) for y in x) != exp:
                if x != 'changed' and any(pipes.labels(y) - {'r0', 'r1'} for y in x):
                    verdict = 'undecided' if verdict == 'ok' else verdict
                    continue
                verdict = 'violated'
                R.violation('list%d@%s' % (j, k), '%s: the redirections %s the name are not those of the command' % (k, ('before', 'after')[j]), where, ['command with %s' % ('a suffix' if n is not None else 'no suffix')])
        return verdict

    def worst(a, b):
        o = ['ok', 'undecided', 'violated']
        return o[max(o.index(a), o.index(b))]
    for k in sorted(tr):
        f = F.fns[k]
        ob = 'redirections after %s' % k
        verdict = 'ok'
        R.functions.add(k)
        for n in (None, 0, 2):
            e = W.engine()
            st = ai.St()
            loc = ('H', mk('in', 'cmd', words.CMD))
            args = []
            for i in range(1, f['nargs'] + 1):
                if i in p23.argidx(f, words.CMD):
                    e.set_root(st, loc, S_.command(n))
                    args.append(mk('ref', loc, ()))
                else:
                    args.append(mk('in', i, f['locals'][i]['ty']))
            try:
                outs = base.run(e, k, args, st)
            except ai.Budget:
                verdict = worst(verdict, 'undecided')
                continue
            for s, v in outs:
                R.count('paths through functions that rewrite a command')
                verdict = worst(verdict, judge(e, s, e.load(s, loc, ()), k, '%s:%s' % tuple(f['span'][:2]), ob, n))
        R.ob(ob, verdict)
    # what is handed on with the process
    stop = cmds.stops(F)
    for key in sorted(cmds.entries(F)):
        f = F.fns[key]
        ob = 'redirections handed on by %s' % key
        verdict, seen = 'ok', 0
        for n in (None, 0, 2):
            def pol(e, st, c, kk):
                g = F.fns[kk]
                if not g['local'] or g.get('closure'):
                    return 'inline'
                if words.wordlevel(g):
                    return 'opaque'
                if 'jobs::Process' in g['locals'][0]['ty'] or kk in cons:
                    return 'inline'
                return 'opaque' if effects.reach(F, kk, stop) or proc.limited_reach(F, kk, set())[0] & (base.FORK | base.EXEC) else 'inline'
            e = W.engine(pol)

            def pre(e, st, c):
                if c.inst in tr and 'jobs::Process' not in F.fns[c.inst]['locals'][0]['ty']:
                    return [(st, e.result_term(st, c))]
                if c.name in pipes.OPENERS:
                    put(st, 'opens', True)
                k = c.inst
                if k and k in F.local and not F.fns[k].get('closure') and p23.argidx(F.fns[k], words.CMD) and pol(e, st, c, k) == 'opaque' and n is not None:
                    R.count('calls of builtins')
                    if not get(st, 'opens'):
                        R.violation('builtin-in-shell', 'a builtin is run without the redirections of its command', '%s:%s' % tuple(c.span[:2]))
                return None
            e.pre.insert(0, pre)
            st = ai.St()
            loc = ('H', mk('in', 'cmd', words.CMD))
            args = []
            ci = cmds.cmd_arg(f)
            for i, t in enumerate(proc.arg_types(f)):
                if i == ci:
                    c = S_.command(n)
                    if ai.base_ty(t) == 'ast::Command':
                        c = mk('adt', 'ast::Command', 'SimpleCommand', c)
                    e.set_root(st, loc, c)
                    args.append(mk('ref', loc, ()) if t.startswith('&') else c)
                else:
                    args.append(mk('in', i + 1, t))
            try:
                outs = base.run(e, key, args, st)
            except ai.Budget:
                verdict = worst(verdict, 'undecided')
                continue
            for s, v in outs:
                for c in commands(deep(e, s, v)):
                    seen += 1
                    R.count('commands handed on with their process')
                    verdict = worst(verdict, judge(e, s, c, key, '%s:%s' % tuple(f['span'][:2]), ob, n))
        R.ob(ob, verdict if seen else worst(verdict, 'undecided'))


def commands(t, acc=None):
    acc = [] if acc is None else acc
    if isinstance(t, T):
        if t.k == 'adt' and t.a[0] == words.CMD:
            acc.append(t)
            return acc
        for x in t.a:
            if isinstance(x, T):
                commands(x, acc)
    return acc
