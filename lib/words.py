"""Order and provenance of the words of a command: lists of words are followed symbolically, each word carrying the input
word(s) it was made from."""
import re
import ai
import base
import facts
import proc
from terms import *

CMD = 'ast::SimpleCommand'
SUF = 'ast::Suffix'
PRE = 'ast::Prefix'


LOSSY = {'retain': 'a filter drops words', 'dedup': 'equal words are dropped', 'sort': 'the words are sorted', 'sort_by': 'the words are sorted', 'sort_unstable': 'the words are sorted', 'sort_by_key': 'the words are sorted', 'reverse': 'the words are reversed'}


class Changed(Exception):
    """a list changed by an operation that drops or moves elements"""


class Lost(Exception):
    """a list or word that cannot be followed"""


def fieldno(F, ty, pred):
    v = F.adts[ty]['variants'][0]
    r = [i for i, t in enumerate(v['ftys']) if pred(v['fields'][i], t)]
    return r[0] if len(r) == 1 else None


class Shape:
    """where name, suffix, prefix and the word lists are"""

    def __init__(self, F):
        self.F = F
        self.ok = all(t in F.adts for t in (CMD, SUF, PRE))
        if not self.ok:
            return
        self.name = fieldno(F, CMD, lambda n, t: t == 'std::string::String')
        self.suffix = fieldno(F, CMD, lambda n, t: SUF in t)
        self.prefix = fieldno(F, CMD, lambda n, t: PRE in t)
        self.words = fieldno(F, SUF, lambda n, t: t == 'std::vec::Vec<std::string::String>')
        self.sred = fieldno(F, SUF, lambda n, t: 'IoRedirect' in t)
        self.assign = fieldno(F, PRE, lambda n, t: t == 'std::vec::Vec<std::string::String>')
        self.pred = fieldno(F, PRE, lambda n, t: 'IoRedirect' in t)
        self.ok = None not in (self.name, self.suffix, self.prefix, self.words, self.sred, self.assign, self.pred)

    def adt(self, ty, kv):
        v = self.F.adts[ty]['variants'][0]
        return mk('adt', ty, '', *[kv[i] if i in kv else mk('in', 'x-%s' % n, v['ftys'][i]) for i, n in enumerate(v['fields'])])

    def command(self, n, prefix=True, tag='w'):
        """a command of a name and n words (n None: without a suffix)"""
        W = [mk('in', '%s%d' % (tag, i), 'std::string::String') for i in range((n or 0) + 1)]
        suf = NONE if n is None else SOME(self.adt(SUF, {self.words: mk('vec', *W[1:]), self.sred: mk('vec', mk('in', 'r1', 'ast::IoRedirect'))}))
        pre = SOME(self.adt(PRE, {self.assign: mk('vec', mk('in', 'a0', 'std::string::String')), self.pred: mk('vec', mk('in', 'r0', 'ast::IoRedirect'))})) if prefix else NONE
        return self.adt(CMD, {self.name: W[0], self.suffix: suf, self.prefix: pre})


def wordlevel(f):
    """a local function on texts only: no command, no list of words among its arguments"""
    if f.get('closure'):
        return False
    for i in range(1, f['nargs'] + 1):
        t = f['locals'][i]['ty']
        if 'ast::' in t or 'Vec<' in t or '[' in t or 'jobs::' in t or 'Iter' in t:
            return False
    return f['nargs'] > 0


class Words:
    def __init__(self, F, pieces=2):
        self.F = F
        self.S = Shape(F)
        self.pieces = pieces
        self.calls = []

    def engine(self, policy=None):
        F = self.F
        e = ai.Engine(F)
        e.disj, e.mem_disj, e.widen_at, e.max_states = 64, 600, 12, 20000
        e.on_panic = lambda *a: None

        def pol(e, st, c, k):
            f = F.fns[k]
            if not f['local'] or f.get('closure'):
                return 'inline'
            return 'opaque' if wordlevel(f) else 'inline'
        e.policy = policy or pol
        me = self

        def pre(e, st, c):
            k = c.inst
            if not k or k not in F.local or not wordlevel(F.fns[k]):
                return None
            if policy and policy(e, st, c, k) != 'opaque':
                return None
            # a function on texts: what it gives is made from what it is given
            vals = [deep(e, st, a) for a in c.args]
            if not any(leaves(v) for v in vals):
                return None
            r = []
            for s, v in e.opaque_call(st, c, k):
                for i, (a, t) in enumerate(zip(c.args, c.at)):
                    if t.startswith('&mut ') and 'String' in t:
                        loc, path = e.deref(a)
                        e.store(s, loc, path, mk('app', 'by:' + c.res, I(i), *vals))
                if re.search(r'String|str\b', c.rty):
                    for x in me.fromtype(c.rty, c.res, vals):
                        r.append((s.fork(), x))
                else:
                    r.append((s, v))
            return r
        e.pre.append(pre)
        return e

    def fromtype(self, t, name, vals):
        """the values of type t made from the texts given: the alternatives"""
        m = re.match(r'\((.*)\)$', t)
        if m:
            alts = [[]]
            for i, p in enumerate(split(m.group(1))):
                alts = [a + [x] for a in alts for x in self.fromtype(p, '%s.%d' % (name, i), vals)]
            return [mk('tup', *a) for a in alts]
        if t.startswith('std::option::Option<'):
            return [NONE] + [SOME(x) for x in self.fromtype(t[len('std::option::Option<'):-1], name, vals)]
        if re.match(r'std::vec::Vec<(std::string::String|&.*str)>$', t):
            return [mk('vec', *[mk('app', 'by:' + name, mk('piece', i), *vals) for i in range(self.pieces)])]
        return [mk('app', 'by:' + name, *vals)]


def split(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([':
            d += 1
        elif ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def deep(e, s, v, n=0):
    """the value with references followed"""
    if not isinstance(v, T) or n > 12:
        return v
    o = v
    while o.k == 'ref' and n < 20:
        o = e.load(s, *o.a)
        n += 1
    v = e.val(s, o)
    if v.k in ('str', 'char', 'int') and leaves(o):
        # a word compared with a constant stays that word
        return o
    if v.k == 'ref':
        return deep(e, s, e.load(s, *v.a), n + 1)
    if any(isinstance(x, T) for x in v.a):
        return mk(v.k, *[deep(e, s, x, n + 1) for x in v.a])
    return v


def leaves(t, acc=None):
    """names of the input words in a term"""
    acc = set() if acc is None else acc
    if isinstance(t, T):
        if t.k == 'in' and isinstance(t.a[0], str) and re.match(r'[warqz]\d+$', t.a[0]):
            acc.add(t.a[0])
        for x in t.a:
            if isinstance(x, T):
                leaves(x, acc)
            elif isinstance(x, tuple):
                for y in x:
                    leaves(y, acc)
    return acc


def pieces(t, acc=None):
    acc = [] if acc is None else acc
    if isinstance(t, T):
        if t.k == 'piece':
            acc.append(t.a[0])
        for x in t.a:
            if isinstance(x, T):
                pieces(x, acc)
    return acc


def items(e, s, v, n=0):
    """the elements of a list value, in order; Lost where it is not known"""
    v = e.res(s, e.val(s, v))
    if n > 64:
        raise Lost('too long')
    if v.k == 'ref':
        return items(e, s, e.load(s, *v.a), n + 1)
    if v.k == 'vec':
        return list(v.a)
    if v.k == 'push':
        return items(e, s, v.a[0], n + 1) + [v.a[1]]
    if v.k == 'append':
        return items(e, s, v.a[0], n + 1) + items(e, s, v.a[1], n + 1)
    if v.k == 'app' and v.a[0] in LOSSY and isinstance(v.a[1], T):
        items(e, s, v.a[1], n + 1)
        raise Changed(LOSSY[v.a[0]])
    raise Lost(show(v, 3))
