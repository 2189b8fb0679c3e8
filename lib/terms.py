"""Hash-consed abstract values."""
import itertools

INTERN = {}
_ctr = itertools.count()
EMPTY = frozenset()


class T:
    __slots__ = ('k', 'a', 'sites', 'n')

    def __repr__(self):
        return show(self)


def _collect(a, acc):
    for x in a:
        if isinstance(x, T):
            if x.sites:
                acc |= x.sites
        elif isinstance(x, tuple):
            acc = _collect(x, acc)
    return acc


def mk(k, *a):
    key = (k,) + a
    t = INTERN.get(key)
    if t is None:
        t = T()
        t.k = k
        t.a = a
        s = _collect(a, set())
        if k in ('call', 'hv', 'w', 'alloc'):
            s = set(s)
            s.add((a[0], a[1]))
        if k == 'ref' and a[0][0] == 'A':
            s = set(s)
            s.add((a[0][1], a[0][2]))
        t.sites = frozenset(s) if s else EMPTY
        t.n = next(_ctr)
        INTERN[key] = t
    return t


KNOWN = {'int', 'bool', 'char', 'str', 'tup', 'adt', 'vec', 'clo', 'fn', 'ref',
         'iter', 'enum', 'map', 'filter', 'rev', 'skip', 'take', 'zip', 'cloned', 'chain', 'peek', 'fmap', 'tw', 'args', 'once'}
CONST = {'int', 'bool', 'char', 'str'}

TRUE = mk('bool', True)
FALSE = mk('bool', False)
UNIT = mk('tup')
BOT = mk('bot')


def B(x):
    return TRUE if x else FALSE


def I(n):
    return mk('int', n)


def S(s):
    return mk('str', s)


OPT = 'std::option::Option'
RES = 'std::result::Result'
NONE = mk('adt', OPT, 'None')


def SOME(v):
    return mk('adt', OPT, 'Some', v)


def OK(v):
    return mk('adt', RES, 'Ok', v)


def ERR(v):
    return mk('adt', RES, 'Err', v)


def opaque(v):
    return v.k not in KNOWN


def subst(t, f, memo):
    """rebuild t bottom-up, applying f to every (already rebuilt) node that contains a site"""
    if isinstance(t, T):
        if not t.sites:
            return t
        r = memo.get(t)
        if r is None:
            r = f(mk(t.k, *[subst(x, f, memo) for x in t.a]))
            memo[t] = r
        return r
    if isinstance(t, tuple):
        return tuple(subst(x, f, memo) for x in t)
    return t


def show(t, d=6):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ','.join(show(x, d - 1) for x in t) + ')'
        return str(t)
    if d <= 0:
        return '…'
    k, a = t.k, t.a
    if k in ('int', 'bool'):
        return str(a[0])
    if k == 'str':
        return repr(a[0])
    if k == 'char':
        return "'%s'" % (a[0] if isinstance(a[0], str) else chr(a[0]))
    if k == 'adt':
        n = a[1] if a[1] else a[0].split('::')[-1]
        return n + ('(' + ','.join(show(x, d - 1) for x in a[2:]) + ')' if len(a) > 2 else '')
    if k == 'ref':
        return '&%s%s' % (show(a[0], d - 1), ''.join('.' + (str(e[1]) if not isinstance(e[1], T) else '[%s]' % show(e[1], d - 1)) for e in a[1]))
    if k == 'f':
        return '%s.%s%s' % (show(a[0], d - 1), (a[1] + '.') if a[1] else '', a[2])
    return k + '(' + ','.join(show(x, d - 1) for x in a) + ')'
