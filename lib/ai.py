"""Path-sensitive abstract interpreter over the MIR facts.

Values are terms (terms.py): constants, known aggregates, references to abstract locations, and
uninterpreted terms for whatever the program reads from outside.  A state carries memory, facts about
terms learned from branches, difference bounds between integer terms, and a monitor (the typestate of
the property being decided).  No path is handed to a solver: branch feasibility is decided by the
facts and bounds alone, loops are iterated to a fixpoint with widening.
"""
import heapq
import sys
import re
import time
from terms import *
from facts import norm

sys.setrecursionlimit(20000)


DEADLINE = None


FNCALL = {'std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call'}


class Budget(Exception):
    pass


class Zn(dict):
    """difference bounds, with the distances already computed"""
    __slots__ = ('memo',)

    def __init__(self, *a):
        dict.__init__(self, *a)
        self.memo = {}

    def __setitem__(self, k, v):
        dict.__setitem__(self, k, v)
        self.memo = {}

    def __delitem__(self, k):
        dict.__delitem__(self, k)
        self.memo = {}

    def update(self, *a):
        dict.update(self, *a)
        self.memo = {}

    def pop(self, *a):
        self.memo = {}
        return dict.pop(self, *a)

    def copy(self):
        n = Zn(self)
        n.memo = self.memo
        return n


class St:
    __slots__ = ('fr', 'own', 'heap', 'hown', 'facts', '_zn', 'mon', 'cnt', 'loops', 'trace')

    @property
    def zn(self):
        return self._zn

    @zn.setter
    def zn(self, z):
        self._zn = z if type(z) is Zn else Zn(z)

    def __init__(self):
        self.fr = {}
        self.own = set()
        self.heap = {}
        self.hown = True
        self.facts = {}
        self.zn = {}
        self.mon = ()
        self.cnt = {}
        self.loops = {}
        self.trace = None

    def fork(self):
        n = St.__new__(St)
        n.fr = dict(self.fr)
        n.own = set()
        self.own = set()
        n.heap = self.heap
        self.hown = False
        n.hown = False
        n.facts = dict(self.facts)
        n._zn = self._zn.copy()
        n.mon = self.mon
        n.cnt = dict(self.cnt)
        n.loops = dict(self.loops)
        n.trace = self.trace
        return n

    def event(self, *e):
        self.trace = (self.trace, e)

    def events(self):
        out, t = [], self.trace
        while t:
            out.append(t[1])
            t = t[0]
        return out[::-1]


class Call:
    """one call site being interpreted"""
    __slots__ = ('name', 'res', 'inst', 'xinst', 'local', 'targs', 'args', 'at', 'rty', 'site', 'span', 'fn', 'fid', 'diverges', 'path')

    def where(self):
        return '%s:%s' % tuple(self.span) if self.span else '?'


def base_ty(ty):
    """strip references"""
    while True:
        if ty.startswith('&mut '):
            ty = ty[5:]
        elif ty.startswith('&'):
            ty = ty[1:]
            if ty.startswith("'"):
                ty = ty.split(' ', 1)[1]
        else:
            return ty


def ty_head(ty):
    return ty.split('<', 1)[0]


class Engine:
    def __init__(self, facts):
        self.F = facts
        self.frames = {}        # (caller fid, block, key) -> fid
        self.frame_info = [None]
        self.hooks = {}         # normalised name -> fn(eng, st, call)
        self.pre = []           # fn(eng, st, call) -> None | [(st, val)]
        self.on_panic = None    # fn(eng, st, fid, what, span)
        self.on_diverge = None  # fn(eng, st, call)
        self.on_drop = None
        self.mon_widen = False  # compare loop iterations only with those in the same monitor state
        self.on_head = None     # fn(eng, st, fid, block, back edge?)
        self.rec = {}           # function -> how many nested inlined calls of itself are allowed
        self.on_assign = None   # fn(eng, st, function, frame, place, location, path, value, span) before an assignment through a projection
        self.on_iter = None     # fn(eng, st, call, iterator, element or None, element type)
        self.models = {}
        self.prefix_models = []
        self.policy = None      # fn(eng, st, call, key) -> 'inline'|'opaque'
        self.steps = 0
        self.max_steps = 3000000
        self.max_states = 4000
        self.gens = 2           # results of one site told apart
        self.ages = {}
        self.disj = 6           # disjuncts kept per program point and memory
        self.widen_at = 2
        self.mem_disj = 48      # memories kept per program point
        self.stack = []
        self.order = {}
        self.unsigned_ops = {'len', 'pos', 'nlen'}
        self.stats = {'inlined': set(), 'opaque': {}, 'calls': 0, 'paths': 0, 'merges': 0, 'widen': 0, 'unmodelled': {}}
        self.nul_ok = True
        self._dv = {}
        self.lazy = {'<%s as std::ops::Deref>::deref' % s: s for s in facts.statics}
        import models
        models.install(self)

    # ------------------------------------------------------------------ memory
    def frame(self, st, fid):
        d = st.fr.get(fid)
        if d is None:
            d = st.fr[fid] = {}
            st.own.add(fid)
        elif fid not in st.own:
            d = st.fr[fid] = dict(d)
            st.own.add(fid)
        return d

    def root(self, st, loc):
        k = loc[0]
        if k == 'L':
            d = st.fr.get(loc[1])
            v = d.get(loc[2]) if d else None
            return v if v is not None else mk('uninit', loc[1], loc[2])
        if k == 'K':
            return loc[1]
        v = st.heap.get(loc)
        if v is not None:
            return v
        if k == 'H':
            return loc[1]
        if k == 'S':
            return mk('static', loc[1])
        return mk('uninit', loc[1], loc[2])

    def set_root(self, st, loc, v):
        k = loc[0]
        if k == 'L':
            self.frame(st, loc[1])[loc[2]] = v
            return
        if k == 'K':
            return
        if not st.hown:
            st.heap = dict(st.heap)
            st.hown = True
        if k == 'H' and v is loc[1]:
            st.heap.pop(loc, None)
        else:
            st.heap[loc] = v

    def vlen(self, v):
        k = v.k
        if k == 'vec':
            return I(len(v.a))
        if k == 'push':
            return self.add(self.vlen(v.a[0]), 1)
        if k == 'rm':
            return self.add(self.vlen(v.a[0]), -1)
        if k == 'upd':
            return self.vlen(v.a[0])
        if k == 'str':
            return I(len(v.a[0].encode()))
        return mk('len', v)

    def add(self, x, n):
        if x.k == 'int':
            return I(x.a[0] + n)
        if x.k == 'add':
            n += x.a[1]
            x = x.a[0]
        return mk('add', x, n) if n else x

    def proj(self, st, v, e):
        var, i = e
        k = v.k
        if k == 'adt':
            if var and v.a[1] and v.a[1] != var:
                return BOT
            j = i + 2
            return v.a[j] if j < len(v.a) else mk('f', v, var, i)
        if var == 'ix' or var == 'ixe':
            return self.index(st, v, i if var == 'ix' else self.add(self.vlen(v), -i.a[0]))
        if k == 'tup':
            return v.a[i] if i < len(v.a) else mk('f', v, var, i)
        if k == 'clo':
            return v.a[i + 1]
        if k == 'vec' and isinstance(i, int) and i < len(v.a):
            return v.a[i]
        if k == 'upd':
            for (el, x) in v.a[1]:
                if el == e:
                    return x
            return self.proj(st, v.a[0], e)
        if k == 'ref':
            return v
        if k == 'bot':
            return BOT
        return mk('f', v, var, i)

    def index(self, st, v, i):
        i = self.res(st, i)
        k = v.k
        if k == 'vec':
            if i.k == 'int':
                return v.a[i.a[0]] if 0 <= i.a[0] < len(v.a) else BOT
            if len(set(v.a)) == 1:
                return v.a[0]
            return mk('ix', v, i)
        if k == 'push':
            ln = self.vlen(v.a[0])
            if ln is i:
                return v.a[1]
            if self.cmp(st, 'lt', i, ln) is True:
                return self.index(st, v.a[0], i)
            return mk('ix', v, i)
        if k == 'upd':
            for (el, x) in v.a[1]:
                if el == ('ix', i):
                    return x
            if all(el[0] != 'ix' or self.cmp(st, 'eq', el[1], i) is False for (el, x) in v.a[1]):
                return self.index(st, v.a[0], i)
            return mk('ix', v, i)
        if k == 'str' and i.k == 'int':
            b = v.a[0].encode()
            return I(b[i.a[0]]) if i.a[0] < len(b) else BOT
        return mk('ix', v, i)

    def put(self, st, v, path, x):
        if not path:
            return x
        e = path[0]
        old = self.proj(st, v, e)
        new = self.put(st, old, path[1:], x)
        if new is old:
            return v
        k = v.k
        var, i = e
        if k == 'adt' and var not in ('ix', 'ixe') and i + 2 < len(v.a):
            a = list(v.a)
            a[i + 2] = new
            return mk('adt', *a)
        if k == 'tup' and isinstance(i, int) and i < len(v.a):
            a = list(v.a)
            a[i] = new
            return mk('tup', *a)
        if k == 'clo':
            a = list(v.a)
            a[i + 1] = new
            return mk('clo', *a)
        if k == 'vec' and var == 'ix' and i.k == 'int' and 0 <= i.a[0] < len(v.a):
            a = list(v.a)
            a[i.a[0]] = new
            return mk('vec', *a)
        if k == 'upd':
            base, lst = v.a
            if var == 'ix':
                # writes through other, possibly equal, indices
                lst2 = tuple((el, y) for (el, y) in lst if el != e and (el[0] != 'ix' or self.cmp(st, 'eq', el[1], i) is False))
                dropped = len([1 for (el, y) in lst if el != e]) - len(lst2)
                if dropped:
                    base = v
                    lst2 = ()
            else:
                lst2 = tuple((el, y) for (el, y) in lst if el != e)
            if self.proj(st, base, e) is new:
                return mk('upd', base, lst2) if lst2 else base
            return mk('upd', base, tuple(sorted(lst2 + ((e, new),), key=lambda z: (str(z[0][0]), z[0][1].n if isinstance(z[0][1], T) else z[0][1]))))
        if k == 'uninit' or k == 'bot':
            return mk('upd', v, ((e, new),))
        return mk('upd', v, ((e, new),))

    def load(self, st, loc, path=()):
        v = self.root(st, loc)
        for e in path:
            v = self.proj(st, v, e)
        return v

    def store(self, st, loc, path, x):
        if path:
            # fields of a known aggregate may be initialised one by one
            x = self.put(st, self.root(st, loc), path, x)
        self.set_root(st, loc, x)

    def deref(self, v):
        """location a pointer value points to"""
        if v.k == 'ref':
            return v.a[0], v.a[1]
        if opaque(v):
            return ('H', v), ()
        return ('K', v), ()

    def load1(self, st, v):
        loc, path = self.deref(v)
        return self.load(st, loc, path)

    def val(self, st, v):
        """follow references down to content"""
        n = 0
        while v.k == 'ref' and n < 20:
            v = self.load(st, v.a[0], v.a[1])
            n += 1
        if v.k not in KNOWN and v.k != 'upd':
            w = st.heap.get(('H', v))
            if w is not None and w is not v:
                v = self.val(st, w)
        return self.res(st, v)

    def ref(self, loc, path=()):
        if loc[0] == 'K' and not path:
            return loc[1]
        if loc[0] == 'H' and not path:
            return loc[1]
        return mk('ref', loc, tuple(path))

    def place(self, st, fid, pl):
        loc, path = ('L', fid, pl['l']), ()
        var = ''
        for p in pl['p']:
            t = p[0]
            if t == 'd':
                v = self.load(st, loc, path)
                loc, path = self.deref(v)
                var = ''
            elif t == 'f':
                path += ((var, p[1]),)
                var = ''
            elif t == 'v':
                var = p[1]
            elif t == 'i':
                path += (('ix', self.res(st, self.load(st, ('L', fid, p[1])))),)
            elif t == 'c':
                path += (('ixe', I(p[1])) if p[2] else ('ix', I(p[1])),)
            else:
                v = self.load(st, loc, path)
                loc, path = ('K', mk('sub', v, str(p))), ()
        return loc, path

    # ------------------------------------------------------------------ facts
    def res(self, st, v):
        if v.k in CONST:
            return v
        f = st.facts.get(v)
        if f is not None and f[0] == 'c':
            return f[1]
        if v.k == 'add':
            b = self.res(st, v.a[0])
            if b is not v.a[0]:
                return self.add(b, v.a[1])
        return v

    def lin(self, v):
        if v.k == 'int':
            return None, v.a[0]
        if v.k == 'add':
            return v.a[0], v.a[1]
        if v.k == 'char':
            return None, v.a[0]
        return v, 0

    def is_unsigned(self, b):
        return b.k in self.unsigned_ops or (b.k == 'w' and b.a[-1] == 'u') or (b.k == 'u')

    def zdist(self, st, a, b, zero=True):
        """best known c with a - b <= c, or None"""
        if a is b:
            return 0
        Z = st._zn
        memo = Z.memo
        dist = memo.get((a, zero))
        if dist is None:
            # Bellman-Ford over the small constraint graph: edge x->y weight c for x - y <= c
            g = memo.get('g')
            if g is None:
                edges = {}
                nodes = set()
                for (x, y), c in Z.items():
                    edges.setdefault(x, []).append((y, c))
                    nodes.add(x)
                    nodes.add(y)
                for x in nodes:
                    if x is not None and self.is_unsigned(x):
                        edges.setdefault(None, []).append((x, 0))
                g = memo['g'] = (edges, nodes)
            edges = g[0]
            dist = {a: 0}
            todo = [a]
            it = 0
            while todo and it < 400:
                it += 1
                x = todo.pop(0)
                if x is None and not zero:
                    continue
                d = dist[x]
                for (y, c) in edges.get(x, ()):
                    if y not in dist or d + c < dist[y]:
                        dist[y] = d + c
                        todo.append(y)
            memo[(a, zero)] = dist
        d = dist.get(b)
        if zero and b is not None and b not in memo['g'][1] and self.is_unsigned(b):
            n = dist.get(None)
            if n is not None and (d is None or n < d):
                d = n
        return d

    def zadd(self, st, a, b, c):
        """assume a - b <= c; False when contradictory"""
        d = self.zdist(st, b, a)
        if d is not None and d + c < 0:
            return False
        if a is b:
            return c >= 0
        old = self.zdist(st, a, b)
        if old is None or old > c:
            st.zn[(a, b)] = c
        return True

    def cmp(self, st, op, x, y):
        x, y = self.res(st, x), self.res(st, y)
        if x.k in CONST and y.k in CONST and x.k == y.k:
            p, q = x.a[0], y.a[0]
            if op == 'eq':
                return p == q
            if op == 'lt':
                return p < q
        if op == 'eq':
            if x is y:
                return True
            if x.k == 'adt' and y.k == 'adt' and x.a[0] == y.a[0] and x.a[1] != y.a[1]:
                return False
            if x.k in CONST or y.k in CONST:
                c, t = (x, y) if x.k in CONST else (y, x)
                f = st.facts.get(t)
                if f is not None and f[0] == 'n' and c in f[1]:
                    return False
                if t.k == 'cat' and c.k == 'str' and not self.cat_may(t, c.a[0]):
                    return False
            f = st.facts.get(self.eqterm(x, y))
            if f is not None:
                return f[1] is TRUE
            if x.k in ('str', 'bool') or y.k in ('str', 'bool'):
                return None
        a, m = self.lin(x)
        b, n = self.lin(y)
        # x - y = (a-b) + (m-n)
        if op == 'lt':
            d = self.zdist(st, a, b)
            if d is not None and d + m - n <= -1:
                return True
            d = self.zdist(st, b, a)
            if d is not None and d + n - m <= 0:
                return False
            return None
        d1, d2 = self.zdist(st, a, b), self.zdist(st, b, a)
        if d1 is not None and d1 + m - n <= -1:
            return False
        if d2 is not None and d2 + n - m <= -1:
            return False
        if d1 is not None and d2 is not None and d1 + m - n <= 0 and d2 + n - m <= 0:
            return True
        return None

    @staticmethod
    def cat_may(t, s):
        parts = t.a
        if parts[0].k == 'str' and not s.startswith(parts[0].a[0]):
            return False
        if parts[-1].k == 'str' and not s.endswith(parts[-1].a[0]):
            return False
        return all(p.k != 'str' or p.a[0] in s for p in parts)

    def eqterm(self, x, y):
        if y.n < x.n:
            x, y = y, x
        return mk('eq', x, y)

    def assume_cmp(self, st, op, x, y, truth):
        x, y = self.res(st, x), self.res(st, y)
        d = self.cmp(st, op, x, y)
        if d is not None:
            return d == truth
        if op == 'eq':
            if x.k in CONST or y.k in CONST:
                c, t = (x, y) if x.k in CONST else (y, x)
                return self.learn_const(st, t, c, truth)
            st.facts[self.eqterm(x, y)] = ('c', B(truth))
            if not truth:
                return True
            a, m = self.lin(x)
            b, n = self.lin(y)
            return self.zadd(st, a, b, n - m) and self.zadd(st, b, a, m - n)
        a, m = self.lin(x)
        b, n = self.lin(y)
        if truth:
            return self.zadd(st, a, b, n - m - 1)
        return self.zadd(st, b, a, m - n)

    def learn_const(self, st, t, c, truth):
        f = st.facts.get(t)
        if f is not None and f[0] == 'c':
            return (f[1] is c) == truth
        if truth:
            if f is not None and f[0] == 'n' and c in f[1]:
                return False
            st.facts[t] = ('c', c)
            if c.k == 'int':
                a, m = self.lin(t)
                return self.zadd(st, a, None, c.a[0] - m) and self.zadd(st, None, a, m - c.a[0])
            return True
        if c.k == 'bool':
            return self.learn_const(st, t, B(not c.a[0]), True)
        s = (f[1] if f is not None and f[0] == 'n' else frozenset()) | {c}
        st.facts[t] = ('n', s)
        if c.k == 'int':
            a, m = self.lin(t)
            n = c.a[0] - m
            d = self.zdist(st, a, None)
            if d is not None and d == n:
                st.zn[(a, None)] = n - 1
            d = self.zdist(st, None, a)
            if d is not None and -d == n:
                st.zn[(None, a)] = -(n + 1)
        return True

    # boolean terms ------------------------------------------------------
    def decide(self, st, b):
        b = self.res(st, b)
        k = b.k
        if k == 'bool':
            return b.a[0]
        if k == 'not':
            d = self.decide(st, b.a[0])
            return None if d is None else not d
        if k in ('eq', 'lt'):
            return self.cmp(st, k, b.a[0], b.a[1])
        if k == 'isvar':
            return self.is_variant(st, b.a[0], b.a[1])
        if k == 'and':
            x, y = self.decide(st, b.a[0]), self.decide(st, b.a[1])
            if x is False or y is False:
                return False
            return True if x and y else None
        if k == 'or':
            x, y = self.decide(st, b.a[0]), self.decide(st, b.a[1])
            if x or y:
                return True
            return False if x is False and y is False else None
        f = self.imply(st, b)
        return f

    def imply(self, st, b):
        return None

    def assume(self, st, b, truth):
        """learn b == truth in st; returns False when infeasible"""
        b = self.res(st, b)
        k = b.k
        if k == 'bool':
            return b.a[0] == truth
        if k == 'not':
            return self.assume(st, b.a[0], not truth)
        if k in ('eq', 'lt'):
            return self.assume_cmp(st, k, b.a[0], b.a[1], truth)
        if k == 'isvar':
            return self.assume_variant(st, b.a[0], b.a[1], b.a[2], truth)
        if k == 'and' and truth:
            return self.assume(st, b.a[0], True) and self.assume(st, b.a[1], True)
        if k == 'or' and not truth:
            return self.assume(st, b.a[0], False) and self.assume(st, b.a[1], False)
        if k == 'and':
            if self.decide(st, b.a[0]) is True:
                return self.assume(st, b.a[1], False)
            if self.decide(st, b.a[1]) is True:
                return self.assume(st, b.a[0], False)
        if k == 'or':
            if self.decide(st, b.a[0]) is False:
                return self.assume(st, b.a[1], True)
            if self.decide(st, b.a[1]) is False:
                return self.assume(st, b.a[0], True)
        return self.learn_const(st, b, TRUE, truth)

    def branch(self, st, b):
        """[(st, bool)]"""
        d = self.decide(st, b)
        if d is not None:
            return [(st, d)]
        s2 = st.fork()
        out = []
        if self.assume(st, b, True):
            out.append((st, True))
        if self.assume(s2, b, False):
            out.append((s2, False))
        return out

    # variants -----------------------------------------------------------
    def variants(self, ty):
        a = self.F.adts.get(ty)
        if a:
            return [v['name'] for v in a['variants']]
        h = ty_head(ty)
        if h == OPT:
            return ['None', 'Some']
        if h == RES:
            return ['Ok', 'Err']
        return None

    def strip_upd(self, v):
        while v.k == 'upd':
            v = v.a[0]
        return v

    def is_variant(self, st, v, name):
        v = self.strip_upd(v)
        if v.k == 'adt':
            return v.a[1] == name
        f = st.facts.get(v)
        if f is None:
            return None
        if f[0] == 'v':
            return f[1] == name
        if f[0] == 'nv' and name in f[1]:
            return False
        return None

    def variant_of(self, st, v):
        v = self.strip_upd(v)
        if v.k == 'adt':
            return v.a[1]
        f = st.facts.get(v)
        return f[1] if f is not None and f[0] == 'v' else None

    def assume_variant(self, st, v, name, ty, truth):
        d = self.is_variant(st, v, name)
        if d is not None:
            return d == truth
        v = self.strip_upd(v)
        if truth:
            st.facts[v] = ('v', name)
            return True
        f = st.facts.get(v)
        s = (f[1] if f is not None and f[0] == 'nv' else frozenset()) | {name}
        vs = self.variants(ty)
        if vs:
            left = [x for x in vs if x not in s]
            if not left:
                return False
            if len(left) == 1:
                st.facts[v] = ('v', left[0])
                return True
        st.facts[v] = ('nv', s)
        return True

    def split_variants(self, st, v, ty, names=None):
        """[(st, variant)] for every feasible variant"""
        cur = self.variant_of(st, v)
        if cur is not None:
            return [(st, cur)]
        out = []
        for n in (names or self.variants(ty) or []):
            s = st.fork()
            if self.assume_variant(s, v, n, ty, True):
                out.append((s, n))
        return out

    # ------------------------------------------------------------------ rvalues
    def const(self, st, k, ty):
        if 'int' in k:
            return I(k['int'])
        if 'bool' in k:
            return B(k['bool'])
        if 'char' in k:
            c = k['char']
            return mk('char', c if isinstance(c, int) else ord(c))
        if 'str' in k:
            return S(k['str'])
        if 'zst' in k:
            return UNIT if k['zst'] == '()' else mk('zst', k['zst'])
        if 'variant' in k:
            fs = [self.const(st, x, '') for x in k.get('fields', [])]
            return mk('adt', norm(ty_head(k['adt'])), k['variant'], *fs)
        if 'ref' in k:
            return self.const(st, k['ref'], '')
        if 'list' in k:
            return mk('vec', *[self.const(st, x, '') for x in k['list']])
        if 'tuple' in k:
            return mk('tup', *[self.const(st, x, '') for x in k['tuple']])
        if 'fn' in k:
            return mk('fn', norm(k['fn']), norm(k.get('res') or k['fn']), k.get('inst'), k.get('xinst'), bool(k.get('local')), tuple(k.get('targs') or ()))
        if 'static' in k:
            return mk('ref', ('S', k['static']), ())
        if 'fnptr' in k:
            x = k['fnptr']
            return mk('fn', norm(x) if isinstance(x, str) else str(x), norm(x) if isinstance(x, str) else str(x), x if isinstance(x, str) else None, None, True, ())
        return mk('konst', str(k.get('opaque', k)), ty)

    def operand(self, st, fid, o):
        if 'k' in o:
            return self.const(st, o['k'], o.get('ty', ''))
        mv = 'm' in o
        pl = o['m'] if mv else o['c']
        loc, path = self.place(st, fid, pl)
        v = self.res(st, self.load(st, loc, path))
        if mv and not pl['p']:
            self.frame(st, fid).pop(pl['l'], None)
        return v

    def binop(self, st, op, x, y):
        x, y = self.res(st, x), self.res(st, y)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if op in ('Eq', 'Ne'):
                if x.k == 'bool' or y.k == 'bool':
                    c, t = (x, y) if x.k == 'bool' else (y, x)
                    if t.k == 'bool':
                        b = B(c.a[0] == t.a[0])
                    else:
                        b = t if c.a[0] else self.neg(t)
                elif x.k == 'discr' and y.k == 'int' or (y.k == 'discr' and x.k == 'int'):
                    d, c = (x, y) if x.k == 'discr' else (y, x)
                    b = self.discr_is(d, c.a[0])
                else:
                    b = self.boolean(st, 'eq', x, y)
                return b if op == 'Eq' else self.neg(b)
            if op == 'Lt':
                return self.boolean(st, 'lt', x, y)
            if op == 'Ge':
                return self.neg(self.boolean(st, 'lt', x, y))
            if op == 'Gt':
                return self.boolean(st, 'lt', y, x)
            return self.neg(self.boolean(st, 'lt', y, x))
        if op.endswith('WithOverflow'):
            o = op[:-12]
            r = self.binop(st, o, x, y)
            ov = mk('ovf', o, x, y)
            if x.k == 'int' and y.k == 'int':
                ov = FALSE if not (o == 'Sub' and r.a[0] < 0) else mk('lt', x, y)
            elif o == 'Sub':
                ov = self.boolean(st, 'lt', x, y)
            elif o in ('Add', 'Mul'):
                ov = FALSE       # counters of in-memory objects do not reach the word size
            return mk('tup', r, ov)
        op = op.replace('Unchecked', '')
        if op == 'Add':
            if y.k == 'int':
                return self.add(x, y.a[0])
            if x.k == 'int':
                return self.add(y, x.a[0])
        if op == 'Sub':
            if y.k == 'int':
                return self.add(x, -y.a[0])
            if x is y:
                return I(0)
            a, m = self.lin(x)
            b, n = self.lin(y)
            if a is b:
                return I(m - n)
        if op in ('BitAnd', 'BitOr'):
            for p, q in ((x, y), (y, x)):
                if p.k == 'bool':
                    if op == 'BitAnd':
                        return q if p.a[0] else FALSE
                    return TRUE if p.a[0] else q
        if x.k == 'int' and y.k == 'int':
            p, q = x.a[0], y.a[0]
            f = {'Add': lambda: p + q, 'Sub': lambda: p - q, 'Mul': lambda: p * q, 'BitAnd': lambda: p & q, 'BitOr': lambda: p | q,
                 'BitXor': lambda: p ^ q, 'Shl': lambda: p << (q & 63), 'Shr': lambda: p >> (q & 63),
                 'Div': lambda: p // q if q else None, 'Rem': lambda: p % q if q else None}.get(op)
            if f and f() is not None:
                return I(f())
        if op == 'BitAnd' and self.boolish(x) and self.boolish(y):
            return mk('and', x, y)
        if op == 'BitOr' and self.boolish(x) and self.boolish(y):
            return mk('or', x, y)
        return mk('op', op, x, y)

    @staticmethod
    def boolish(x):
        return x.k in ('bool', 'not', 'eq', 'lt', 'isvar', 'and', 'or', 'contains', 'pred')

    def neg(self, b):
        if b.k == 'bool':
            return B(not b.a[0])
        if b.k == 'not':
            return b.a[0]
        return mk('not', b)

    def boolean(self, st, op, x, y):
        if x.k == 'konst' and x.a[0].startswith('true'):
            pass
        d = self.cmp(st, op, x, y)
        if d is not None:
            return B(d)
        if op == 'eq':
            return self.eqterm(x, y)
        return mk(op, x, y)

    def discr_is(self, d, n):
        ty = d.a[1]
        a = self.F.adts.get(ty)
        name = None
        if a:
            for v in a['variants']:
                if v['discr'] == n:
                    name = v['name']
        else:
            vs = self.variants(ty)
            if vs and 0 <= n < len(vs):
                name = vs[n]
        if name is None:
            return mk('isvar', d.a[0], '#%d' % n, ty)
        return mk('isvar', d.a[0], name, ty)

    def rvalue(self, st, fid, r):
        k = r[0]
        if k == 'use':
            return self.operand(st, fid, r[1])
        if k == 'ref':
            loc, path = self.place(st, fid, r[2])
            if path and loc[0] == 'K':
                return self.load(st, loc, path)
            return self.ref(loc, path)
        if k == 'agg':
            ops = [self.operand(st, fid, o) for o in r[5]]
            if r[1] == 'adt':
                return mk('adt', norm(ty_head(r[2])), self.variant_name(r[2], r[3]), *ops)
            if r[1] == 'tuple':
                return mk('tup', *ops)
            if r[1] == 'array':
                return mk('vec', *ops)
            if r[1] == 'closure':
                return mk('clo', r[2], *ops)
            if r[1] == 'other' and len(ops) == 2:
                return ops[0]
            return mk('agg', r[1], *ops)
        if k == 'discr':
            loc, path = self.place(st, fid, r[1])
            v = self.load(st, loc, path)
            n = self.variant_of(st, v)
            a = self.F.adts.get(r[2])
            if n is not None and n != '':
                if a:
                    for x in a['variants']:
                        if x['name'] == n:
                            return I(x['discr'])
                vs = self.variants(r[2])
                if vs and n in vs:
                    return I(vs.index(n))
            if v.k == 'bot':
                return BOT
            return mk('discr', self.strip_upd(v), r[2])
        if k == 'bin':
            return self.binop(st, r[1], self.operand(st, fid, r[2]), self.operand(st, fid, r[3]))
        if k == 'un':
            v = self.operand(st, fid, r[2])
            if r[1] == 'Not':
                v = self.res(st, v)
                if v.k == 'int':
                    return I(~v.a[0])
                return self.neg(v)
            if r[1] == 'Neg' and v.k == 'int':
                return I(-v.a[0])
            if r[1] == 'PtrMetadata':
                return self.vlen(self.val(st, v))
            return mk('un', r[1], v)
        if k == 'cast':
            if r[1] == 'BoxDerefTransmute' and not 'k' in r[2]:
                o = r[2]
                pl = o.get('m') or o.get('c')
                p = list(pl['p'])
                while p and p[-1][0] == 'f':
                    p.pop()
                loc, path = self.place(st, fid, {'l': pl['l'], 'p': p})
                return self.load(st, loc, path)
            v = self.operand(st, fid, r[2])
            if r[1] == 'Transmute' and (r[3] == 'usize'):
                return mk('addr', v)
            if r[1] == 'IntToInt' and v.k not in ('int', 'discr', 'u') and r[3] in ('usize', 'u32', 'u64', 'u8'):
                if self.boolish(v):
                    return v
                return v if self.is_unsigned(v) or v.k in ('add', 'char') else mk('cast', v, r[3])
            if r[1] == 'IntToInt' and v.k == 'discr':
                return mk('dnum', v.a[0], v.a[1])
            return v
        if k == 'repeat':
            return mk('repeat', self.operand(st, fid, r[1]), str(r[2]))
        return mk('rv', str(r)[:60])

    def variant_name(self, adt, var):
        # structs are stored with the empty variant
        last = adt.split('<')[0].split('::')[-1]
        return '' if var == last and norm(ty_head(adt)) not in (OPT, RES) and not self.is_enum(adt) else var

    def is_enum(self, adt):
        v = self._dv.get(adt)
        if v is None:
            v = False
            h = ty_head(adt)
            for k, a in self.F.adts.items():
                if ty_head(k) == h or a['def'] == adt:
                    v = a['kind'] == 'enum'
                    break
            self._dv[adt] = v
        return v

    # ------------------------------------------------------------------ sites
    def fresh(self, st, kind, site, *extra):
        """term for the result of executing `site` now; earlier results of it are renamed"""
        n = st.cnt.get(site, 0)
        if n:
            self.age(st, site)
        st.cnt[site] = min(n + 1, self.gens)
        return mk(kind, site, 0, *extra)

    def age(self, st, *sites):
        sites = set(sites)
        nxt = self.ages
        if len(nxt) != self.gens + 1:
            nxt = self.ages = {**{i: i + 1 for i in range(self.gens - 1)}, self.gens - 1: '*', 'T': 0}
        hot = set()
        for x in sites:
            hot |= {(x, g) for g in nxt}

        def hit(v):
            return not hot.isdisjoint(v.sites)

        memo = {}

        def f(t):
            if t.k in ('call', 'hv', 'alloc', 'w') and t.a[0] in sites and t.a[1] in nxt:
                return mk(t.k, t.a[0], nxt[t.a[1]], *t.a[2:])
            if t.k == 'ref' and t.a[0][0] == 'A' and t.a[0][1] in sites and t.a[0][2] in nxt:
                return mk('ref', ('A', t.a[0][1], nxt[t.a[0][2]]), t.a[1])
            return t

        def sb(v):
            return subst(v, f, memo) if v.sites and hit(v) else v

        def star(v):
            return any(n == '*' and x in sites for (x, n) in v.sites)

        for fid in list(st.fr):
            d = st.fr[fid]
            ch = [k for k, v in d.items() if v.sites and hit(v)]
            if ch:
                d = self.frame(st, fid)
                for k in ch:
                    d[k] = sb(d[k])
        newheap, changed = {}, False
        for loc, v in st.heap.items():
            l2 = loc
            if loc[0] == 'A' and loc[1] in sites and loc[2] in nxt:
                l2 = ('A', loc[1], nxt[loc[2]])
            elif loc[0] == 'H' and loc[1].sites:
                l2 = ('H', sb(loc[1]))
            v2 = sb(v)
            if l2 != loc or v2 is not v:
                changed = True
            if l2 in newheap and newheap[l2] is not v2:
                v2 = mk('join', *sorted((newheap[l2], v2), key=lambda z: z.n)) if newheap[l2].k != 'join' else newheap[l2]
            newheap[l2] = v2
        if changed:
            st.heap = newheap
            st.hown = True
        nf = {}
        for k, v in st.facts.items():
            k2 = sb(k)
            if star(k2):
                continue
            if v[0] == 'c':
                v = ('c', sb(v[1]))
            nf[k2] = v
        st.facts = nf
        nz = {}
        for (a, b), c in st.zn.items():
            a2 = sb(a) if a is not None else a
            b2 = sb(b) if b is not None else b
            if (a2 is not None and star(a2)) or (b2 is not None and star(b2)):
                continue
            nz[(a2, b2)] = c
        st.zn = nz
        st.mon = self.map_mon(st.mon, sb)

    def map_mon(self, m, f):
        if isinstance(m, T):
            return f(m)
        if isinstance(m, tuple):
            return tuple(self.map_mon(x, f) for x in m)
        if isinstance(m, frozenset):
            return frozenset(self.map_mon(x, f) for x in m)
        return m

    def alloc(self, st, site, v):
        n = st.cnt.get(site, 0)
        if n:
            self.age(st, site)
        st.cnt[site] = min(n + 1, self.gens)
        loc = ('A', site, 0)
        self.set_root(st, loc, v)
        return mk('ref', loc, ())

    # ------------------------------------------------------------------ execution
    def new_frame(self, fid, bb, key):
        k = (fid, bb, key)
        r = self.frames.get(k)
        if r is None:
            r = self.frames[k] = len(self.frame_info)
            self.frame_info.append(k)
        return r

    def rpo(self, key):
        r = self.order.get(key)
        if r is not None:
            return r
        bl = self.F.fns[key]['blocks']
        succ = [self.succs(b['t']) for b in bl]
        seen, post = set(), []
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                post.append(n)
                stack.pop()
        order = {b: i for i, b in enumerate(reversed(post))}
        preds = {}
        for b in order:
            for s in succ[b]:
                preds.setdefault(s, set()).add(b)
        heads = {}
        for b in order:
            for s in succ[b]:
                if order[s] <= order[b]:
                    heads.setdefault(s, set()).add(b)
        # natural loop bodies
        bodies = {}
        for h, ends in heads.items():
            body = {h}
            todo = list(ends)
            while todo:
                x = todo.pop()
                if x not in body:
                    body.add(x)
                    todo += [p for p in preds.get(x, ()) if p in order]
            bodies[h] = body
        live = self.liveness(key, succ, order)
        r = (order, preds, bodies, live)
        self.order[key] = r
        return r

    def liveness(self, key, succ, order):
        """locals possibly used from a block's start; address-taken locals stay live while initialised"""
        f = self.F.fns[key]
        bl = f['blocks']
        taken = set()
        use, defs = {}, {}

        def plu(p, u):
            u.add(p['l'])
            for e in p['p']:
                if e[0] == 'i':
                    u.add(e[1])

        def opu(o, u):
            if 'c' in o:
                plu(o['c'], u)
            elif 'm' in o:
                plu(o['m'], u)

        for b in order:
            u, d = set(), set()

            def reads(uu):
                for x in uu:
                    if x not in d:
                        u.add(x)
            for s in bl[b]['s']:
                if s[0] == '=':
                    uu = set()
                    r = s[2]
                    if r[0] == 'use':
                        opu(r[1], uu)
                    elif r[0] == 'ref':
                        plu(r[2], uu)
                        if not any(e[0] == 'd' for e in r[2]['p']):
                            taken.add(r[2]['l'])
                    elif r[0] == 'agg':
                        for o in r[5]:
                            opu(o, uu)
                    elif r[0] == 'discr':
                        plu(r[1], uu)
                    elif r[0] == 'bin':
                        opu(r[2], uu)
                        opu(r[3], uu)
                    elif r[0] in ('un', 'cast'):
                        opu(r[2], uu)
                    elif r[0] == 'repeat':
                        opu(r[1], uu)
                    if s[1]['p']:
                        plu(s[1], uu)
                    reads(uu)
                    if not s[1]['p']:
                        d.add(s[1]['l'])
                elif s[0] == 'sd':
                    reads({s[1]['l']})
                elif s[0] == 'dead':
                    d.add(s[1])
            t = bl[b]['t']
            uu = set()
            if t['k'] == 'switch':
                opu(t['d'], uu)
            elif t['k'] == 'call':
                if isinstance(t['f'], dict):
                    opu(t['f'], uu)
                for a in t['a']:
                    opu(a, uu)
                if t['d']['p']:
                    plu(t['d'], uu)
            elif t['k'] == 'drop':
                plu(t['p'], uu)
            elif t['k'] == 'assert':
                opu(t['c'], uu)
                for m in t['m'][1:]:
                    if isinstance(m, dict):
                        opu(m, uu)
            elif t['k'] == 'ret':
                uu.add(0)
            reads(uu)
            use[b], defs[b] = u, d
        live = {b: set() for b in order}
        change = True
        while change:
            change = False
            for b in sorted(order, key=lambda x: -order[x]):
                out = set()
                for s in succ[b]:
                    out |= live.get(s, set())
                t = bl[b]['t']
                dd = set(defs[b])
                if t['k'] == 'call' and not t['d']['p']:
                    dd = dd | {t['d']['l']}
                new = use[b] | (out - dd)
                if new != live[b]:
                    live[b] = new
                    change = True
        return {b: live[b] | taken for b in live}

    @staticmethod
    def succs(t):
        k = t['k']
        if k == 'goto':
            return [t['t']]
        if k == 'switch':
            return [x[1] for x in t['ts']] + ([t['o']] if t['o'] is not None else [])
        if k in ('drop', 'assert', 'call'):
            return [t['t']] if t['t'] is not None else []
        return []

    def skey(self, st):
        return (frozenset((fid, frozenset(d.items())) for fid, d in st.fr.items()), frozenset(st.heap.items()), st.mon)

    def covers(self, old, st):
        """the recorded (facts, zones) is weaker than st's"""
        of, oz = old
        for k, v in of.items():
            w = st.facts.get(k)
            if w is None:
                return False
            if w != v:
                if v[0] in ('n', 'nv') and w[0] == v[0] and v[1] <= w[1]:
                    continue
                if v[0] == 'n' and w[0] == 'c' and w[1] not in v[1]:
                    continue
                if v[0] == 'nv' and w[0] == 'v' and w[1] not in v[1]:
                    continue
                return False
        z = st._zn
        for ab, c in oz.items():
            d = z.get(ab)
            if d is not None and d <= c:
                continue
            d = self.zdist(st, ab[0], ab[1])
            if d is None or d > c:
                return False
        return True

    def gc(self, st, key, fid, bb):
        live = self.rpo(key)[3].get(bb)
        d = st.fr.get(fid)
        if live is not None and d:
            dead = [l for l in d if l not in live and l != 0 and isinstance(l, int)]
            if dead:
                d = self.frame(st, fid)
                for l in dead:
                    del d[l]

    def reachable_sites(self, st):
        """sites of terms the frames, the monitor or live heap cells mention; unreachable cells are dropped"""
        out = set()
        for d in st.fr.values():
            for v in d.values():
                if v.sites:
                    out |= v.sites
        self._mon_sites(st.mon, out)
        if st.heap:
            rest = []
            for loc, v in st.heap.items():
                ls = loc[1].sites if loc[0] == 'H' else {(loc[1], loc[2])} if loc[0] == 'A' else EMPTY
                if not ls:
                    out |= v.sites
                else:
                    rest.append((loc, ls, v))
            change = True
            while change and rest:
                change = False
                nr = []
                for x in rest:
                    if x[1] <= out:
                        out |= x[2].sites
                        change = True
                    else:
                        nr.append(x)
                rest = nr
            if rest:
                dead = {x[0] for x in rest}
                st.heap = {l: v for l, v in st.heap.items() if l not in dead}
                st.hown = True
        return out

    def _mon_sites(self, m, out):
        if isinstance(m, T):
            out |= m.sites
        elif isinstance(m, (tuple, frozenset)):
            for x in m:
                self._mon_sites(x, out)

    def gc_facts(self, st):
        rs = self.reachable_sites(st)
        dead = [k for k in st.facts if k.sites and not (k.sites <= rs)]
        for k in dead:
            del st.facts[k]
        if st.zn:
            # project dead terms away, keeping what they imply
            terms = {x for ab in st.zn for x in ab if x is not None}
            gone = [x for x in terms if x.sites and not (x.sites <= rs)]
            for g in gone:
                ins = [(a, c) for (a, b), c in st.zn.items() if b is g]
                outs = [(b, c) for (a, b), c in st.zn.items() if a is g]
                if self.is_unsigned(g):
                    ins.append((None, 0))
                for k in [k for k in st.zn if g in k]:
                    del st.zn[k]
                for (a, c) in ins:
                    for (b, e) in outs:
                        if a is not b and not (a is None and b is not None and self.is_unsigned(b) and c + e >= 0):
                            o = st.zn.get((a, b))
                            if o is None or o > c + e:
                                st.zn[(a, b)] = c + e

    def run(self, key, args, st, fid):
        """interpret function `key`; returns [(state, return value)] for its normal returns"""
        f = self.F.fns[key]
        blocks = f['blocks']
        order, preds, bodies, live = self.rpo(key)
        fr = self.frame(st, fid)
        fr.clear()
        for i, a in enumerate(args):
            fr[i + 1] = a
        self.stack.append((key, fid))
        self.stats['inlined'].add(key)
        heap = [(0, 0, 0, st, None)]
        pend = {0: 1}
        cnt = 1
        seen = {}
        outs = []
        nout = {}
        while heap:
            o0, _, bb, st, pred = heapq.heappop(heap)
            batch = [st]
            # a join point: drop states another one covers, merge what only differs in learned facts
            if len(preds.get(bb, ())) > 1 or bb in bodies:
                items = [(st, pred)]
                while heap and heap[0][0] == o0:
                    x = heapq.heappop(heap)
                    items.append((x[3], x[4]))
                batch = self.join(items, key, fid, bb, bodies, seen, nout)
            for st in batch:
              for (s2, nb) in self.block(st, key, fid, bb, blocks[bb]):
                if nb is None:
                    outs.append(s2)
                else:
                    heapq.heappush(heap, (order[nb], cnt, nb, s2, bb))
                    cnt += 1
        self.stack.pop()
        res = []
        kept = {}
        for s in outs:
            v = self.res(s, s.fr.get(fid, {}).get(0, UNIT))
            s.fr.pop(fid, None)
            s.own.discard(fid)
            if s.loops:
                s.loops = {k: x for k, x in s.loops.items() if k[0] != fid}
            res.append((s, v))
        if len(res) > 1:
            groups = {}
            for (s, v) in res:
                # v takes part in liveness
                s.fr[-1] = {0: v}
                s.own.add(-1)
                self.gc_facts(s)
                k = (self.skey(s), v)
                del s.fr[-1]
                groups.setdefault(k, []).append(s)
            res = []
            for (_, v), sts in groups.items():
                keep = []
                for s in sts:
                    if not any(self.covers((o.facts, o.zn), s) for o in keep):
                        keep.append(s)
                if len(keep) > self.disj:
                    s = keep[0]
                    s.facts, s.zn = self.meet([(o.facts, o.zn) for o in keep])
                    keep = [s]
                res += [(s, v) for s in keep]
        return res

    def join(self, items, key, fid, bb, bodies, seen, nout):
        groups = {}
        for st, pred in items:
            self.gc(st, key, fid, bb)
            self.gc_facts(st)
            if bb in bodies:
                st = self.loop_head(st, fid, bb, pred in bodies[bb])
            groups.setdefault(self.skey(st), []).append(st)
        if len(groups) > self.mem_disj:
            # too many memories: keep one per monitor, and if that is few enough per shape of the local values
            bym = {}
            for k, sts in groups.items():
                bym.setdefault((k[2], self.shape(sts[0], fid)), []).extend(sts)
            if len(bym) > 2 * self.mem_disj:
                bym = {}
                for k, sts in groups.items():
                    bym.setdefault(k[2], []).extend(sts)
            groups = {}
            for sts in bym.values():
                st = self.join_mem(sts, fid, bb) if len(sts) > 1 else sts[0]
                groups.setdefault(self.skey(st), []).append(st)
        out = []
        lim = self.disj
        for k, sts in groups.items():
            prev = seen.setdefault((bb, k), [])
            keep = []
            for st in sts:
                if any(self.covers(p, st) for p in prev) or any(self.covers((o.facts, o.zn), st) for o in keep):
                    continue
                keep.append(st)
            if not keep:
                continue
            if len(prev) + len(keep) > lim:
                self.stats['merges'] += 1
                st = keep[0]
                alt = [(o.facts, o.zn) for o in keep]
                if len(prev) >= lim:
                    alt += prev[-lim:]
                st.facts, st.zn = self.meet(alt)
                if len(prev) >= 2 * lim:
                    st.zn = {}
                if len(prev) >= 3 * lim:
                    st.facts = {}
                keep = [st]
                if any(self.covers(p, st) for p in prev):
                    continue
            for st in keep:
                prev.append((dict(st.facts), dict(st.zn)))
                out.append(st)
                n = nout[bb] = nout.get(bb, 0) + 1
                if n > self.max_states:
                    raise Budget('%s block %d' % (key, bb))
        return out

    def shape(self, st, fid):
        """the constructors of the values in the frame's variables"""
        def sh(v, d):
            if v.k == 'adt':
                return (v.a[1],) + tuple(sh(x, d - 1) for x in v.a[2:] if isinstance(x, T)) if d else v.a[1]
            if v.k == 'tup' and d:
                return tuple(sh(x, d - 1) for x in v.a)
            if v.k == 'bool':
                return v.a[0]
            return None
        return frozenset((l, x) for l, v in st.fr.get(fid, {}).items() for x in (sh(v, 4),) if x is not None)

    def meet(self, alts):
        """the facts and bounds all alternatives share"""
        f0, z0 = alts[0]
        facts = {}
        for k, v in f0.items():
            r = v
            for f, _ in alts[1:]:
                w = f.get(k)
                r = self.weaker(r, w)
                if r is None:
                    break
            if r is not None:
                facts[k] = r
        zn = {}
        for (a, b), c in z0.items():
            for f, z in alts[1:]:
                t = St()
                t.facts, t.zn = f, z
                d = self.zdist(t, a, b)
                if d is None:
                    c = None
                    break
                c = max(c, d)
            if c is not None:
                zn[(a, b)] = c
        return facts, zn

    @staticmethod
    def weaker(v, w):
        if v == w:
            return v
        if w is None:
            return None
        if v[0] == 'c':
            v, w = w, v
        if v[0] == 'n':
            if w[0] == 'c':
                return v if w[1] not in v[1] else None
            if w[0] == 'n':
                s = v[1] & w[1]
                return ('n', s) if s else None
        if v[0] == 'v' and w[0] == 'nv':
            v, w = w, v
        if v[0] == 'nv':
            if w[0] == 'v':
                return v if w[1] not in v[1] else None
            if w[0] == 'nv':
                s = v[1] & w[1]
                return ('nv', s) if s else None
        return None

    def join_mem(self, sts, fid, bb):
        """one state standing for several memories"""
        site = ((fid, bb), 'j')
        for s in sts:
            if any(x[0] == site for x in self.reachable_sites(s)):
                self.age(s, site)
        st = sts[0]
        st.facts, st.zn = self.meet([(s.facts, s.zn) for s in sts])
        self.stats['memjoins'] = self.stats.get('memjoins', 0) + 1
        group = {}

        def jv(path, vs):
            v0 = vs[0]
            if all(v is v0 for v in vs):
                return v0
            if all(v.k == v0.k and len(v.a) == len(v0.a) for v in vs) and v0.k in ('adt', 'tup', 'clo', 'iter', 'enum', 'rev', 'skip', 'zip', 'peek'):
                r = []
                for i in range(len(v0.a)):
                    xs = [v.a[i] for v in vs]
                    if isinstance(xs[0], T):
                        if not all(isinstance(x, T) for x in xs):
                            break
                        r.append(jv(path + (i,), xs))
                    elif all(x == xs[0] for x in xs):
                        r.append(xs[0])
                    else:
                        break
                else:
                    return mk(v0.k, *r)
            num = all(self.numeric(v) for v in vs)
            # cells that hold the same values on every side go on holding the same value
            g = group.setdefault(tuple(vs), self.pkey(path))
            return mk('w', site, 0, g, 'i' if num else 's' if all(self.seqlike(v) for v in vs) else 'x')
        fids = set(st.fr)
        for s in sts[1:]:
            fids &= set(s.fr)
        for f in list(st.fr):
            if f not in fids:
                del st.fr[f]
                continue
            d = self.frame(st, f)
            for l in list(d):
                vs = [s.fr[f].get(l) for s in sts]
                if any(v is None for v in vs):
                    del d[l]
                else:
                    d[l] = jv(('L', f, l), vs)
        locs = set()
        for s in sts:
            locs |= set(s.heap)
        new = {}
        for loc in locs:
            new[loc] = jv(loc, [self.root(s, loc) for s in sts])
        st.heap = new
        st.hown = True
        return st

    def loop_head(self, st, fid, bb, back):
        lk = (fid, bb)
        if self.on_head:
            self.on_head(self, st, fid, bb, back)
        lm = lk + (st.mon,) if self.mon_widen else lk
        if not back:
            if self.mon_widen:
                for k in [k for k in st.loops if k[:2] == lk]:
                    del st.loops[k]
            st.loops[lm] = (0, self.snapshot(st))
            return st
        n, prev = st.loops.get(lm, (0, None))
        n += 1
        if prev is not None and n >= self.widen_at:
            self.widen(st, prev, lk, n)
        st.loops[lm] = (n, self.snapshot(st))
        return st

    def snapshot(self, st):
        return ({fid: d for fid, d in self._frozen(st)}, dict(st.heap), st.zn.copy(), dict(st.facts))

    def _frozen(self, st):
        st.own = set()
        return list(st.fr.items())

    def widen(self, st, prev, lk, n):
        """replace integers and sequences that change from one iteration to the next by terms standing
        for any iteration, keeping the difference bounds that held both before and after"""
        pfr, pheap, pzn, pfacts = prev
        chg = []     # (setter, old, new)
        nums = {}    # (old, new) -> group
        others = {}  # (old, new) -> group

        def visit(path, old, new):
            if old is new:
                return new
            if self.numeric(old) and self.numeric(new):
                nums.setdefault((old, new), self.pkey(path))
                chg.append(1)
                return ('N', old, new)
            if self.seqlike(old) or self.seqlike(new):
                chg.append(1)
                return ('Q', path, old, new)
            if (old.k == 'upd' or new.k == 'upd') and self.strip_upd(old) is self.strip_upd(new):
                keys = []
                for v in (old, new):
                    if v.k == 'upd':
                        keys += [el for (el, _) in v.a[1] if el not in keys]
                if all(v.k != 'upd' or v.a[0].k != 'upd' for v in (old, new)):
                    if any(el[0] in ('ix', 'ixe') for el in keys):
                        chg.append(1)
                        return ('Q', path, old, new)
                    r = []
                    for el in keys:
                        x = visit(path + (str(el),), self.proj(st, old, el), self.proj(st, new, el))
                        r.append((el, x))
                    return ('U', self.strip_upd(new), r)
            if old.k == new.k and old.k in ('adt', 'tup', 'clo', 'iter', 'enum', 'rev', 'map', 'filter', 'skip', 'take', 'zip', 'cloned', 'peek') and len(old.a) == len(new.a):
                r = []
                for i, (o, w) in enumerate(zip(old.a, new.a)):
                    if isinstance(o, T) and isinstance(w, T):
                        r.append(visit(path + (i,), o, w))
                    elif o == w:
                        r.append(w)
                    else:
                        return ('X', path, old, new) if n > self.widen_at + 1 else new
                return ('R', new.k, r)
            if old.k == 'upd' or new.k == 'upd' or n > self.widen_at + 1:
                if n > self.widen_at:
                    return ('X', path, old, new)
            return new

        plan = []
        for fid, d in list(st.fr.items()):
            pd = pfr.get(fid)
            if pd is None:
                continue
            for l, v in d.items():
                o = pd.get(l)
                if o is not None and o is not v:
                    r = visit(('L', fid, l), o, v)
                    if r is not v:
                        plan.append((('L', fid, l), r))
        for loc, v in list(st.heap.items()):
            o = pheap.get(loc)
            if o is None:
                o = loc[1] if loc[0] == 'H' else None
            if o is not None and o is not v:
                r = visit(loc, o, v)
                if r is not v:
                    plan.append((loc, r))
        for loc, o in pheap.items():
            if loc not in st.heap and loc[0] == 'H' and o is not loc[1]:
                r = visit(loc, o, loc[1])
                if isinstance(r, tuple):
                    plan.append((loc, r))
        if not plan:
            return
        self.stats['widen'] += 1
        # sequences contribute their lengths as numbers
        lens = {}
        names = set()

        def nm(x):
            names.add((lk, x))
            return (lk, x)

        def seqterm(path, o, w):
            t = mk('w', nm(('q', self.pkey(path))), 'T', 's')
            lo, ln = self.vlen(o), self.vlen(w)
            lt = mk('len', t)
            lens.setdefault((lo, ln), []).append(lt)
            return t

        def ground(r):
            if isinstance(r, T):
                return r
            if r[0] == 'N':
                return ('N', r[1], r[2])
            if r[0] == 'Q':
                return seqterm(r[1], r[2], r[3])
            if r[0] == 'X':
                return mk('w', nm(('x', others.setdefault((r[2], r[3]), self.pkey(r[1])))), 'T', 'x')
            if r[0] == 'U':
                return ('U', r[1], [(el, ground(x)) for el, x in r[2]])
            return (r[0], r[1], [ground(x) if not isinstance(x, (str, int)) and x is not None else x for x in r[2]])
        plan = [(loc, ground(r)) for loc, r in plan]
        groups = {}
        for key in list(nums) + [k for k in lens if k not in nums]:
            if key[0] is key[1]:
                groups[key] = key[1]
                continue
            pk = nums.get(key) or ('len', min((x.a[0].a[0][1] for x in lens[key]), key=str))
            groups[key] = mk('w', nm(('n', pk)), 'T', 'u' if self.nonneg(st, pzn, pfacts, key) else 'i')

        # bounds valid before and after
        old = St()
        old.zn = pzn
        old.facts = pfacts
        bases = set()
        for Z in (st.zn, pzn):
            for (a, b) in Z:
                bases.add(a)
                bases.add(b)
        for (o, w) in groups:
            for x in (o, w):
                bases.add(self.lin(x)[0])
        bases.add(None)
        newz = {}
        ws = [(k, g) for k, g in groups.items() if k[0] is not k[1]]
        wterms = {g for _, g in ws}
        for (o, w), g in ws:
            oa, om = self.lin(o)
            wa, wm = self.lin(w)
            for y in bases:
                if y is not None and y in wterms:
                    continue
                d1, d2 = self.zdist(old, oa, y, y is None or oa is None), self.zdist(st, wa, y, y is None or wa is None)
                if d1 is not None and d2 is not None:
                    c = max(d1 + om, d2 + wm)
                    if n <= self.widen_at or d2 + wm <= d1 + om:
                        newz[(g, y)] = c
                d1, d2 = self.zdist(old, y, oa, y is None or oa is None), self.zdist(st, y, wa, y is None or wa is None)
                if d1 is not None and d2 is not None:
                    c = max(d1 - om, d2 - wm)
                    if n <= self.widen_at or d2 - wm <= d1 - om:
                        newz[(y, g)] = c
            for (o2, w2), g2 in ws:
                if g2 is g:
                    continue
                ob, on = self.lin(o2)
                wb, wn = self.lin(w2)
                d1, d2 = self.zdist(old, oa, ob), self.zdist(st, wa, wb)
                if d1 is not None and d2 is not None:
                    c1, c2 = d1 + om - on, d2 + wm - wn
                    if n <= self.widen_at or c2 <= c1:
                        newz[(g, g2)] = max(c1, c2)

        def build(r):
            if isinstance(r, T) or isinstance(r, (str, int)) or r is None:
                return r
            if r[0] == 'N':
                return groups[(r[1], r[2])]
            if r[0] == 'U':
                v = r[1]
                for el, x in r[2]:
                    v = self.put(st, v, (el,), build(x))
                return v
            return mk(r[1], *[build(x) for x in r[2]])
        st.zn.update(newz)
        for key, lts in lens.items():
            a, m = self.lin(groups[key])
            for lt in lts:
                st.zn[(lt, a)] = m
                st.zn[(a, lt)] = -m
        for loc, r in plan:
            self.set_root(st, loc, build(r))
        # the new symbols take their names over from those of earlier iterations
        self.age(st, *names)

    def nonneg(self, st, pzn, pfacts, key):
        o = St()
        o.zn, o.facts = pzn, pfacts
        a, m = self.lin(key[0])
        b, n = self.lin(key[1])
        d1 = self.zdist(o, None, a)
        d2 = self.zdist(st, None, b)
        return d1 is not None and d2 is not None and d1 - m <= 0 and d2 - n <= 0

    def pkey(self, path):
        # location identity without growing terms
        def k(x):
            if isinstance(x, T):
                return x.n
            if isinstance(x, tuple):
                return tuple(k(y) for y in x)
            return x
        return k(path)

    @staticmethod
    def numeric(v):
        return v.k in ('int', 'add', 'len', 'nlen') or (v.k == 'w' and v.a[-1] in ('u', 'i'))

    @staticmethod
    def seqlike(v):
        return v.k in ('vec', 'push', 'append', 'rm', 'cat') or (v.k == 'w' and v.a[-1] == 's')

    # ------------------------------------------------------------------ blocks
    def block(self, st, key, fid, bb, b):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget('steps in %s' % key)
        if DEADLINE and not self.steps & 255 and time.time() > DEADLINE:
            raise Budget('time in %s' % key)
        for s in b['s']:
            k = s[0]
            if k == '=':
                v = self.rvalue(st, fid, s[2])
                pl = s[1]
                if not pl['p']:
                    self.frame(st, fid)[pl['l']] = v
                else:
                    loc, path = self.place(st, fid, pl)
                    if self.on_assign:
                        self.on_assign(self, st, key, fid, pl, loc, path, v, s[3])
                    self.store(st, loc, path, v)
            elif k == 'dead':
                d = st.fr.get(fid)
                if d and s[1] in d:
                    self.frame(st, fid).pop(s[1], None)
            elif k == 'sd':
                loc, path = self.place(st, fid, s[1])
                v = self.load(st, loc, path)
                self.store(st, loc, path, mk('setv', v, s[2]))
        t = b['t']
        k = t['k']
        if k == 'goto':
            return [(st, t['t'])]
        if k == 'ret':
            self.stats['paths'] += 1
            return [(st, None)]
        if k == 'switch':
            return self.switch(st, fid, t)
        if k == 'drop':
            pl = t['p']
            if self.on_drop is not None:
                loc, path = self.place(st, fid, pl)
                self.on_drop(self, st, fid, t['ty'], self.load(st, loc, path), b.get('sp'))
            if not pl['p']:
                d = st.fr.get(fid)
                if d and pl['l'] in d:
                    self.frame(st, fid).pop(pl['l'], None)
            return [(st, t['t'])]
        if k == 'assert':
            m = t['m'][0]
            if m not in ('bounds', 'overflow'):
                return [(st, t['t'])] if not str(t['m'][1] if len(t['m']) > 1 else '').startswith(('Div', 'Rem')) else [(st, t['t'])]
            c = self.operand(st, fid, t['c'])
            if c.k == 'bot':
                return [(st, t['t'])]
            out = []
            for (s2, v) in self.branch(st, c):
                if v == t['e']:
                    out.append((s2, t['t']))
                elif self.on_panic:
                    self.on_panic(self, s2, fid, m, b.get('sp'))
            return out
        if k == 'call':
            return self.call(st, key, fid, bb, b, t)
        return []

    def switch(self, st, fid, t):
        d = self.operand(st, fid, t['d'])
        ts, o = t['ts'], t['o']
        if d.k == 'bot':
            return []
        if d.k in ('int', 'bool', 'char'):
            n = d.a[0]
            n = int(n) if d.k == 'bool' else n
            for v, b in ts:
                if v == n:
                    return [(st, b)]
            return [(st, o)] if o is not None else []
        out = []
        if t['dty'] == 'bool':
            for (s2, v) in self.branch(st, d):
                tgt = o
                for val, b in ts:
                    if val == int(v):
                        tgt = b
                out.append((s2, tgt))
            return out
        if d.k == 'discr':
            v, ty = d.a
            for val, b in ts:
                s2 = st.fork()
                iv = self.discr_is(d, val)
                if self.assume(s2, iv, True):
                    out.append((s2, b))
                if not self.assume(st, iv, False):
                    return out
            if o is not None and not self.is_unreachable(fid, o):
                out.append((st, o))
            return out
        ischar = t['dty'] == 'char'
        for val, b in ts:
            s2 = st.fork()
            c = mk('char', val) if ischar else I(val)
            if self.assume_cmp(s2, 'eq', d, c, True):
                out.append((s2, b))
            if not self.assume_cmp(st, 'eq', d, c, False):
                return out
        if o is not None and not self.is_unreachable(fid, o):
            out.append((st, o))
        return out

    def is_unreachable(self, fid, bb):
        key = self.stack[-1][0]
        b = self.F.fns[key]['blocks'][bb]
        return b['t']['k'] == 'unreach' and not b['s']

    # ------------------------------------------------------------------ calls
    def call(self, st, key, fid, bb, b, t):
        self.stats['calls'] += 1
        args = [self.operand(st, fid, a) for a in t['a']]
        c = Call()
        c.args, c.at, c.rty, c.span, c.fn, c.fid = args, t['at'], t['rty'], b.get('sp'), key, fid
        c.site = (fid, bb)
        c.diverges = t['t'] is None
        f = t['f'].get('k')
        if isinstance(f, dict) and 'fn' in f:
            c.name, c.res = norm(f['fn']), norm(f.get('res') or f['fn'])
            c.inst, c.xinst, c.local, c.targs = f.get('inst'), f.get('xinst'), bool(f.get('local')), f.get('targs') or []
            c.path = f['fn']
            outs = self.dispatch(st, c)
        else:
            fv = self.operand(st, fid, t['f']) if ('c' in t['f'] or 'm' in t['f']) else mk('konst', 'fn', '')
            c.name = c.res = 'fnptr'
            c.inst = c.xinst = None
            c.local, c.targs, c.path = False, [], ''
            outs = self.apply(st, c, fv, args)
        if t['t'] is None:
            return []
        res = []
        for (s2, v) in outs:
            pl = t['d']
            if not pl['p']:
                self.frame(s2, fid)[pl['l']] = v
            else:
                loc, path = self.place(s2, fid, pl)
                self.store(s2, loc, path, v)
            res.append((s2, t['t']))
        return res

    def dispatch(self, st, c):
        ld = self.lazy.get(c.res)
        if ld is not None:
            return [(st, mk('static', ld))]
        for p in self.pre:
            r = p(self, st, c)
            if r is not None:
                return r
        h = self.hooks.get(c.res) or self.hooks.get(c.name)
        if h is not None:
            r = h(self, st, c)
            if r is not None:
                return r if isinstance(r, list) else [(st, r)]
        local = bool(c.inst and c.inst in self.F.fns and c.local)
        if c.name in FNCALL and len(c.args) == 2 and c.args[1].k == 'tup':
            fv = c.args[0]
            n = 0
            while fv.k == 'ref' and n < 8:
                fv = self.load(st, fv.a[0], fv.a[1])
                n += 1
            if fv.k in ('clo', 'fn'):
                return self.apply(st, c, c.args[0], list(c.args[1].a))
        m = self.models.get(c.res) or (None if local else self.models.get(c.name))
        if m is None and not local:
            for (p, fn) in self.prefix_models:
                if c.res.startswith(p) or c.name.startswith(p):
                    m = fn
                    break
        if m is not None:
            r = m(self, st, c)
            if r is not None:
                return r if isinstance(r, list) else [(st, r)]
        key = c.inst if local else (c.xinst if c.xinst and c.xinst in self.F.fns else None)
        if key is None and c.inst and c.inst in self.F.fns:
            key = c.inst
        if key is not None:
            if any(k == key for k, _ in self.stack) and sum(k == key for k, _ in self.stack) > self.rec.get(key, 0):
                return self.opaque_call(st, c, key)
            if self.policy is not None and self.policy(self, st, c, key) == 'opaque':
                return self.opaque_call(st, c, key)
            return self.run(key, c.args, st, self.new_frame(c.fid, c.site[1], key))
        if c.diverges:
            if self.on_diverge:
                self.on_diverge(self, st, c)
            return []
        return self.opaque_call(st, c, None)

    def opaque_call(self, st, c, key):
        d = self.stats['opaque'] if key else self.stats['unmodelled']
        d[c.res] = d.get(c.res, 0) + 1
        if c.diverges:
            if self.on_diverge:
                self.on_diverge(self, st, c)
            return []
        # whatever it could write through mutable references is unknown afterwards
        muts = [(a, t) for a, t in zip(c.args, c.at) if t.startswith('&mut') or t.startswith('*mut')]
        r = self.result_term(st, c)
        for i, (a, t) in enumerate(muts):
            loc, path = self.deref(a)
            keep = []
            if key is not None and t.startswith('&mut ') and len(self.F.adts.get(t[5:], {}).get('variants', ())) == 1:
                keep = [(j, self.load(st, loc, path + (('', j),))) for j in self.kept_fields(t[5:], key)]
            self.store(st, loc, path, mk('hv', c.site, 0, i))
            for j, v in keep:
                self.store(st, loc, path + (('', j),), v)
        if key is not None:
            self.havoc_statics(st, c, key)
        return [(st, r)]

    def havoc_statics(self, st, c, key):
        keys = self.F.reach(key)[1]
        stat = set()
        for k in keys:
            stat |= self.fn_statics(k)
        for s in stat:
            loc = ('S', s)
            self.set_root(st, loc, mk('hv', c.site, 0, 's:' + s))
            for l in list(st.heap):
                if l[0] == 'H' and self.mentions_static(l[1], s):
                    keep = []
                    if l[1].k == 'static':
                        for p in self.unwritten(s, key):
                            p = tuple(('', i) for i in p)
                            keep.append((p, self.load(st, l, p)))
                    self.set_root(st, l, mk('hv', c.site, 0, 'h:' + s, l[1]))
                    for p, v in keep:
                        self.store(st, l, p, v)

    def unwritten(self, s, key):
        """fields of the structure in static `s` that nothing reachable from `key` can write"""
        m = self._dv.get(('uw', s, key))
        if m is not None:
            return m
        ty = self.F.statics.get(s, '')
        if ty == s:
            ty = ' '.join(t for n, t in self.F.statics.items() if s in n)
        adt = [a for a in self.F.adts if a != s and a.startswith(s.split('::')[0] + '::') and re.search(r'(?<![\w:])%s(?![\w:])' % re.escape(a), ty) and len(self.F.adts[a]['variants']) == 1]
        m = []
        if len(adt) == 1:
            m = [(i,) for i in self.kept_fields(adt[0], key)]
            for i, t in enumerate(self.F.adts[adt[0]]['variants'][0]['ftys']):
                g = re.match(r'std::cell::RefCell<([\w:]+)>$', t)
                if g and len(self.F.adts.get(g.group(1), {}).get('variants', ())) == 1:
                    m += [(i, j) for j in self.kept_fields(g.group(1), key)]
        self._dv[('uw', s, key)] = m
        return m

    def kept_fields(self, adt, key):
        m = self._dv.get(('kf', adt, key))
        if m is None:
            v = self.F.adts[adt]['variants'][0]
            w = set()
            for k in self.F.reach(key)[1]:
                if k in self.F.local:
                    w |= self.field_writes(k, adt)
            m = []
            if None not in w:
                m = [i for i, n in enumerate(v['fields']) if n not in w and ('Cell<' not in v['ftys'][i] or v['ftys'][i].startswith('std::rc::Rc<')) and 'Atomic' not in v['ftys'][i]]
            self._dv[('kf', adt, key)] = m
        return m

    def field_writes(self, k, adt):
        c = self._dv.get(('fw', k, adt))
        if c is not None:
            return c
        c = set()

        def pl(p):
            for q in p.get('p', ()):
                if q[0] == 'f' and len(q) > 2:
                    c.add(q[2])
        for b in self.F.fns[k]['blocks']:
            for s in b['s']:
                if s[0] == '=':
                    pl(s[1])
                    r = s[2]
                    if r[0] in ('ref', 'addr', 'raw') and r[1] not in ('shared', 'const', 'fake') and isinstance(r[2], dict):
                        pl(r[2])
                    if s[1].get('p') and s[1]['p'][-1][0] == 'd' and adt in self.F.fns[k]['locals'][s[1]['l']]['ty']:
                        c.add(None)
            t = b['t']
            if t['k'] == 'call':
                pl(t['d'])
                f = t['f'].get('k')
                if isinstance(f, dict) and 'fn' in f and f['fn'].startswith(('std::mem::', 'core::mem::', 'std::ptr::')) and any(adt in x for x in f.get('targs') or []):
                    c.add(None)
        self._dv[('fw', k, adt)] = c
        return c

    def mentions_static(self, t, s):
        if t.k == 'static':
            return t.a[0] == s
        return any(isinstance(x, T) and self.mentions_static(x, s) for x in t.a)

    def fn_statics(self, key):
        c = self._dv.get(('st', key))
        if c is None:
            c = set()

            def w(x):
                if isinstance(x, dict):
                    if 'static' in x and isinstance(x['static'], str):
                        c.add(x['static'])
                    for y in x.values():
                        w(y)
                elif isinstance(x, list):
                    for y in x:
                        w(y)
            for b in self.F.fns[key]['blocks']:
                w(b['s'])
                w(b['t'])
            self._dv[('st', key)] = c
        return c

    def result_term(self, st, c):
        if c.rty == '()':
            if st.cnt.get(c.site):
                self.age(st, c.site)
            st.cnt[c.site] = min(st.cnt.get(c.site, 0) + 1, self.gens)
            return UNIT
        t = self.fresh(st, 'call', c.site, c.res)
        if c.rty in ('usize', 'u32', 'u64', 'u8', 'u16'):
            return mk('u', t)
        return t

    def apply(self, st, c, fv, args):
        """call a closure / fn value with spread args"""
        fv0 = fv
        n = 0
        while fv.k == 'ref' and n < 8:
            fv = self.load(st, fv.a[0], fv.a[1])
            n += 1
        if fv.k == 'clo':
            key = self.closure_key(fv.a[0])
            if key is not None:
                f = self.F.fns[key]
                envty = f['locals'][1]['ty']
                if envty.startswith('&'):
                    if fv0.k != 'ref':
                        loc = ('A', (c.fid, 'clo', fv.n), 0)
                        self.set_root(st, loc, fv)
                        env = self.ref(loc)
                    else:
                        # one reference level down to the closure itself
                        env = fv0
                        while self.load1(st, env).k == 'ref':
                            env = self.load1(st, env)
                else:
                    env = fv
                if any(k == key for k, _ in self.stack):
                    return [(st, self.result_term(st, c))]
                return self.run(key, [env] + list(args), st, self.new_frame(c.fid, c.site[1], key))
        if fv.k == 'fn':
            c2 = Call()
            c2.args, c2.at, c2.rty, c2.span, c2.fn, c2.fid, c2.site, c2.diverges = list(args), [''] * len(args), c.rty, c.span, c.fn, c.fid, c.site, c.diverges
            c2.name, c2.res, c2.inst, c2.xinst, c2.local, c2.targs = fv.a[0], fv.a[1], fv.a[2], fv.a[3], fv.a[4], list(fv.a[5])
            c2.path = c2.name
            return self.dispatch(st, c2)
        for a in args:
            pass
        return [(st, self.result_term(st, c))]

    def closure_key(self, name):
        if name in self.F.fns:
            return name
        c = self._dv.get(('clo', name))
        if c is None:
            ks = [k for k, f in self.F.fns.items() if f['def'] == name or f['inst'] == name]
            c = ks[0] if len(ks) >= 1 else ''
            self._dv[('clo', name)] = c
        return c or None
