"""Abstract interpretation of the tokenizer over every text: the characters it takes from the text, in order, are
followed through the code and compared with the extents and the kind of the token delivered."""
import ai
import base
import proc
from terms import *

OPS = {'SemiColon': ';', 'Pipe': '|', 'Or': '||', 'Ampersand': '&', 'And': '&&', 'Greater': '>', 'DoubleGreater': '>>', 'GreaterAnd': '>&', 'Less': '<',
       'DoubleLess': '<<', 'LessAnd': '<&', 'OpenParen': '(', 'CloseParen': ')', 'OpenBrace': '{', 'CloseBrace': '}', 'Equals': '=', 'Bang': '!'}
KEYS = {'For': 'for', 'In': 'in', 'While': 'while', 'If': 'if', 'Then': 'then', 'Else': 'else', 'Elif': 'elif', 'Fi': 'fi', 'Do': 'do', 'Done': 'done', 'Case': 'case', 'Esac': 'esac'}
QUOTES = '"\'`'
BREAK = ';&|<>(){}=!$`'


SPECIAL = BREAK + '"\'#\n'
WHITE = 'std::char::methods::<impl char>::is_whitespace'
QUICK = [' ', '\t', '\r', '\u00a0', '\u3000']
BLANKS = [chr(x) for x in [9, 11, 12, 13, 0x20, 0x85, 0xa0, 0x1680, *range(0x2000, 0x200b), 0x2028, 0x2029, 0x202f, 0x205f, 0x3000]]


def cell(n):
    return ('S', '@lex:' + n)


TAIL = mk('tailcall', 0)


class Token:
    def __init__(self, st, kind, **kw):
        self.st, self.kind = st, kind
        self.__dict__.update(kw)


class Lex:
    def __init__(self, F, R, blanks):
        self.F, self.R = F, R
        self.classes = list(SPECIAL) + list(blanks) + ['other']
        nx = [k for k, f in F.local.items() if f['nargs'] == 1 and f['locals'][0]['ty'].startswith('std::option::Option<std::result::Result<(usize, ') and f['locals'][1]['ty'].startswith('&mut ')
              and 'lexer::Error' in f['locals'][0]['ty']]
        self.next = sorted(nx)[0] if nx else None
        self.new = None
        if self.next:
            ty = ai.base_ty(F.fns[self.next]['locals'][1]['ty'])
            self.ty = ty
            cs = [k for k, f in F.local.items() if f['nargs'] == 1 and f['locals'][1]['ty'] == '&str' and ai.base_ty(f['locals'][0]['ty']) == ty]
            self.new = sorted(cs)[0] if cs else None
        self.widen_at = 0
        self.tokens = []
        self.problems = []     # (property, key, message, where)
        self.unknown = []
        self.states = 0

    # -------------------------------------------------------------- monitor
    def get(self, st, k, d=None):
        return proc.get(st, k, d)

    def fact(self, st, c, ch):
        """True / False / None: the character is ch"""
        c = self.e.res(st, c)
        if c.k == 'char':
            return chr(c.a[0]) == ch
        f = st.facts.get(c)
        if f and f[0] == 'n' and mk('char', ord(ch)) in f[1]:
            return False
        return None

    def white(self, st, c):
        c = self.e.res(st, c)
        if c.k == 'char':
            return chr(c.a[0]) in BLANKS + ['\n']
        return self.e.decide(st, mk('pred', 'app', mk('app', WHITE, c), UNIT))

    def known(self, st, c):
        c = self.e.res(st, c)
        return chr(c.a[0]) if c.k == 'char' else None

    def flush(self, st, force=True):
        """classify the last character taken, once the code has looked at it"""
        g = lambda k, d=None: proc.get(st, k, d)
        if not g('pend'):
            return
        c = st.heap[cell('lchr')]
        ch = self.known(st, c)
        mode = g('mode')
        if mode == 'idle':
            w = self.white(st, c)
            if ch is None and w is None and not force:
                return
            proc.put(st, 'pend', False)
            if ch != '\n' and w:
                return
            if ch == '#':
                proc.put(st, 'mode', 'comment')
                return
            self.begin(st, ch)
            return
        if mode == 'comment':
            f = self.fact(st, c, '\n')
            if f is None and not force:
                return
            proc.put(st, 'pend', False)
            if f is not False:
                self.begin(st, ch)
            return
        text = g('text')
        first = text[0]
        if first is not None and first in QUOTES:
            q = self.fact(st, c, first)
            if q is None and not force:
                return
            if g('closed') is not False:
                self.problem('P26', 'after-quote:' + first, 'a token can go on after its closing quote %s' % first, self.where(self.next))
            proc.put(st, 'closed', True if q else 'maybe' if q is None else False)
        elif first != '$' or (len(text) > 1 and text[1] != '('):
            if self.cls == 'other' and first is None:
                may = [b for b in BREAK if self.fact(st, c, b) is not False]
                w = ch is None and self.white(st, c) is not False or ch is not None and ch in BLANKS
                if (may or w) and ch is None and not force:
                    return
                if may:
                    self.problem('P26', 'absorbs:' + ''.join(may), 'a word can contain the operator character %s' % ' '.join(may), self.where(self.next))
                if w:
                    self.problem('P26', 'absorbs-blank', 'a word can contain a blank', self.where(self.next))
        elif ch is None and not force:
            return
        if first == '\n' and ch != '\n':
            w = self.white(st, c)
            if ch is None and w is None and not force:
                return
            if ch is not None and not w or ch is None and w is False:
                self.problem('P25', 'newline-absorbs', 'a line break can swallow a character that is no blank', self.where(self.next))
            elif not w:
                self.unknown.append('what follows a line break is not known')
        proc.put(st, 'pend', False)
        if first is None or first in QUOTES:
            return
        if len(text) >= 3 and text[-1] == ch and text[-2] == ch:
            return
        if len(text) < 3:
            proc.put(st, 'text', text + (ch,))
        else:
            proc.put(st, 'text', text[:2] + (None,))

    def begin(self, st, ch):
        proc.put(st, 'mode', 'token')
        proc.put(st, 'text', (ch if ch is None or ch in BREAK or ch in QUOTES or ch == '\n' else None,))
        proc.put(st, 'closed', False)
        self.e.set_root(st, cell('start'), st.heap[cell('lpos')])
        self.e.set_root(st, cell('first'), st.heap[cell('lchr')])

    def consume(self, st, pos, ch, end):
        self.flush(st)
        for k, v in (('lpos', pos), ('lchr', ch), ('lend', end)):
            self.e.set_root(st, cell(k), v)
        proc.put(st, 'pend', True)
        proc.put(st, 'any', True)
        proc.put(st, 'stale', frozenset())
        self.flush(st, False)

    def endof(self, st, pos, ch):
        return self.e.binop(st, 'Add', pos, mk('u', mk('app', 'len_utf8', ch)))

    def on_iter(self, e, st, c, it, elem, rty):
        while isinstance(it, T) and it.k in ('peek', 'enum', 'cloned'):
            it = it.a[0]
        if it.k != 'iter' or it.a[0].k not in ('charidx', 'chars') or it.a[0].a[0] is not self.text:
            return
        if it.a[0].k == 'chars' or elem is None or elem.k != 'tup':
            pos, ch = mk('hv', ((0, 0), 'lexpos'), 0, 0), (elem or UNIT)
        if elem is not None and elem.k == 'tup':
            pos, ch = elem.a[0], elem.a[1]
        if self.lag:
            if self.get(st, 'cur') == 'yes':
                self.consume(st, st.heap[cell('cpos')], st.heap[cell('cchr')], st.heap[cell('cend')])
            proc.put(st, 'cur', 'end' if elem is None else 'yes')
            if elem is not None:
                e.set_root(st, cell('cpos'), pos)
                e.set_root(st, cell('cchr'), ch)
                e.set_root(st, cell('cend'), self.endof(st, pos, ch))
        elif elem is None:
            proc.put(st, 'cur', 'end')
        else:
            self.consume(st, pos, ch, self.endof(st, pos, ch))

    def on_head(self, e, st, fid, bb, back):
        if not self.running:
            return
        self.flush(st, False)
        live = {f for _, f in e.stack}
        stale = frozenset(x for x in proc.get(st, 'stale', frozenset()) if x[0] in live)
        if back and (fid, bb) in stale:
            k = e.frame_info[fid][2]
            self.problem('P25', 'loop:%s' % k, 'a loop in %s can go round without taking a character from the text' % k, self.where(k))
        proc.put(st, 'stale', stale | {(fid, bb)})

    def where(self, k):
        f = self.F.fns.get(k)
        if f is None:
            return ''
        return '%s:%s' % tuple(f['span'][:2])

    def problem(self, *p):
        if p not in self.problems:
            self.problems.append(p)

    # -------------------------------------------------------------- engine
    def engine(self):
        e = self.e = ai.Engine(self.F)
        e.disj = 8
        e.mem_disj = 200
        e.max_states = 6000
        e.mon_widen = True
        e.widen_at = self.widen_at
        e.policy = lambda e, st, c, key: 'inline'
        e.rec = {self.next: 1}
        e.on_iter = self.on_iter
        e.on_head = self.on_head

        def index(e, st, c):
            if not c.at[1].startswith(('std::ops::Range', 'std::range')):
                return None
            r = e.val(st, c.args[1])
            if r.k == 'adt' and (r.a[0].split('<')[0].endswith('RangeFull') or r.a[0].split('<')[0].endswith('RangeFrom') and r.a[2].k == 'int' and r.a[2].a[0] == 0):
                return [(st, c.args[0])]
            return [(st, mk('app', 'slice', e.val(st, c.args[0]), r))]
        e.hooks['std::ops::Index::index'] = index
        for n in self.F.fns:
            pass

        def pre(e, st, c):
            if self.running and c.inst == self.next and e.stack and c.args and e.deref(c.args[0]) == self.home:
                # the tokenizer asks itself for the next token: that is a state it can be in between two calls
                self.flush(st)
                proc.put(st, 'tail', (self.get(st, 'cur'), self.canon(st, e.load(st, *self.home))))
                return [(st, TAIL)]
            if c.name == WHITE:
                ch = e.val(st, c.args[0])
                if e.res(st, ch).k == 'char':
                    return [(st, B(self.white(st, ch)))]
            if c.name.endswith('len_utf8'):
                return [(st, mk('u', mk('app', 'len_utf8', e.val(st, c.args[0]))))]
            return None
        e.pre.append(pre)

        def panic(e, st, fid, what, span, *a):
            if not self.running or what == 'slice':
                return
            k = e.stack[-1][0] if e.stack else '?'
            self.problem('P25', 'panic:%s:%s' % (k, what), 'splitting a text can panic in %s (%s)' % (k, what), '%s:%s' % tuple(span[:2]))
        e.on_panic = panic
        return e

    def canon(self, st, v, path=()):
        """the tokenizer between two calls, forgetting how far it is"""
        e = self.e
        v = e.res(st, v)
        if v.k == 'ref' and not path:
            return self.canon(st, e.load(st, *v.a))
        if self.lag and self.get(st, 'cur') == 'yes':
            for n, ty in (('cpos', 'usize'), ('cchr', 'char'), ('cend', 'usize')):
                if v is e.res(st, st.heap.get(cell(n))) and v.k not in ('bool', 'str'):
                    return self.sym[n]
        if v.k in ('bool', 'str', 'char', 'int') or v is NONE or v is UNIT:
            return v
        if v is self.text or v is self.arg:
            return v
        if v.k == 'iter' and v.a[0].k in ('charidx', 'chars') and v.a[0].a[0] is self.text:
            if self.get(st, 'cur') == 'end':
                return mk('iter', v.a[0], v.a[1], e.vlen(v.a[0]))
            return mk('iter', v.a[0], v.a[1], mk('len', mk('in', 83, 'P')))
        if v.k in ('adt', 'tup', 'peek', 'enum'):
            return mk(v.k, *[self.canon(st, x, path + (i,)) if isinstance(x, T) else x for i, x in enumerate(v.a)])
        if v.k == 'upd':
            b = self.canon(st, v.a[0], path + ('b',))
            for el, x in v.a[1]:
                b = e.put(st, b, (el,), self.canon(st, x, path + (str(el),)))
            return b
        self.unknown.append('a part of the tokenizer is not followed between calls: %s' % show(v, 3))
        return mk('in', 84 + (hash(str(path)) % 1000), 'unknown')

    def run(self):
        F = self.F
        e = self.engine()
        self.running = False
        self.lag = False
        self.cls = None
        f = F.fns[self.new]
        self.arg = mk('in', 0, '&str')
        st = ai.St()
        self.text = e.val(st, self.arg)
        reads = []
        keep = e.on_iter
        e.on_iter = lambda e, s, c, it, el, rty: reads.append(1)
        base.run(e, self.new, [self.arg], ai.St())
        self.lag = bool(reads)
        e = self.engine()
        self.sym = {'cpos': mk('in', 81, 'usize'), 'cchr': mk('in', 82, 'char')}
        self.sym['cend'] = self.endof(ai.St(), self.sym['cpos'], self.sym['cchr'])
        st = ai.St()
        for n in ('cpos', 'cchr', 'cend', 'lpos', 'lchr', 'lend', 'start', 'first'):
            e.set_root(st, cell(n), UNIT)
        todo, seen = [], set()
        for s, v in base.run(e, self.new, [self.arg], st):
            todo.append((self.get(s, 'cur'), self.canon(s, v), False))
        self.running = True
        self.R.functions |= e.stats['inlined']
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if len(seen) > 40:
                self.unknown.append('the tokenizer keeps more state between calls than is followed')
                break
            cur, lv, emitted = x
            for cls in (self.classes if cur != 'end' else ['end']):
                e = self.engine()
                st = ai.St()
                for n in ('cpos', 'cchr', 'cend', 'lpos', 'lchr', 'lend', 'start', 'first'):
                    e.set_root(st, cell(n), self.sym.get(n, UNIT))
                for k, v in (('cur', cur), ('mode', 'idle'), ('pend', False), ('text', ()), ('closed', False), ('any', False), ('stale', frozenset())):
                    proc.put(st, k, v)
                a = mk('in', 0, F.fns[self.next]['locals'][1]['ty'])
                loc, path = self.home = e.deref(a)
                e.store(st, loc, path, lv)
                c = self.sym['cchr'] if self.lag else self.peeked(e, st, lv)
                if cls != 'end' and c is not None:
                    if len(cls) == 1:
                        e.learn_const(st, c, mk('char', ord(cls)), True)
                    else:
                        for ch in SPECIAL:
                            e.learn_const(st, c, mk('char', ord(ch)), False)
                        e.assume(st, mk('pred', 'app', mk('app', WHITE, c), UNIT), False)
                self.cls = 'blank' if cls in BLANKS else cls
                outs = base.run(e, self.next, [a], st)
                self.R.functions |= e.stats['inlined']
                self.states += len(outs)
                for s, v in outs:
                    t = self.token(e, s, v)
                    t.emitted, t.cls, t.eng = emitted, self.cls, e
                    if t.kind == 'Tail':
                        todo.append(self.get(s, 'tail') + (emitted,))
                        if t.mode == 'token':
                            self.problem('P25', 'dropped:' + ascii(t.cls), 'characters taken from the text (first: %s) can be dropped before the next token' % ascii(t.cls), self.where(self.next))
                        continue
                    nl = self.canon(s, e.load(s, loc, path))
                    todo.append((self.get(s, 'cur'), nl, emitted or t.kind == 'EOF'))
                    self.tokens.append(t)
        return self

    def token(self, e, s, v):
        self.flush(s)
        g = lambda k, d=None: proc.get(s, k, d)
        nxt = None
        if g('cur') == 'yes' and self.lag:
            nxt = s.heap[cell('cchr')]
        elif not self.lag and g('cur') != 'end':
            lv = e.load(s, *e.deref(mk('in', 0, self.F.fns[self.next]['locals'][1]['ty'])))
            nxt = self.peeked(e, s, lv)
            if nxt is not None:
                more = e.decide(s, e.boolean(s, 'lt', nxt.a[1], e.vlen(self.chars(e, s, lv))))
                proc.put(s, 'cur', {True: 'yes', False: 'end', None: g('cur')}[more])
        common = dict(mode=g('mode'), text=g('text'), cur=g('cur'), any=g('any'), closed=g('closed'), next=nxt, start=s.heap[cell('start')], end=s.heap[cell('lend')], first=s.heap[cell('first')])
        if v is TAIL:
            return Token(s, 'Tail', **common)
        if v is NONE or e.is_variant(s, v, 'None') is True:
            return Token(s, 'None', **common)
        x = e.res(s, e.proj(s, v, ('Some', 0)))
        if e.is_variant(s, x, 'Err') is True:
            return Token(s, 'Err', **common)
        t = e.res(s, e.proj(s, x, ('Ok', 0)))
        if e.is_variant(s, x, 'Ok') is not True or t.k != 'tup':
            return Token(s, 'unknown', value=v, **common)
        tok = e.res(s, t.a[1])
        if tok.k != 'adt':
            n = e.variant_of(s, tok)
            if n is None:
                return Token(s, 'unknown', value=tok, **common)
        else:
            n = tok.a[1]
        arg = e.val(s, e.proj(s, tok, (n, 0))) if tok.k == 'adt' and len(tok.a) > 2 else None
        return Token(s, n, lo=e.res(s, t.a[0]), hi=e.res(s, t.a[2]), arg=arg, **common)

    def chars(self, e, s, lv):
        out = []

        def w(t):
            if isinstance(t, T):
                if t.k == 'iter' and t.a[0].k in ('charidx', 'chars') and t.a[0].a[0] is self.text:
                    out.append(t.a[0])
                for x in t.a:
                    w(x)
            elif isinstance(t, tuple):
                for x in t:
                    w(x)
        w(lv)
        return out[0]

    def deep(self, t, x):
        """the term with every character known in the end state put in"""
        e, s = t.eng, t.st
        if not isinstance(x, T):
            return x
        y = e.res(s, x)
        if y.k in ('char', 'int', 'str'):
            return y
        return mk(y.k, *[self.deep(t, z) if isinstance(z, T) else tuple(self.deep(t, q) for q in z) if isinstance(z, tuple) else z for z in y.a])

    def peeked(self, e, s, lv):
        out = []

        def w(t):
            if isinstance(t, T):
                if t.k == 'iter' and t.a[0].k in ('charidx', 'chars') and t.a[0].a[0] is self.text:
                    out.append(mk('chr', self.text, t.a[2]))
                for x in t.a:
                    w(x)
            elif isinstance(t, tuple):
                for x in t:
                    w(x)
        w(lv)
        return out[0] if out else None


    def bounds(self, t, r):
        """the two ends of a range of text"""
        e, s = t.eng, t.st
        n = r.a[0].split('<')[0].rsplit('::', 1)[-1] if r.k == 'adt' else ''
        if n == 'Range':
            return e.res(s, r.a[2]), e.res(s, r.a[3])
        if n == 'RangeFrom':
            return e.res(s, r.a[2]), None
        if n == 'RangeTo':
            return I(0, 'usize'), e.res(s, r.a[2])
        return None, None

    def parsed(self, a):
        """the text a number was read from"""
        todo = [a]
        while todo:
            y = todo.pop()
            if isinstance(y, T):
                if y.k == 'app' and isinstance(y.a[0], str) and y.a[0].startswith('parse'):
                    return y.a[1]
                todo += list(y.a)
            elif isinstance(y, tuple):
                todo += list(y)
        return None

    def word_fact(self, t):
        """(the word's text if it is known, the texts it is known not to be): from the facts about any text cut out of the input"""
        s = t.st
        c, no = None, set()
        for k, f in s.facts.items():
            y = k
            while isinstance(y, T) and y.k == 'app' and y.a[0] in ('str', 'as_str', 'trim') and len(y.a) == 2:
                y = y.a[1]
            if not (isinstance(y, T) and (y.k == 'app' and y.a[0] == 'slice' or y.k in ('w', 'u'))):
                continue
            if f[0] == 'c' and isinstance(f[1], T) and f[1].k == 'str':
                c = f[1].a[0]
            elif f[0] == 'n':
                no |= {z.a[0] for z in f[1] if isinstance(z, T) and z.k == 'str'}
        return c, no

    def exact(self, *ts):
        """no term stands for more than one run"""
        for t in ts:
            todo = [t]
            while todo:
                y = todo.pop()
                if isinstance(y, T):
                    if y.k in ('w', 'hv') or y.k == 'u' and not (y.a[0].k == 'cidx' or y.a[0].k == 'app' and y.a[0].a[0] == 'len_utf8'):
                        return False
                    todo += list(y.a)
                elif isinstance(y, tuple):
                    todo += list(y)
        return True


def analyse(F, R, blanks=QUICK):
    x = Lex(F, R, blanks)
    if x.next and x.new:
        x.run()
    return x
