"""P27: the syntax tree says what the text says."""
import re
import ai
import base
from terms import *

RULE = ('For every production of the grammar the semantic action (MIR) is interpreted with symbolic parts, and the tree it builds is read back, by node type, into the sequence of '
        'operators and parts it stands for. That sequence must be the right-hand side of the production, with separators left out: the same operators, the same parts, each once, '
        'in the same order.')

ERASE = {'SemiColon', 'NewlineList', 'EOF', 'Newline', 'Space', 'Tab', 'Comment'}
NEEDED = ['And', 'Or', 'Pipe', 'Bang', 'Ampersand', 'Less', 'Greater', 'DoubleGreater', 'Equals', 'OpenBrace', 'SemiColon', 'NewlineList', 'Number', 'Word']
TOK = {'And': '&&', 'Or': '||', 'Pipe': '|', 'Bang': '!', 'Ampersand': '&', 'Less': '<', 'Greater': '>', 'DoubleGreater': '>>', 'Equals': '=', 'OpenBrace': '{', 'CloseBrace': '}',
       'OpenParen': '(', 'CloseParen': ')', 'SemiColon': ';', 'NewlineList': 'a line break', 'Number': 'a descriptor number', 'Word': 'a word'}


class Undecided(Exception):
    pass


class Wrong(Exception):
    pass


def short(ty):
    return ty.split('<')[0].rsplit('::', 1)[-1]


class Grammar:
    def __init__(self, F):
        self.F = F
        g = F.grammar or ''
        names = re.search(r'const __TERMINAL: &\[&str\] = &\[(.*?)\];', g, re.S)
        names = re.findall(r'r#+"(.*?)"#+,', names.group(1), re.S) if names else []
        num = {}
        for v, n in re.findall(r'^\s*(?:[\w:]+::)?(\w+)(?:\(.*?\))? if true => Some\((\d+)\),?$', g, re.M):
            num.setdefault(int(n), v)
        self.term = {names[n]: v for n, v in num.items() if n < len(names)}
        self.prods = []
        seen = set()
        for lhs, rhs, n in re.findall(r'^\s*// ([\w<>"?*+() ]+?) = (.*?) => ActionFn\((\d+)\);$', g, re.M):
            syms = re.findall(r'"(?:[^"\\]|\\.)*"|[^,\s][^,]*', rhs) if rhs.strip() else []
            p = (lhs.strip(), tuple(s.strip() for s in syms), int(n))
            if p not in seen:
                seen.add(p)
                self.prods.append(p)
        self.erasable, self.alias = set(), {}
        ch = True
        while ch:
            ch = False
            for l in {p[0] for p in self.prods}:
                if l in self.erasable:
                    continue
                ps = [p for p in self.prods if p[0] == l]
                if all(all(self.term.get(s) in ERASE or s in self.erasable for s in p[1]) for p in ps):
                    self.erasable.add(l)
                    ch = True
        for l in {p[0] for p in self.prods}:
            ts = {p[1] for p in self.prods if p[0] == l}
            if len(ts) == 1 and l not in self.erasable:
                (only,) = ts
                if len(only) == 1 and only[0] in self.term and self.term[only[0]] not in ('Word', 'Number', 'Subshell'):
                    self.alias[l] = self.term[only[0]]

    def action(self, n):
        ks = sorted(k for k in self.F.local if k.endswith('::__action%d' % n))
        return ks[0] if ks else None

    def expect(self, rhs):
        out = []
        for i, s in enumerate(rhs):
            if s in self.term:
                t = self.term[s]
                if t in ERASE:
                    continue
                out.append(i if t in ('Word', 'Number', 'Subshell') else t)
            elif s in self.erasable:
                continue
            elif s in self.alias:
                out.append(self.alias[s])
            else:
                out.append(i)
        return out


class Reader:
    def __init__(self, e, s, types):
        self.e, self.s, self.types = e, s, types

    def idx(self, v):
        """the part this value is, or None"""
        v = self.e.res(self.s, v)
        n = 0
        while isinstance(v, T) and n < 8:
            n += 1
            if v.k == 'in':
                return v.a[0]
            if v.k == 'app' and len(v.a) == 2 and isinstance(v.a[1], T) and v.a[0] in ('str', 'to_string', 'to_owned', 'as_str', 'String', 'clone'):
                v = self.e.res(self.s, v.a[1])
                continue
            if v.k == 'ref':
                v = self.e.load(self.s, *v.a)
                continue
            if v.k in ('u', 'box'):
                v = v.a[0]
                continue
            return None
        return None

    def field(self, v, name, ty):
        F = self.e.F
        for k, a in F.adts.items():
            if short(k) == ty:
                for var in a['variants']:
                    if name in var['fields']:
                        return self.e.res(self.s, self.e.val(self.s, self.e.proj(self.s, v, ('', var['fields'].index(name)))))
        raise Undecided('type %s has no field %s' % (ty, name))

    def opt(self, v, f):
        v = self.e.res(self.s, v)
        if self.e.is_variant(self.s, v, 'None') is True:
            return []
        if self.e.is_variant(self.s, v, 'Some') is True:
            return f(self.e.val(self.s, self.e.proj(self.s, v, ('Some', 0))))
        raise Undecided('an optional part is neither there nor missing: %s' % show(v, 3))

    def seq(self, v, f, sep):
        """a list value, read as its elements with sep between them"""
        v = self.e.res(self.s, v)
        if v.k == 'vec':
            out = []
            for i, x in enumerate(v.a):
                out += ([sep] if sep and i else []) + f(x)
            return out
        if v.k == 'push':
            a = self.seq(v.a[0], f, sep)
            return a + ([sep] if sep and a else []) + f(v.a[1])
        if v.k == 'f' and isinstance(v.a[0], T):
            i = self.idx(v.a[0])
            if i is not None:
                return [i]
        if v.k == 'append':
            a, b = self.seq(v.a[0], f, sep), self.seq(v.a[1], f, sep)
            return a + ([sep] if sep and a and b else []) + b
        i = self.idx(v)
        if i is not None:
            return [i]
        raise Undecided('a list is not followed: %s' % show(v, 3))

    def text(self, v):
        v = self.e.res(self.s, v)
        if v.k == 'str':
            x = v.a[0]
            if x == '':
                return []
            if x == '=':
                return ['Equals']
            raise Wrong('puts the text %r in' % x)
        i = self.idx(v)
        if i is not None:
            return [i]
        if v.k == 'app' and v.a[0] in ('concat', 'push_str', 'fmt', 'cat'):
            out = []
            for x in v.a[1:]:
                for y in (x if isinstance(x, tuple) else (x,)):
                    out += self.text(y)
            return out
        if v.k in ('cat', 'concat', 'fmt'):
            out = []
            for x in v.a:
                for y in (x if isinstance(x, tuple) else (x,)):
                    if isinstance(y, T):
                        out += self.text(y)
            return out
        if v.k == 'app' and isinstance(v.a[0], str) and re.match(r'(.*::)?(trim|to_lower|to_upper|to_ascii|replace|repeat|slice|rev)', v.a[0]):
            raise Wrong('changes the text of a part (%s)' % v.a[0])
        raise Undecided('a text is not followed: %s' % show(v, 4))

    def variant(self, v):
        v = self.e.res(self.s, v)
        n = v.a[1] if v.k == 'adt' else self.e.variant_of(self.s, v)
        if n is None:
            raise Undecided('the kind of a node is not known: %s' % show(v, 3))
        return n

    def bool(self, v):
        v = self.e.res(self.s, v)
        if v is TRUE or v is FALSE:
            return v is TRUE
        raise Undecided('a mark is not a constant: %s' % show(v, 3))

    def sub(self, ty):
        return lambda v: self.read(v, ty)

    def read(self, v, ty):
        v = self.e.val(self.s, v)
        v = self.e.res(self.s, v)
        i = self.idx(v)
        if i is not None:
            return [i]
        F = lambda n: self.field(v, n, ty)
        if ty == 'Box':
            return self.read(v.a[0], 'AndOr')
        if ty == 'CompleteCommand':
            return self.opt(F('list'), self.sub('List'))
        if ty == 'AndOr':
            left = self.opt(F('and_or'), self.sub('AndOr'))
            op = self.opt(F('conditional_exec'), lambda x: [self.variant(x)])
            if bool(left) != bool(op):
                raise Wrong('has an operator without a left side or the reverse')
            return left + op + self.read(F('pipeline'), 'Pipeline')
        if ty == 'Pipeline':
            return (['Bang'] if self.bool(F('bang')) else []) + self.read(F('pipe_sequence'), 'PipeSequence') + (['Ampersand'] if self.bool(F('background')) else [])
        if ty in ('PipeSequence', 'List', 'Term', 'RedirectList'):
            el = {'PipeSequence': 'Command', 'RedirectList': 'IoRedirect'}.get(ty, 'AndOr')
            return self.seq(self.e.val(self.s, self.e.proj(self.s, v, ('', 0))), self.sub(el), 'Pipe' if ty == 'PipeSequence' else None)
        if ty == 'Command':
            n = self.variant(v)
            x = self.e.val(self.s, self.e.proj(self.s, v, (n, 0)))
            out = self.read(x, n if n != 'SimpleCommand' else 'SimpleCommand')
            if n == 'CompoundCommand':
                out = out + self.opt(self.e.proj(self.s, v, (n, 1)), self.sub('RedirectList'))
            return out
        if ty == 'CompoundCommand':
            n = self.variant(v)
            if n != 'BraceGroup':
                raise Undecided('a compound command of kind %s' % n)
            return self.read(self.e.proj(self.s, v, (n, 0)), n)
        if ty == 'BraceGroup':
            return ['OpenBrace'] + self.read(self.e.proj(self.s, v, ('', 0)), 'CompoundList') + ['CloseBrace']
        if ty == 'CompoundList':
            return self.read(self.e.proj(self.s, v, ('', 0)), 'Term')
        if ty == 'FunctionDefinition':
            return self.text(F('name')) + ['OpenParen', 'CloseParen'] + self.read(F('function_body'), 'FunctionBody')
        if ty == 'FunctionBody':
            return self.read(F('compound_command'), 'CompoundCommand') + self.opt(F('redirect_list'), self.sub('RedirectList'))
        if ty == 'SimpleCommand':
            return self.opt(F('prefix'), self.sub('Prefix')) + self.text(F('name')) + self.opt(F('suffix'), self.sub('Suffix'))
        if ty == 'IoRedirect':
            return self.opt(F('io_number'), lambda x: self.number(x)) + self.opt(F('io_file'), self.sub('IoFile')) + self.opt(F('io_here'), lambda x: self.und('here'))
        if ty == 'IoFile':
            n = self.variant(F('redirect_type'))
            op = {'Input': 'Less', 'Output': 'Greater', 'Append': 'DoubleGreater'}.get(n)
            if op is None:
                raise Wrong('becomes a redirection of kind %s' % n)
            return [op] + self.text(F('filename'))
        if ty in ('String', 'str'):
            return self.text(v)
        raise Undecided('a node of type %s' % ty)

    def number(self, v):
        v = self.e.res(self.s, v)
        i = self.idx(v)
        if i is None:
            if v.k == 'int':
                raise Wrong('has the descriptor number %s' % v.a[0])
            raise Undecided('a number is not followed: %s' % show(v, 3))
        return [i]

    def und(self, what):
        raise Undecided(what)


def parts(R, v, ty):
    """a prefix or suffix: (redirections, words) each in order"""
    words = 'assignment' if ty == 'Prefix' else 'word'
    return (R.seq(R.field(v, 'io_redirect', ty), R.sub('IoRedirect'), None), R.seq(R.field(v, words, ty), R.text, None))


def check(F, R):
    R.rule = RULE
    G = Grammar(F)
    if not G.prods or not G.term:
        R.ob('the grammar is found', 'undecided')
        R.note('the generated parser has another form than expected')
        return
    R.count('productions', len(G.prods))
    used = {G.term.get(s) for p in G.prods for s in p[1]}
    for t in NEEDED:
        ob = 'the grammar has %s' % TOK[t]
        R.ob(ob, 'ok' if t in used else 'violated')
        if t not in used:
            R.violation('no:' + t, 'no construct of the grammar contains %s any more' % TOK[t], 'src/grammar.lalrpop')
    for lhs, rhs, n in G.prods:
        text = '%s = %s' % (lhs, ' '.join(rhs))
        if lhs in G.erasable or lhs in G.alias or lhs.startswith('__'):
            continue
        k = G.action(n)
        if k is None:
            R.ob(text, 'undecided')
            continue
        f = F.fns[k]
        R.functions.add(k)
        e = ai.Engine(F)
        e.policy = lambda e, st, c, key: 'inline'
        args, types = [], {}
        j = 0
        for i in range(1, f['nargs'] + 1):
            ty = f['locals'][i]['ty']
            m = re.match(r'^\(usize, (.*), usize\)$', ty, re.S)
            if m and ty != '(usize, usize)':
                args.append(mk('tup', mk('in', 100 + i, 'usize'), mk('in', j, m.group(1)), mk('in', 200 + i, 'usize')))
                types[j] = m.group(1)
                j += 1
            else:
                args.append(mk('in', 300 + i, ty))
        if j != len(rhs):
            R.ob(text, 'undecided')
            continue
        ty = short(f['locals'][0]['ty'])
        want = G.expect(rhs)
        where = '%s (%s)' % ('src/grammar.lalrpop', text)
        outs = base.run(e, k, args, ai.St())
        R.count('abstract results read back', len(outs))
        if not outs:
            R.ob(text, 'undecided')
        for s, v in outs:
            rd = Reader(e, s, types)
            try:
                x = e.res(s, e.val(s, v))
                if ty in ('Prefix', 'Suffix') and rd.idx(x) is None:
                    got = parts(rd, x, ty)
                    full = [[], []]
                    for w in want:
                        t = short(types[w]) if isinstance(w, int) else None
                        if t is None:
                            raise Undecided('an operator directly in a %s' % ty)
                        if t == ty:
                            full[0].append(w)
                            full[1].append(w)
                        else:
                            full[0 if t == 'IoRedirect' else 1].append(w)
                    got, exp = [list(g) for g in got], full
                else:
                    got, exp = rd.read(x, ty), want
            except Undecided as u:
                R.ob(text, 'undecided')
                R.note('%s: %s' % (text, u))
                continue
            except Wrong as w:
                R.ob(text, 'violated')
                R.violation('wrong:' + text, 'the tree for `%s` %s' % (text, w), where)
                continue
            if got != exp and len(outs) > 1 and (e.stats['widen'] or e.stats['merges']):
                R.ob(text, 'undecided')
                R.note('%s: built by a loop' % text)
            elif got == exp:
                R.ob(text)
                R.sample('%s reads back as %s' % (text, got))
            else:
                nm = lambda l: '[%s]' % ' '.join(nm(y) if isinstance(y, list) else rhs[y] if isinstance(y, int) else TOK.get(y, y) for y in l)
                R.ob(text, 'violated')
                R.violation('tree:' + text, 'the tree for `%s` says %s instead of %s' % (text, nm(got), nm(exp)), where)
    R.assume = ['the parse tables LALRPOP generates recognise exactly the productions they are generated from']
