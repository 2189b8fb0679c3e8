"""P31: start-up. The main function is interpreted once per shape of the command line (the arguments themselves stay
symbolic); the first thing it reads, the variables it sets and the text it evaluates must be the ones named."""
import ai
import base
import effects
import facts
import mainrun
from mainrun import sub
from proc import get, put, arg_types
from terms import *

RULE = ('For each shape of the command line (options, -c with texts, script with arguments) every path of main, from the '
        'process arguments to the first line read or to the exit, does exactly what the shape says: interactive reads the '
        'terminal and nothing else; -c evaluates one tree parsed from the arguments after it joined by one blank and reads '
        'nothing; a script opens that name, reads lines only from it, after storing 0=script, 1=first, 2=second ... ; '
        'the exit status is the status last stored.')

SHAPES = [
    ('no arguments', ['p'], 'tty', None),
    ('one option', ['p', '-l'], 'tty', None),
    ('-c text', ['p', '-c', 'x'], '-c', 2),
    ('-c three texts', ['p', '-c', 'x', 'y', 'z'], '-c', 2),
    ('-l -c text', ['p', '-l', '-c', 'x'], '-c', 3),
    ('-c alone', ['p', '-c'], '-c', 2),
    ('-c -c', ['p', '-c', '-c'], '-c', 2),
    ('script', ['p', 's'], 'file', 1),
    ('script one', ['p', 's', 'a'], 'file', 1),
    ('script three', ['p', 's', 'a', 'b', 'd'], 'file', 1),
    ('script dash', ['p', 's', '-c', 'b'], 'file', 1),
    ('option script two', ['p', '-l', 's', 'a', 'b'], 'file', 2),
]
LONG = [('script eleven', ['p', 's'] + ['a%d' % i for i in range(11)], 'file', 1),
        ('-c nine', ['p', '-c'] + ['a%d' % i for i in range(9)], '-c', 2)]
STR = ('&str', '&std::string::String', 'std::string::String')


class Start(mainrun.Main):
    def __init__(self, F, R, shape, args, kind, at):
        mainrun.Main.__init__(self, F)
        self.R, self.shape, self.kind, self.at = R, shape, kind, at
        self.v = [S(a) if a.startswith('-') else mk('in', 50 + i, 'std::string::String') for i, a in enumerate(args)]
        self.seen = set()
        self.bads = {}
        self.und = set()
        self.ex = 0

    def err(self, what, msg, c, f=None):
        self.bads.setdefault((what, f or (c.fn if c is not None else 'main')), (msg, '%s:%s' % tuple(c.span[:2]) if c is not None and c.span else None))

    def known(self, t):
        """built from the arguments and literals only"""
        return all(y.k not in ('call', 'hv', 'havoc', 'fresh', 'wid', 'top', 'ld', 'phi') and not (y.k in ('call', 'hv')) for y in sub(t))

    def more(self, k, n, ks):
        if ks & self.evalfns or any('rustyline' in x for x in n) or k.startswith('trap::') or 'nix::sys::signal::sigaction' in n:
            return False
        es = set()
        for x in ks:
            if x in self.F.local:
                es |= effects.direct(self.F, x)
        if 'var-insert' in es:
            return True
        ts = [l['ty'] for l in self.F.fns[k]['locals'][1:1 + self.F.fns[k]['nargs']]]
        return not es & {'chdir', 'exec', 'fork'} and any('str' in t.lower() or t == 'bool' for t in ts) or any('script' in t for t in ())

    def setup(self, e):
        e.widen_at = 2 * len(self.v) + 8
        v = mk('vec', *self.v)
        e.hooks['std::env::args'] = lambda e, st, c: [(st, mk('iter', v, 'v', I(0)))]
        for n in mainrun.READLINES | mainrun.READ_LINE | mainrun.LINES:
            src = 'rl' if n in mainrun.READLINES else 'file'
            e.hooks[n] = lambda e, st, c, src=src: self.read(e, st, c, src)
        for n in self.F.local:
            f = self.F.fns[n]
            if f.get('closure'):
                continue
        e.hooks['std::io::Read::read_to_string'] = lambda e, st, c: self.whole(e, st, c)

    def whole(self, e, st, c):
        self.seen.add('whole')
        self.und.add('the script is read as a whole')
        return None

    def sink(self, e, st, c):
        """a call that stores a variable: (name=value) text, or name and value"""
        if not c.inst or c.inst not in self.F.local or c.inst in self.evalfns:
            return False
        if 'var-insert' not in effects.reach(self.F, c.inst):
            return False
        texts = []
        for (a, t) in zip(c.args, arg_types(self.F.fns[c.inst])):
            if t in STR:
                texts.append(e.res(st, e.val(st, a)))
            elif t.startswith('(') and 'str' in t:
                tv = e.val(st, a)
                if tv.k == 'tup':
                    texts += [e.res(st, e.val(st, x)) for x in tv.a]
        nv = None
        if len(texts) == 2:
            nv = (texts[0], texts[1])
        elif len(texts) == 1:
            t = texts[0]
            if t.k == 'str' and '=' in t.a[0]:
                n, v = t.a[0].split('=', 1)
                nv = (S(n), S(v))
            elif t.k == 'cat':
                pre = []
                for i, x in enumerate(t.a):
                    if x.k == 'str' and '=' in x.a[0]:
                        n, v = x.a[0].split('=', 1)
                        if n:
                            pre.append(S(n))
                        post = ([S(v)] if v else []) + list(t.a[i + 1:])
                        nv = (pre[0] if len(pre) == 1 else mk('cat', *pre), post[0] if len(post) == 1 else mk('cat', *post))
                        break
                    pre.append(x)
                    if x.k != 'str' and x.k not in ('fmt', 'itoa', 'int', 'app'):
                        break
        if nv is None:
            return False
        put(st, 'vars', get(st, 'vars', ()) + (nv,))
        return True

    def pre(self, e, st, c):
        if self.sink(e, st, c):
            return e.opaque_call(st, c, c.inst) if c.rty else None
        if effects.of_call(c.name, c.res or c.name, c.targs or []) == 'var-insert':
            put(st, 'vars', get(st, 'vars', ()) + ((mk('unnamed'), mk('unnamed')),))
        return mainrun.Main.pre(self, e, st, c)

    def read(self, e, st, c, src):
        self.ex += 1
        self.seen.add('read ' + src)
        if self.kind == '-c':
            self.err('reads', 'with -c, input is read (%s) although the text to run is on the command line' % ('terminal' if src == 'rl' else 'file'), c)
        elif self.kind == 'tty' and src != 'rl':
            self.err('reads', 'without a script or -c, a file is read instead of the terminal', c)
        elif self.kind == 'file' and src != 'file':
            self.err('reads', 'with a script on the command line, the terminal is read', c)
        elif self.kind == 'file':
            self.script(e, st, c)
        return []

    def script(self, e, st, c):
        op = get(st, 'open')
        s = self.v[self.at]
        if op and op[1] is not s and not (op[1].k == 'str' and s.k == 'str' and op[1].a == s.a):
            if self.known(op[1]):
                self.err('script', 'the file opened is %s and not the script named on the command line' % show(op[1], 4), c)
            else:
                self.und.add('file opened: %s' % show(op[1], 4))
        elif not op:
            self.und.add('no file opened before reading')
        vars = get(st, 'vars', ())
        got = {}
        for n, v in vars:
            n = self.num(n)
            if n is not None:
                got[n] = v
        want = {0: s}
        for i, a in enumerate(self.v[self.at + 1:]):
            want[i + 1] = a
        for i in sorted(want):
            if i not in got:
                if any(self.num(n) is None for n, _ in vars):
                    self.und.add('variable with an unknown name')
                else:
                    self.err('positional', 'the script starts without $%s being set to its argument' % (i if i < 2 else 'N'), c)
            elif not same(got[i], want[i]):
                if self.known(got[i]):
                    self.err('positional', '$%s of the script is %s instead of the %s' % (
                        i if i < 2 else 'N', show(got[i], 4), 'script name' if i == 0 else 'argument in that place'), c)
                else:
                    self.und.add('$%d is %s' % (i, show(got[i], 4)))
        for i in got:
            if i not in want:
                self.err('positional', 'the script starts with a $N set that has no argument on the command line', c)

    def num(self, n):
        if n.k == 'str' and n.a[0].isdigit():
            return int(n.a[0])
        if n.k == 'int':
            return n.a[0]
        if n.k in ('fmt', 'itoa', 'app', 'cat') and n.a:
            xs = [y for y in sub(n) if y.k in ('int', 'str')]
            ii = [y for y in xs if y.k == 'int']
            if len(ii) == 1 and not [y for y in xs if y.k == 'str']:
                return ii[0].a[0]
        return None

    def on_parse(self, e, st, c, text, mine):
        if self.kind != '-c':
            return
        if mine:
            return
        ws = self.v[self.at:]
        want = mk('cat', *sum([[S(' '), w] for w in ws], [])[1:]) if len(ws) > 1 else ws[0] if ws else S('')
        a = e.res(st, e.val(st, c.args[1]))
        ok = same(norm(a), norm(want))
        if ok:
            put(st, 'text', True)
        elif self.known(a):
            self.err('text', 'with -c, the text parsed is %s instead of the arguments after -c joined by a blank' % show(norm(a), 5), c)
        else:
            self.und.add('text parsed: %s' % show(a, 4))

    def on_eval(self, e, st, c, x):
        self.seen.add('eval')
        if self.kind != '-c':
            self.err('eval', 'something is evaluated although the shape of the command line (%s) asks for %s' % (
                self.shape, 'the terminal' if self.kind == 'tty' else 'the script only'), c)
        elif get(st, 'n', 0) >= 1:
            self.err('eval', 'with -c, the text is evaluated more than once', c)

    def on_open(self, e, st, c, x):
        if self.kind in ('tty', '-c'):
            self.err('open', 'a file is opened as a script although none is named on the command line', c)

    def on_exit(self, e, st, c, v):
        self.seen.add('exit')
        n = get(st, 'n', 0)
        stt = get(st, 'st')
        if self.kind == '-c' and n == 0 and get(st, 'perr') is None:
            self.err('exit', 'with -c, the shell ends without having evaluated the text', c)
        if self.kind == 'file' and get(st, 'open') is None:
            self.err('exit', 'with a script, the shell ends without having opened it', c)
        if self.kind == 'tty':
            self.err('exit', 'without a script or -c, the shell ends without reading the terminal', c)
        if n and not get(st, 'everr') and v is not None and v.k == 'int' and stt == 'eval':
            self.err('status', 'after an evaluation, the shell ends with the constant status %s instead of the last status' % v.a[0], c)


def norm(t):
    """concatenations flattened, adjacent literals merged"""
    if t.k != 'cat':
        return t
    out = []
    for x in t.a:
        x = norm(x)
        for y in (x.a if x.k == 'cat' else (x,)):
            if y.k == 'str' and out and out[-1].k == 'str':
                out[-1] = S(out[-1].a[0] + y.a[0])
            elif not (y.k == 'str' and y.a[0] == ''):
                out.append(y)
    return out[0] if len(out) == 1 else mk('cat', *out)


def same(a, b):
    return a is b or a.k == 'str' and b.k == 'str' and a.a[0] == b.a[0] or a.k == 'cat' and b.k == 'cat' and len(a.a) == len(b.a) and all(same(x, y) for x, y in zip(a.a, b.a))


def check(F, R):
    for (shape, args, kind, at) in SHAPES + (LONG if R.tier == 'thorough' else []):
        st = ai.St()
        m = Start(F, R, shape, args, kind, at)
        for i, x in enumerate(m.v):
            if x.k == 'in' and args[i][0] in 'ps':
                st.facts[mk('pred', 'starts_with', x, mk('char', 45))] = ('c', FALSE)
                st.facts[mk('pred', 'starts_with', x, S('-'))] = ('c', FALSE)
        interactive(F, st)
        try:
            m.run('main', st=st)
        except ai.Budget as x:
            R.ob('command line: %s' % shape, 'undecided')
            continue
        R.functions |= set(m.e.stats['inlined']) if 'inlined' in m.e.stats else set()
        for (what, fn), (msg, where) in sorted(m.bads.items()):
            R.violation('%s@%s' % (what, fn), '%s [command line: %s]' % (msg, shape), where)
        need = {'tty': {'read rl'}, '-c': {'eval', 'exit'}, 'file': {'read file'}}[kind]
        def note(s):
            R.note('command line %s: %s' % (shape, s))
        if m.bads:
            R.ob('command line: %s' % shape, 'violated')
        elif need - m.seen or m.und:
            R.ob('command line: %s' % shape, 'undecided')
            note('; '.join(sorted(m.und)) or 'not seen: %s' % ', '.join(sorted(need - m.seen)))
        else:
            R.ob('command line: %s' % shape, 'ok')
        R.count('command lines analysed')


def initial(F):
    """the constant fields a lazily initialised static starts with: [(static, field number, value)]"""
    out = []
    for k in sorted(F.fns):
        if not k.endswith('::__static_ref_initialize'):
            continue
        name = k[1:].split(' as ')[0]
        for f in sorted(F.reach(k)[1]):
            g = F.fns.get(f)
            if not g or not g['local'] or g['nargs'] or g.get('closure') or g['locals'][0]['ty'] not in F.adts or g['locals'][0]['ty'] not in F.fns[k]['locals'][0]['ty']:
                continue
            e = ai.Engine(F)
            e.policy = lambda e, st, c, k: 'opaque' if F.fns[k]['local'] else 'inline'
            vals = [e.val(s, v) for s, v in base.run(e, f)]
            if not vals or any(v.k != 'adt' for v in vals):
                continue
            n = len(F.adts[g['locals'][0]['ty']]['variants'][0]['fields'])
            for j in range(n):
                xs = {v.a[len(v.a) - n + j] for v in vals}
                if len(xs) == 1:
                    x = xs.pop()
                    if isinstance(x, T) and x.k in ('bool', 'int', 'str', 'const') or x is TRUE or x is FALSE:
                        out.append((name, j, x))
    return out


def interactive(F, st):
    e = ai.Engine(F)
    c = F.__dict__.setdefault('_init', None)
    if c is None:
        c = F._init = initial(F)
    for (name, j, x) in c:
        e.store(st, ('H', mk('static', name)), (('', j),), x)
