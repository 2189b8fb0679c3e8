"""P20: a line with a syntax error runs nothing and only costs itself."""
import ai
import base
import proc
import mainrun
from proc import get, put
from mainrun import sub, is_parse
from terms import *

RULE = ('main() and every function that parses text are interpreted (MIR) with the parser failing: on each path after the failure nothing of that text may be evaluated, the status stored before the '
        'next line is read or the shell ends must be a constant other than zero, an interactive shell must come back to reading a line, a function that reports errors to its caller must return one, '
        'and no unwrap or panic may be met.')


class M(mainrun.Main):
    R = None
    root = None

    def err(self, st):
        return get(st, 'perr') is not None

    def v(self, key, msg, c, path=()):
        w = '%s:%s' % tuple(c.span[:2]) if c is not None and getattr(c, 'span', None) else None
        self.R.violation('%s:%s' % (key, self.root), msg, w, list(path))

    def status(self, st):
        v = get(st, 'st')
        return None if v is None else 'eval' if isinstance(v, str) else v

    def settle(self, st, c, what):
        if get(st, 'perr') == 'pending' or (get(st, 'perr') == 'noted' and isinstance(self.status(st), T) and self.status(st) is I(0)):
            v = self.status(st)
            if isinstance(v, T) and v.k != 'int':
                self.unknown = True
                return
            self.v('status', 'the status is not set to a value other than zero before %s after a syntax error' % what, c, ['parsed in %s' % (get(st, 'pfn'),)])

    def on_read(self, e, st, c, src):
        if self.err(st):
            self.tick('syntax errors followed to the next line')
            self.settle(st, c, 'the next line is read')

    def on_parse(self, e, st, c, text, mine):
        self.tick('parser calls')
        put(st, 'pfn', c.fn)

    def on_eval(self, e, st, c, x):
        self.tick('evaluations')
        if self.err(st):
            self.v('evaluated', 'something is evaluated after the text did not parse', c, ['evaluated: %s' % show(x, 4)])

    def on_exit(self, e, st, c, v):
        if self.err(st):
            self.tick('syntax errors followed to the end')
            if get(st, 'src') == 'rl':
                self.v('ends', 'a syntax error ends an interactive shell', c)
            if v is not None:
                v = e.res(st, v)
                if v.k == 'int' and v.a[0] == 0:
                    self.v('status', 'the shell ends with status zero after a syntax error', c)
                elif v.k != 'int':
                    self.settle(st, c, 'the shell ends')

    def on_panic(self, e, st, fid, what, span, c=None):
        if self.err(st) and what in ('unwrap', 'panic'):
            self.R.violation('panic:%s' % self.root, 'a syntax error aborts the shell', '%s:%s' % tuple(span[:2]) if span else None)

    def on_return(self, e, st, v):
        if not self.err(st):
            return
        self.tick('syntax errors followed to the end')
        rty = self.F.fns[self.root]['locals'][0]['ty']
        if 'Result<' in rty:
            if v.k == 'adt' and v.a[1] == 'Ok' or e.is_variant(st, v, 'Ok') is True:
                if get(st, 'perr') != 'noted' and not self.startup:
                    self.R.violation('silent:%s' % self.root, '%s reports success although the text did not parse' % self.root, '%s:%s' % tuple(self.F.fns[self.root]['span'][:2]))
            elif not (v.k == 'adt' and v.a[1] == 'Err' or e.is_variant(st, v, 'Err') is True):
                self.unknown = True
        elif rty == '()':
            self.settle(st, None, '%s returns' % self.root)


def check(F, R):
    R.rule = RULE
    names, keys = F.reach('main')
    roots = ['main']
    ev = set(proc.eval_entry(F))
    for k in sorted(F.local):
        if k in keys and any(is_parse(n) for n, _ in F.callees.get(k, ())) and 'grammar' not in k:
            roots.append(k)
    if len(roots) < 2:
        R.ob('the shell parses text', 'undecided')
        return
    main = None
    for k in roots:
        m = M(F)
        m.R, m.root, m.unknown = R, k, False
        # a start-up file is no line of input: it is skipped and reported
        m.startup = k != 'main' and not any(k in F.reach(x)[1] for x in ev) and bool(F.reach(k)[0] & mainrun.OPEN)
        ob = 'a syntax error met in %s runs nothing, is reported by the status and aborts nothing' % k
        before = len(R.viol)
        try:
            m.run(k)
        except ai.Budget:
            R.ob(ob, 'undecided')
            continue
        R.functions |= m.e.stats['inlined'] | {k}
        for a, b in m.counts.items():
            R.count(a, b)
        R.ob(ob, 'violated' if len(R.viol) > before else 'undecided' if m.unknown or not m.counts.get('parser calls') else 'ok')
    R.assume = ['a function that hands a parse error to its caller is judged here, what the caller does with the error is P09', 'a text substituted for a command is not a line: its syntax error yields the empty text']
