"""P21: a script is read line by line to its end and no further."""
import ai
import base
import mainrun
from proc import get, put
from mainrun import sub
from terms import *

RULE = ('main() is interpreted (MIR) with the typestate read -> parse -> evaluate for the script reader: between two reads exactly one syntax tree, that of the line read, is evaluated (none only if the '
        'line did not parse or was examined and found to hold nothing), each line is read into an empty buffer, nothing is read or evaluated after a read reported the end of the file or an error, and '
        'a script that cannot be opened makes the shell end with a constant status other than zero.')


class M(mainrun.Main):
    R = None

    def v(self, key, msg, c, path=()):
        self.R.violation(key, msg, '%s:%s' % tuple(c.span[:2]) if c is not None else None, list(path))

    def on_read(self, e, st, c, src):
        if src != 'file':
            return
        self.tick('reads')
        if any('std::io::Take<' in t for t in c.targs or ()):
            self.v('limited', 'the reader of the script stops after a number of bytes, not at the end of the file', c)
        rd = get(st, 'rd')
        if rd and get(st, 'src') == 'file':
            if rd[0] == 'Eof':
                self.v('after-end', 'the script is read again after its end was reached', c)
            elif rd[0] == 'error':
                self.v('after-error', 'the script is read again after reading it failed', c)
            else:
                self.line_done(e, st, c)

    def line_done(self, e, st, c):
        rd = get(st, 'rd')
        if get(st, 'n') == 0 and get(st, 'perr') is None:
            if any(rd[1] is y for t in st.facts for y in sub(t)):
                self.tick('lines passed over after a look at them')
            else:
                self.v('skipped', 'a line of the script is not evaluated', c)

    def on_parse(self, e, st, c, text, mine):
        if get(st, 'src') == 'file':
            self.tick('parser calls')
            put(st, 'mine', bool(mine))

    def on_eval(self, e, st, c, x):
        if get(st, 'src') != 'file':
            return
        self.tick('evaluations')
        rd = get(st, 'rd')
        if rd[0] != 'line':
            self.v('after-end', 'something is evaluated although no line was read', c)
        elif get(st, 'n', 0) >= 1:
            self.v('twice', 'a line of the script is evaluated more than once', c)
        elif x.k == 'ast' and x.a[1] is not rd[1] and not any(y is rd[1] for y in sub(x)):
            if known(x.a[1]):
                self.v('other', 'what is evaluated is not the line that was read', c, ['evaluated: %s' % show(x, 4)])
            else:
                self.unknown = True
        elif get(st, 'stale'):
            self.v('buffer', 'a line is read behind the lines before it: they are evaluated again', c)

    def on_exit(self, e, st, c, v):
        op = get(st, 'open')
        if get(st, 'src') == 'file':
            self.tick('ends')
            rd = get(st, 'rd')
            if rd[0] == 'line':
                if get(st, 'perr') is None:
                    self.line_done(e, st, c)
                    if get(st, 'n', 0) >= 1 and not get(st, 'everr'):
                        self.v('early', 'the shell ends before the end of the script', c)
            elif rd[0] == 'error' and v is not None:
                v = e.res(st, v)
                if v is I(0):
                    self.v('error-status', 'the shell ends with status zero although reading the script failed', c)
        elif op and op[0] == 'err' and v is not None:
            self.tick('scripts that cannot be opened')
            v = e.res(st, v)
            s = get(st, 'st')
            if v.k == 'int' and v.a[0] != 0 or isinstance(s, T) and s.k == 'int' and s.a[0] != 0:
                return
            if v is I(0) or s is None or s is I(0):
                self.v('unopened', 'the shell does not end with a status other than zero when the script cannot be opened', c, ['status: %s' % show(v, 4)])
            else:
                self.unknown = True

    def on_return(self, e, st, v):
        op = get(st, 'open')
        if op and op[0] == 'err':
            self.R.violation('unopened', 'the shell ends with status zero when the script cannot be opened', '%s:%s' % tuple(self.F.fns['main']['span'][:2]))

    def on_panic(self, e, st, fid, what, span, c=None):
        if what in ('unwrap', 'panic') and get(st, 'src') == 'file' and get(st, 'rd')[0] != 'line':
            self.R.violation('panic', 'the end of the script or a failure to read it aborts the shell', '%s:%s' % tuple(span[:2]) if span else None)


def known(t):
    return isinstance(t, T) and t.k in ('str', 'line', 'cat')


def check(F, R):
    R.rule = RULE
    m = M(F)
    m.R, m.unknown = R, False
    ob = 'each line of a script is evaluated once, in order, up to the end of the file'
    try:
        m.run('main')
    except ai.Budget:
        R.ob(ob, 'undecided')
        return
    R.functions |= m.e.stats['inlined'] | {'main'}
    for a, b in m.counts.items():
        R.count(a, b)
    ok = m.counts.get('reads') and m.counts.get('evaluations') and m.counts.get('ends')
    R.ob(ob, 'violated' if R.viol else 'undecided' if m.unknown or not ok else 'ok')
    R.ob('a script that cannot be opened makes the shell fail', 'ok' if m.counts.get('scripts that cannot be opened') else 'undecided')
    R.assume = ['a line is what BufRead::read_line delivers: read_line appends to its buffer and reports the end of the file as zero bytes', 'evaluating a line is P08 and what it uses']
