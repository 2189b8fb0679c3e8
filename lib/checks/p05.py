"""P05: pipeline neighbours, and only they, are connected."""
import re
import ai
import base
import pipes
import proc
import words
from pipes import tab, tget
from proc import get, put
from terms import *

RULE = ('The evaluation of a pipeline of 1 to 5 commands (foreground and background, without and with file redirections) is interpreted (MIR) over every path, fork splitting parent and child, with the table of descriptors of each process. '
        'Where child n starts its program or evaluates a function, descriptor 0 is the read end of the pipe of its predecessor (the shell\'s own input for the first), descriptor 1 the write end of its own pipe (the shell\'s own output '
        'for the last), or the file of a redirection where it has one; it runs command n; no other descriptor of a pipe is open. On every return of the shell, error paths included, each end of every pipe is closed, and every command was started '
        'unless a system call failed.')


class Run(pipes.Launch):
    def __init__(self, F, R, n, bg, commands, red, none_at=None, key=None):
        self.R, self.red, self.key = R, red, key
        self.verdict = 'ok'
        self.seen = 0
        self.started = set()
        self.where = '%s:%s' % tuple(F.fns[key]['span'][:2])
        pipes.Launch.__init__(self, F, n, bg, commands, none_at)
        e = self.e
        first = e.hooks['nix::unistd::pipe']

        def pipe(e, st, c):
            out = first(e, st, c)
            for s, v in out:
                if v.k == 'adt' and v.a[1] == 'Ok':
                    put(s, 'made', get(s, 'made', ()) + (v.a[2].a[0].a[0],))
            return out
        for x in base.PIPE:
            e.hooks[x] = pipe

    def bad(self, key, msg, st=None, c=None):
        self.verdict = 'violated'
        lines = ['pipeline of %d commands%s%s' % (self.n, ' in the background' if self.background else '', ' with redirections' if self.red else '')]
        if st is not None:
            lines += ['descriptor %s: %s' % (show(a, 2), self.name(st, b)) for a, b in tab(st)]
        self.R.violation('%s@%s' % (key, self.key) if key != 'builtin-ends-pipeline' else key, msg, '%s:%s' % tuple(c.span[:2]) if c is not None else self.where, lines)

    def name(self, st, o):
        made = get(st, 'made', ())
        if o.k in ('fdr', 'fdw'):
            i = made.index(o.a[0]) if o.a[0] in made else '?'
            return '%s end of pipe %s' % ('read' if o.k == 'fdr' else 'write', i)
        return 'a file' if o.k == 'file' else 'standard %sput' % o.a[0] if o.k == 'str' and o.a[0] in ('in', 'out') else show(o, 3)

    def lose_(self, msg):
        self.R.note(msg)
        if self.verdict == 'ok':
            self.verdict = 'undecided'

    def on_event(self, kind, e, st, c):
        if not get(st, 'child') or self.none_at is not None:
            return
        self.seen += 1
        self.started.add(get(st, 'nth'))
        self.R.count('starts of a command in a child')
        i = get(st, 'nth')
        if get(st, 'lost') or get(st, 'pipefail') or get(st, 'baddup'):
            if get(st, 'baddup'):
                self.bad('closed-descriptor', 'a child duplicates a descriptor that is not open', st, c)
            return
        if i >= self.n:
            return self.bad('too-many', 'more children than commands', st, c)
        made = get(st, 'made', ())
        t = {a.a[0]: b for a, b in tab(st) if a.k == 'int'}
        if len(made) != min(i + 1, self.n - 1):
            return self.bad('pipes', 'command %d of %d is started with %d pipes made' % (i + 1, self.n, len(made)), st, c)
        w0 = S('in') if i == 0 else mk('fdr', made[i - 1])
        w1 = S('out') if i == self.n - 1 else mk('fdw', made[i])
        if self.red:
            for fd, what in ((0, 'input'), (1, 'output')):
                o = t.get(fd)
                if o is None or o.k != 'file':
                    return self.bad('redirection-loses', 'the pipe wins over the file standard %s is redirected to' % what, st, c)
        else:
            if t.get(0) is not w0:
                return self.bad('input', 'standard input of command %d of %d is not %s' % (i + 1, self.n, self.name(st, w0)), st, c)
            if t.get(1) is not w1:
                return self.bad('output', 'standard output of command %d of %d is not %s' % (i + 1, self.n, self.name(st, w1)), st, c)
        for a, b in tab(st):
            if b.k in ('fdr', 'fdw') and not (a.k == 'int' and a.a[0] in (0, 1)):
                return self.bad('kept', 'a child keeps the %s open when command %d of %d is started' % (self.name(st, b), i + 1, self.n), st, c)
        # which command it is
        args = [words.deep(e, st, x) for x in c.args]
        who = {int(m.group(1)) for x in args for l in pipes.labels(x) for m in [re.match(r'^(?:argv|argv0|cmd|pid|word)(\d+)(?:_\d+)?$', l)] if m}
        who -= {None}
        if kind == 'exec':
            who = {int(m.group(1)) for x in args for l in pipes.labels(x) for m in [re.match(r'^argv(\d+)$', l)] if m} or who
        if not who:
            self.lose_('the command started by child %d is not known' % i)
        elif who != {i}:
            self.bad('other', 'child %d runs another command of the pipeline' % (i + 1), st, c)

    def on_bad_fd(self, e, st, c):
        if self.none_at is None:
            who = 'command %d of %d' % (get(st, 'nth') + 1, self.n) if get(st, 'child') else 'the shell'
            self.bad('not-open', '%s crashes on a descriptor that is not open while the pipeline is started' % who, st, c)

    def judge(self, outs):
        for s, v in outs:
            self.R.count('returns judged')
            if get(s, 'child') or get(s, 'lost'):
                continue
            left = [b for a, b in tab(s) if b.k in ('fdr', 'fdw')]
            if left:
                self.bad('shell-keeps%s' % ('-after-error' if get(s, 'pipefail') or get(s, 'forkfail') else ''), 'the shell keeps the %s open' % self.name(s, left[0]), s)
            std = {a.a[0]: b for a, b in tab(s) if a.k == 'int'}
            if [std.get(i) for i in (0, 1)] != [S('in'), S('out')]:
                self.bad('shell-streams', 'the shell changes its own standard streams', s)
            if self.none_at is not None:
                missing = set(range(self.n)) - get(s, 'asked', frozenset())
                if missing and self.e.is_variant(s, v, 'Err') is not True:
                    self.bad('builtin-ends-pipeline', 'a pipeline ends at a command that is a builtin: the commands after it are not run', s)
                continue
            if self.n > 1 and not get(s, 'pipefail') and not get(s, 'forkfail') and get(s, 'forks', 0) != self.n:
                self.bad('not-started', 'only %d of %d commands are started' % (get(s, 'forks', 0), self.n), s)
        if self.none_at is None and not self.lost and self.seen:
            for i in sorted(set(range(self.n)) - self.started):
                self.bad('never-started', 'command %d of %d is never started' % (i + 1, self.n))
        if not self.seen and self.none_at is None:
            self.lose_('no start of a command in a child is found')
        for m in self.lost:
            self.lose_(m)


def check(F, R):
    R.rule = RULE
    S_ = words.Shape(F)
    keys = proc.pipeline_entry(F)
    R.ob('the evaluation of a pipeline is found', 'ok' if keys and S_.ok else 'undecided')
    if not S_.ok:
        return
    ks = pipes.kinds(F)
    top = 8 if R.tier == 'thorough' else 5
    for key in keys:
        R.functions.add(key)
        for n in range(1, top + 1):
            for bg in (False, True):
                for red in (False, True) if 'Input' in ks and 'Output' in ks and n <= 3 else (False,):
                    rr = lambda i: [pipes.redirect(F, 'Input', 'fin%d' % i), pipes.redirect(F, 'Output', 'fout%d' % i)] if red else []
                    one(F, R, key, n, bg, [pipes.command(S_, i, rr(i) if red and i % 2 else None, [] if red and i % 2 else rr(i)) for i in range(n)], red)
        one(F, R, key, 3, False, [pipes.command(S_, i) for i in range(3)], False, 1)


def one(F, R, key, n, bg, commands, red, none_at=None):
    ob = '%s of %d commands%s%s%s' % (key, n, ', background' if bg else '', ', redirected' if red else '', ', one a builtin' if none_at is not None else '')
    r = Run(F, R, n, bg, commands, red, none_at, key)
    try:
        r.judge(r.run(key))
    except ai.Budget as x:
        r.lose_('%s: %s' % (ob, x))
    R.functions |= {x for x in r.e.stats['inlined'] if x in F.local}
    for k, v in r.count.items():
        R.count(k, v)
    R.ob(ob, r.verdict)
