"""P07: command substitution yields what the command wrote."""
import re
import ai
import base
import mask
import pipes
import proc
import words
from pipes import subterms, tab, tget, tput
from proc import get, put
from terms import *
from words import deep

RULE = ('Every function that forks a child to evaluate a text and reads what it writes is interpreted (MIR) over every path, fork splitting parent and child, with the table of descriptors of each. In the child, where the evaluation starts, '
        'descriptor 1 is the write end of the pipe, no other descriptor beside 2 is an end of it, and what is evaluated is the parsed text; in the shell the write end is closed before the pipe is read, the pipe is read to its end before the '
        'child is waited for, the child is collected (whatever interrupts the wait), and on every return each end of the pipe is closed; the text returned is what was read without the blanks around it.')
READ = re.compile(r'(^std::io::Read::|as std::io::Read>::)(read_to_end|read_to_string|read|read_exact)$')
TRIM = re.compile(r'<impl str>::(trim|trim_start|trim_end|trim_left|trim_right|trim_matches|trim_start_matches|trim_end_matches|strip_suffix|strip_prefix)$')


class Run(pipes.Fds):
    def __init__(self, F, R, key):
        self.R, self.key = R, key
        self.verdict = 'ok'
        self.seen = {'body': 0, 'read': 0, 'wait': 0}
        self.stop = proc.boundary_of(F) - {key} | set(proc.pipeline_fns(F))
        self.memo = {}
        e = ai.Engine(F)
        e.disj, e.mem_disj, e.gens = 32, 200, 6
        e.widen_at = 4
        e.policy = self.policy
        pipes.Fds.__init__(self, F, e)
        e.pre.insert(0, self.calls)
        e.on_panic = self.panic
        for n in base.WAIT:
            e.hooks[n] = self.wait
        self.text = None

    def eff(self, k):
        if k not in self.memo:
            names, keys = proc.limited_reach(self.F, k, self.stop)
            self.memo[k] = (bool(names & (pipes.FDEFF | base.WAIT | base.EXIT) or any(READ.search(n) or n.endswith('from_raw_fd') for n in names)), bool(keys & self.stop))
        return self.memo[k]

    def policy(self, e, st, c, k):
        g = self.F.fns[k]
        if not g['local'] or g.get('closure'):
            return 'inline'
        if 'grammar' in k or 'exer' in k:
            return 'opaque'
        return 'inline' if self.eff(k)[0] or sum(len(self.F.fns[x]['blocks']) for x in proc.limited_reach(self.F, k, set())[1] if x in self.F.fns and self.F.fns[x]['local']) <= 12 else 'opaque'

    def bad(self, key, msg, st=None, c=None):
        self.verdict = 'violated'
        self.R.violation('%s@%s' % (key, self.key), '%s: %s' % (self.key, msg), '%s:%s' % (tuple(c.span[:2]) if c is not None else tuple(self.F.fns[self.key]['span'][:2])),
                         ['descriptor %s: %s' % (show(a, 2), show(b, 3)) for a, b in tab(st)] if st is not None else [])

    def lose_(self, msg):
        self.R.note(msg)
        if self.verdict == 'ok':
            self.verdict = 'undecided'

    def panic(self, e, st, fid, what, span, c=None):
        if what == 'unwrap' and c is not None and c.args and not get(st, 'lost'):
            v = e.res(st, e.val(st, c.args[0]))
            if v.k == 'adt' and v.a[1] == 'Err' and any(x.k == 'badfd' for x in subterms(v)):
                self.bad('not-open', 'a descriptor that is not open is used, and the %s crashes' % ('child' if get(st, 'child') else 'shell'), st, c)

    def ends(self, v):
        return [x for x in subterms(v) if x.k in ('fdr', 'fdw')]

    def calls(self, e, st, c):
        k = c.inst
        if k and k in self.F.local and not self.F.fns[k].get('closure'):
            if k in self.stop or self.eff(k)[1] and not self.eff(k)[0]:
                self.body(e, st, c)
                return e.opaque_call(st, c, k)
        if c.name.endswith('::from_raw_fd') or c.name.endswith('FromRawFd>::from_raw_fd') or c.res.endswith('::from_raw_fd'):
            return [(st, self.fd(st, c.args[0]))]
        m = READ.search(c.name) or READ.search(c.res)
        if m or c.name in ('nix::unistd::read', 'libc::read', 'nix::libc::read'):
            return self.read(e, st, c, m.group(2) if m else 'read')
        if c.name.startswith('std::io::Read::') and c.name.rsplit('::', 1)[1] in ('take',):
            return [(st, mk('app', 'take', *c.args))]
        if self.parse(c):
            t = [deep(e, st, a) for a in c.args]
            v = e.fresh(st, 'call', c.site, c.res)
            tree = mk('app', 'parsed', *t)
            bad = st.fork()
            put(bad, 'syntax', True)
            return [(st, OK(tree)), (bad, ERR(v))]
        return None

    def parse(self, c):
        return bool(re.search(r'Parser::parse($|::<)', c.res or '') or re.search(r'Parser::parse$', c.name))

    def body(self, e, st, c):
        if not get(st, 'child'):
            if get(st, 'forks', 0):
                self.bad('in-shell', 'the shell itself evaluates the text as well', st, c)
            return
        self.seen['body'] += 1
        self.R.count('evaluations in a child judged')
        if get(st, 'lost'):
            return
        t = {a.a[0]: b for a, b in tab(st) if a.k == 'int'}
        if t.get(1) is None or t[1].k != 'fdw':
            self.bad('output', 'the standard output of the child is not the pipe', st, c)
        for a, b in tab(st):
            if b.k in ('fdr', 'fdw') and not (a.k == 'int' and a.a[0] in (1, 2) and b.k == 'fdw'):
                self.bad('kept', 'the child keeps another descriptor of the pipe open', st, c)
        if t.get(0) is not S('in'):
            self.bad('input', 'the standard input of the child is not that of the shell', st, c)
        args = [deep(e, st, a) for a in c.args]
        if not any(x.k == 'app' and x.a[0] == 'parsed' for a in args for x in subterms(a)):
            self.lose_('what the child evaluates: %s' % ', '.join(show(a, 3) for a in args))
        elif not any('text' in pipes.labels(a) for a in args):
            self.lose_('the text the child evaluates: %s' % ', '.join(show(a, 5) for a in args))

    def read(self, e, st, c, how):
        v = e.val(st, c.args[0])
        for i in range(3):
            if v.k == 'ref':
                v = e.res(st, e.load(st, *v.a))
        v = self.fd(st, v)
        fr = [x for x in subterms(v) if x.k == 'fdr']
        if not fr:
            return None
        self.seen['read'] += 1
        self.R.count('reads judged')
        f = fr[0]
        if not get(st, 'lost'):
            if tget(st, f) is None:
                self.bad('read-closed', 'the pipe is read after its read end was closed', st, c)
            if any(b is mk('fdw', f.a[0]) for a, b in tab(st)):
                self.bad('never-ends', 'the shell reads the pipe while it holds the write end itself: the read never ends', st, c)
        bounded = v.k != 'fdr' and 'take' in show(v, 6) or any('Take<' in t for t in c.at[:1])
        t = e.fresh(st, 'call', c.site, c.res)
        err = st.fork()
        out = []
        if how in ('read_to_end', 'read_to_string'):
            if not bounded:
                put(st, 'eof', True)
            loc, path = e.deref(c.args[1])
            e.store(st, loc, path, mk('in', 'output', 'std::vec::Vec<u8>'))
            out.append((st, OK(mk('in', 'n', 'usize'))))
            if how == 'read_to_end':
                put(err, 'readfail', True)
                loc, path = e.deref(c.args[1])
                e.store(err, loc, path, mk('in', 'output', 'std::vec::Vec<u8>'))
            else:
                put(err, 'eof', True)   # text that is not UTF-8
            out.append((err, ERR(t)))
        else:
            n = e.fresh(st, 'call', c.site, c.res)
            put(st, 'unknown', True)
            more = st.fork()
            put(st, 'eof', True)
            put(more, 'unknown', True)
            e.zadd(more, None, mk('app', 'count', n), -1)
            put(err, 'readfail', True)
            out += [(st, OK(I(0))), (more, OK(mk('app', 'count', n))), (err, ERR(t))]
        return out

    def wait(self, e, st, c):
        self.seen['wait'] += 1
        self.R.count('waits judged')
        if get(st, 'child'):
            return None
        who = e.res(st, e.val(st, c.args[0])) if c.args else None
        flags = e.res(st, e.val(st, c.args[1])) if len(c.args) > 1 else None
        nh = flags is not None and not (e.is_variant(st, flags, 'None') is True) and mask.nohang(flags)
        if not get(st, 'eof') and not get(st, 'readfail') and not nh and get(st, 'forks', 0) and not get(st, 'forkfail') and any(b.k == 'fdr' for a, b in tab(st)) and not get(st, 'lost'):
            self.bad('deadlock', 'the shell waits for the child before having read its output: a child that writes much never ends', st, c)
        while who is not None and who.k == 'adt' and len(who.a) == 3:
            who = e.res(st, e.val(st, who.a[2]))
        t = e.fresh(st, 'call', c.site, c.res)
        if who is None or who.k != 'pid':
            self.lose(st, 'a wait for %s' % (show(who, 3) if who is not None else 'any child'))
            return [(st, t)]
        n = get(st, 'eintr', 0)
        out = []
        if n < 2:
            intr = st.fork()
            put(intr, 'eintr', n + 1)
            out.append((intr, ERR(mk('adt', 'nix::errno::Errno', 'EINTR'))))
        if nh:
            alive = st.fork()
            if get(alive, 'alive', 0) < 2:
                put(alive, 'alive', get(alive, 'alive', 0) + 1)
                out.append((alive, OK(mk('adt', 'nix::sys::wait::WaitStatus', 'StillAlive'))))
        gone = st.fork()
        put(gone, 'collected', True)
        out.append((gone, ERR(mk('adt', 'nix::errno::Errno', 'ECHILD'))))
        put(st, 'collected', True)
        out.append((st, OK(mk('adt', 'nix::sys::wait::WaitStatus', 'Exited', who, mk('in', 'code', 'i32')))))
        return out

    def judge(self, outs):
        e = self.e
        for s, v in outs:
            if get(s, 'child'):
                continue
            self.R.count('returns judged')
            if get(s, 'lost'):
                continue
            left = [b for a, b in tab(s) if b.k in ('fdr', 'fdw')]
            if left:
                self.bad('shell-keeps', 'the shell keeps the %s end of the pipe open%s' % ('read' if left[0].k == 'fdr' else 'write', ' when it cannot fork' if get(s, 'forkfail') else ''), s)
            if not get(s, 'forks', 0) or get(s, 'forkfail'):
                continue
            if not get(s, 'collected'):
                self.bad('uncollected', 'the shell does not collect the child%s' % (' when the wait is interrupted' if get(s, 'eintr') else ''), s)
            if get(s, 'readfail'):
                continue
            if not get(s, 'eof'):
                self.bad('partial', 'the pipe is not read to its end', s)
                continue
            if get(s, 'unknown'):
                self.lose_('what was read piecewise')
                continue
            r = deep(e, s, v)
            ls = pipes.labels(r)
            if 'output' not in ls:
                if r.k in ('str', 'in') or not ls:
                    self.bad('lost-output', 'what the child wrote is not returned: %s' % show(r, 3), s)
                else:
                    self.lose_('text returned: %s' % show(r, 4))
                continue
            ops = [x for x in subterms(r) if x.k == 'app' and isinstance(x.a[0], str)]
            trims = {TRIM.search(x.a[0]).group(1) for x in ops if TRIM.search(x.a[0])}
            other = [x.a[0] for x in ops if not TRIM.search(x.a[0]) and not re.search(r'::(from_utf8_lossy|from_utf8|from_utf8_unchecked|to_string|to_owned|into_owned|as_str|clone)$', x.a[0])]
            if other or r.k not in ('in', 'app'):
                self.lose_('text returned: %s' % show(r, 4))
            elif trims == {'trim'} or {'trim_start', 'trim_end'} <= trims:
                continue
            elif not trims or trims <= {'trim_end', 'trim_start', 'trim_right', 'trim_left', 'strip_suffix'}:
                self.bad('blanks', 'the blanks around what the child wrote are not removed', s)
            else:
                self.lose_('text returned: %s' % show(r, 4))


def check(F, R):
    R.rule = RULE
    ks = proc.subst_roots(F)
    R.ob('the function that runs a command substitution is found', 'ok' if ks else 'undecided')
    for k in ks:
        R.functions.add(k)
        f = F.fns[k]
        r = Run(F, R, k)
        st = ai.St()
        for i, n in pipes.STD:
            tput(st, I(i), S(n))
        args = []
        for i in range(1, f['nargs'] + 1):
            t = f['locals'][i]['ty']
            args.append(mk('in', 'text' if t in ('&str', 'std::string::String', '&std::string::String') or 'str' in t else i, t))
        try:
            outs = base.run(r.e, k, args, st)
            r.judge(outs)
        except ai.Budget as x:
            r.lose_(str(x))
        R.functions |= {x for x in r.e.stats['inlined'] if x in F.local}
        for m in r.lost:
            r.lose_(m)
        for what, n in r.seen.items():
            if not n:
                r.lose_('%s: no %s found' % (k, what))
        for a, b in r.count.items():
            R.count(a, b)
        R.ob('the substitution by %s' % k, r.verdict)
