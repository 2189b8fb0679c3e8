"""The exit status of a command is the status the shell reports."""
import ai
import base
import cmds
import effects
import proc
from terms import *
from checks.p08 import exit_static, stop_policy, where, field_index, is_err, same

RULE = ('Abstract interpretation of MIR: (1) the code that turns the wait status of a job into $? is run for an exited, a signalled and a stopped status with symbolic codes and the '
        'stored status compared with code resp. 128+signal; (2) each builtin is run with its handler succeeding and failing and the status left is compared; (3) exit and return are '
        'run with no word and with a symbolic word and the status used is compared with $? resp. the parsed word; (4) the result of a pipeline is compared with $?; (5) every '
        'value obtained by waiting for a job is followed (def-use) to the status; (6) the status the shell process ends with is compared with $?.')

KEEP = {'return', 'fg', 'eval', '.', 'source'}
WS = 'nix::sys::wait::WaitStatus'


def check(F, R):
    R.rule = RULE
    stat = exit_static(F)
    R.ob('the status of the last command is kept in one place', 'ok' if len(stat) == 1 else 'undecided')
    if not stat:
        R.note('no static integer holds the status of the last command')
        return
    from_wait(F, R, stat)
    builtins(F, R, stat)
    handlers(F, R, stat)
    pipeline_result(F, R, stat)
    waited(F, R, stat)
    shell_exit(F, R, stat)
    R.assume = ['a wait that yields neither an ended nor a stopped process leaves the status alone', 'WIFEXITED/WIFSIGNALED decoding is nix\'s']


def status(e, s, stat):
    return e.res(s, e.load(s, ('S', stat[0])))


def setters(F, stat):
    """functions that store a status derived from a wait status"""
    out = []
    for k, f in F.local.items():
        if any(t == WS for t in proc.arg_types(f)) and not (F.reach(k)[0] & (base.WAIT | base.FORK)) and 'status-write' in effects.reach(F, k, {}):
            out.append(k)
    return out


def from_wait(F, R, stat):
    ks = setters(F, stat)
    if not ks:
        R.ob('a wait status becomes the exit status', 'undecided')
        R.note('no function stores a status derived from a wait status it is given')
    for k in ks:
        f = F.fns[k]
        n = [i for i, t in enumerate(proc.arg_types(f)) if t == WS][0]
        pid, code, sig, core = mk('in', 90, 'nix::unistd::Pid'), mk('in', 91, 'i32'), mk('in', 92, 'nix::sys::signal::Signal'), mk('in', 93, 'bool')
        for name, val in (('Exited', mk('adt', WS, 'Exited', pid, code)), ('Signaled', mk('adt', WS, 'Signaled', pid, sig, core)), ('Stopped', mk('adt', WS, 'Stopped', pid, sig))):
            e = base.engine(F, [])
            args = base.inputs(f)
            args[n] = val
            ob = '%s: a job that has %s' % (k, {'Exited': 'exited', 'Signaled': 'been killed', 'Stopped': 'been stopped'}[name])
            R.ob(ob)
            sigs = [('SIGKILL', 9), ('SIGINT', 2), ('SIGTSTP', 20)] if name != 'Exited' else [None]
            for sg in sigs:
                a2 = list(args)
                if sg:
                    v = mk('adt', 'nix::sys::signal::Signal', sg[0])
                    a2[n] = mk('adt', WS, name, pid, v, core) if name == 'Signaled' else mk('adt', WS, name, pid, v)
                want = code if not sg else I(128 + sg[1])
                outs = base.run(e, k, a2)
                R.count('wait statuses followed')
                for s, v in outs:
                    got = status(e, s, stat)
                    if not same(e, s, got, want):
                        if unknown(got):
                            R.ob(ob, 'undecided')
                            R.note('%s: status is %s' % (ob, show(got, 4)))
                        else:
                            R.ob(ob, 'violated')
                            R.violation('%s:%s' % (k, name), 'the status after a job that has %s is %s instead of %s' % (name.lower(), show(got, 4), show(want, 3)), where(F, k))
                    else:
                        R.sample('%s%s -> $? = %s' % (name, '' if not sg else '(%s)' % sg[0], show(want, 3)))
            R.functions |= e.stats['inlined']


def unknown(t):
    return t.k in ('hv', 'call', 'w') or any(isinstance(x, T) and unknown(x) for x in t.a)


def builtins(F, R, stat):
    for name in sorted(cmds.DOC):
        outs = cmds.run(F, name, R)
        for o in outs:
            if o.builtin is not True or not isinstance(o.how, tuple):
                continue
            ok = o.how[1]
            got = status(o.eng, o.st, stat)
            ob = 'builtin %r %s: status' % (name, 'succeeds' if ok else 'fails')
            R.ob(ob)
            R.count('builtin outcomes compared')
            if not ok:
                if got.k == 'int':
                    if got.a[0] == 0:
                        R.ob(ob, 'violated')
                        R.violation('builtin-fail:%s' % name, 'the builtin %r fails and leaves the status 0' % name, where(F, o.key))
                elif got is mk('static', stat[0]) or (got.k == 'hv' and name not in KEEP):
                    R.ob(ob, 'violated')
                    R.violation('builtin-fail:%s' % name, 'the builtin %r fails and the status is left as it was before' % name, where(F, o.key))
                elif o.eng.decide(o.st, o.eng.boolean(o.st, 'eq', got, I(0))) is not False:
                    R.ob(ob, 'undecided')
            elif name in KEEP:
                if got.k == 'int':
                    R.ob(ob, 'violated')
                    R.violation('builtin-keep:%s' % name, 'the status the builtin %r was to leave is overwritten with %s' % (name, show(got)), where(F, o.key))
            else:
                if got.k != 'int':
                    R.ob(ob, 'violated' if got.k in ('static', 'hv') else 'undecided')
                    if got.k in ('static', 'hv'):
                        R.violation('builtin-ok:%s' % name, 'the builtin %r succeeds and the status is left as it was before' % name, where(F, o.key))
                elif got.a[0] != 0:
                    R.ob(ob, 'violated')
                    R.violation('builtin-ok:%s' % name, 'the builtin %r succeeds and leaves the status %s' % (name, show(got)), where(F, o.key))


def handler_of(F, name):
    hs = set()
    for o in cmds.run(F, name):
        if isinstance(o.how, tuple) and o.how[0]:
            hs.add(o.how[0])
    return sorted(hs)


def handlers(F, R, stat):
    si = field_index(F, 'ast::SimpleCommand', 'suffix')
    wi = field_index(F, 'ast::Suffix', 'word')
    for name in ('exit', 'return'):
        for k in handler_of(F, name):
            f = F.fns[k]
            n = cmds.cmd_arg(f)
            if n is None:
                continue
            for words in (0, 1):
                e = base.engine(F, base.EXIT)
                got = []

                def exit_(e, st, c, got=got):
                    got.append((st, c.args[0], c))
                    return []
                for x in base.EXIT:
                    e.hooks[x] = exit_
                st = ai.St()
                args = base.inputs(f)
                loc, path = e.deref(args[n])
                cmd = e.load(st, loc, path)
                suf = e.proj(st, cmd, ('', si))
                ob = '%s %s' % (name, 'without a word' if not words else 'with a number')
                R.ob(ob)
                w = mk('in', 95, 'std::string::String')
                if not words:
                    e.store(st, loc, path + (('', si),), NONE)
                else:
                    fs = F.adts['ast::Suffix']['variants'][0]['fields']
                    vals = [mk('in', 96 + i, t) for i, t in enumerate(F.adts['ast::Suffix']['variants'][0]['ftys'])]
                    vals[wi] = mk('vec', w)
                    e.store(st, loc, path + (('', si),), SOME(mk('adt', 'ast::Suffix', '', *vals)))
                before = status(e, st, stat)
                outs = base.run(e, k, args, st)
                R.functions |= e.stats['inlined']
                num = [t for t in (x[1] for x in got)]
                R.count('exit and return cases')
                if name == 'exit':
                    if not words:
                        for (s, v, c) in got:
                            v = e.res(s, v)
                            if v is not e.res(s, e.load(s, ('S', stat[0]))) and v is not before:
                                R.ob(ob, 'violated')
                                R.violation('exit-default', '`exit` without a word ends the shell with %s instead of the last status' % show(v, 4), c.where())
                        if outs or not got:
                            R.ob(ob, 'violated' if not got else 'undecided')
                            if not got:
                                R.violation('exit-none', '`exit` without a word does not end the shell', where(F, k))
                    else:
                        if not got:
                            R.ob(ob, 'violated')
                            R.violation('exit-word-none', '`exit n` never ends the shell', where(F, k))
                        for (s, v, c) in got:
                            v = e.res(s, v)
                            if not parsed(v, w):
                                R.ob(ob, 'violated' if not unknown(v) else 'undecided')
                                if not unknown(v):
                                    R.violation('exit-word', '`exit n` ends the shell with %s instead of n' % show(v, 5), c.where())
                        for s, v in outs:
                            if not is_err(e, s, v):
                                R.ob(ob, 'violated')
                                R.violation('exit-word-silent', '`exit` with a word that is no number succeeds without ending the shell', where(F, k))
                else:
                    for s, v in outs:
                        if is_err(e, s, v):
                            continue
                        g = status(e, s, stat)
                        if not words and not (g is before):
                            R.ob(ob, 'violated')
                            R.violation('return-default', '`return` without a word changes the last status to %s' % show(g, 4), where(F, k))
                        if words and not parsed(g, w):
                            R.ob(ob, 'violated' if not unknown(g) else 'undecided')
                            if not unknown(g):
                                R.violation('return-word', '`return n` leaves the status %s instead of n' % show(g, 5), where(F, k))


def parsed(v, w):
    """is v the number parsed from w?"""
    if v.k == 'f' and v.a[1] == 'Ok':
        v = v.a[0]
        return v.k == 'app' and str(v.a[0]).startswith('parse') and contains(v, w)
    return False


def contains(v, w):
    return v is w or any(contains(x, w) for x in v.a if isinstance(x, T)) or any(isinstance(x, tuple) and any(isinstance(y, T) and contains(y, w) for y in x) for x in v.a)


def pipeline_result(F, R, stat):
    """the value a pipeline evaluates to is $?"""
    ps = set(proc.pipeline_fns(F))
    bi = field_index(F, 'ast::Pipeline', 'bang')
    inner = [k for k in ps if not any(inst in ps for (_, inst) in F.callees[k])]
    for k in inner:
        f = F.fns[k]
        e = ai.Engine(F)
        e.disj, e.mem_disj, e.widen_at = 4, 6, 1

        def pol(e, st, c, key):
            if not F.fns[key]['local']:
                return 'inline'
            fs = effects.reach(F, key, {})
            if fs <= {'status-write'} and sum(len(F.fns[x]['blocks']) for x in F.reach(key)[1] if x in F.fns and F.fns[x]['local']) <= 40:
                return 'inline'
            return 'opaque'
        e.policy = pol

        def exit_(e, st, c):
            return []
        for x in base.EXIT:
            e.hooks[x] = exit_

        def pre(e, st, c):
            # nothing but the status is followed here
            if c.local and c.inst in F.fns and not set(effects.reach(F, c.inst, {})) & {'status-write'}:
                r = e.result_term(st, c)
                return [(st, r)] if not c.diverges else []
            return None
        e.pre.append(pre)
        st = ai.St()
        args = base.inputs(f)
        try:
            outs = base.run(e, k, args, st)
        except ai.Budget:
            R.ob('%s returns $?' % k, 'undecided')
            continue
        R.functions |= e.stats['inlined']
        ob = '%s returns $?' % k
        R.ob(ob)
        for s, v in outs:
            if is_err(e, s, v):
                continue
            R.count('pipeline results compared')
            r = e.res(s, e.proj(s, v, ('Ok', 0)))
            g = status(e, s, stat)
            if r is g or same(e, s, r, g):
                continue
            if r.k == 'int' or g.k == 'int' or not unknown(r):
                R.ob(ob, 'violated')
                R.violation('%s:result' % k, 'a pipeline can evaluate to %s while $? is %s' % (show(r, 4), show(g, 4)), where(F, k))
            else:
                R.ob(ob, 'undecided')


def waited(F, R, stat):
    """the status obtained by waiting for a job reaches $? (def-use over moves)"""
    sites = 0
    waits = set()
    for k, f in F.local.items():
        ats = proc.arg_types(f)
        if f['locals'][0]['ty'] == WS and F.reach(k)[0] & base.WAIT and any('jobs::Job' in t for t in ats):
            waits.add(k)
    ev = set(proc.pipeline_fns(F))
    for k, f in F.local.items():
        if k in waits:
            continue
        for bi, b in enumerate(f['blocks']):
            t = b['t']
            if t['k'] != 'call' or b.get('cu'):
                continue
            c = t['f'].get('k')
            if not (isinstance(c, dict) and c.get('inst') in waits):
                continue
            # in the signal handler a result is of no interest
            eff = effects.reach(F, c['inst'], {})
            if not blocking(F, c['inst']):
                continue
            sites += 1
            ob = '%s: the status waited for is reported' % k
            R.ob(ob)
            if not used(F, f, t['d']['l'], stat):
                R.ob(ob, 'violated')
                R.violation('%s:dropped-status' % k, 'the status of the job that was waited for is dropped', '%s:%s' % tuple(b['sp']) if b.get('sp') else where(F, k))
    R.count('waits for a job followed to the status', sites)
    R.ob('foreground waits are found', 'ok' if sites else 'undecided')


def blocking(F, k):
    return 'nix::sys::wait::waitpid' in F.reach(k)[0]


def used(F, f, l, stat):
    """does local l flow into a status write or the return value?"""
    flow, todo = {l}, [l]

    def locs(x, acc):
        if isinstance(x, dict):
            if 'l' in x and 'p' in x:
                acc.add(x['l'])
            for y in x.values():
                locs(y, acc)
        elif isinstance(x, list):
            for y in x:
                locs(y, acc)
        return acc
    for _ in range(8):
        n = len(flow)
        for b in f['blocks']:
            for s in b['s']:
                if s[0] == '=' and locs(s[2], set()) & flow:
                    flow.add(s[1]['l'])
            t = b['t']
            if t['k'] == 'call' and locs(t['a'], set()) & flow:
                c = t['f'].get('k')
                inst = c.get('inst') if isinstance(c, dict) else None
                if inst in F.fns and 'status-write' in effects.reach(F, inst, {}):
                    return True
                if isinstance(c, dict) and c.get('fn', '').endswith('::store'):
                    return True
                flow.add(t['d']['l'])
            if t['k'] == 'switch' and locs(t, set()) & flow:
                # matched on here
                if any(bl['t']['k'] == 'call' and isinstance(bl['t']['f'].get('k'), dict) and (bl['t']['f']['k'].get('inst') in F.fns and 'status-write' in effects.direct(F, bl['t']['f']['k']['inst'])) for bl in f['blocks']):
                    return True
        if 0 in flow:
            return True
        if len(flow) == n:
            break
    return False


def shell_exit(F, R, stat):
    """what main ends the process with"""
    mains = [k for k in F.local if k == 'main' or k.endswith('::main')]
    for k in mains:
        e = ai.Engine(F)
        e.widen_at = 1
        got = []

        def exit_(e, st, c):
            got.append((st, c))
            return []
        for x in base.EXIT:
            e.hooks[x] = exit_

        def pol(e, st, c, key):
            if not F.fns[key]['local']:
                return 'inline'
            small = sum(len(F.fns[x]['blocks']) for x in F.reach(key)[1] if x in F.fns and F.fns[x]['local']) <= 20
            return 'inline' if small else 'opaque'
        e.policy = pol
        outs = base.run(e, k)
        R.functions |= e.stats['inlined']
        ob = 'the shell ends with the last status'
        R.ob(ob, 'ok' if got else 'violated')
        if not got:
            R.violation('main-status', 'the shell never ends with the last status', where(F, k))
        if outs:
            R.ob(ob, 'violated')
            R.violation('main-returns', 'the shell can end with status 0 whatever the last status was', where(F, k))
        for (s, c) in got:
            v = e.res(s, c.args[0])
            g = status(e, s, stat)
            R.count('ends of the shell compared')
            if v is not g and not same(e, s, v, g):
                R.ob(ob, 'violated' if v.k == 'int' or not unknown(v) else 'undecided')
                if v.k == 'int' or not unknown(v):
                    R.violation('main-status', 'the shell ends with %s instead of the last status' % show(v, 4), c.where())
