"""One abstract run of the evaluation of a simple command, for a given command name: which names are builtins,
what handling them can do, and what status they leave."""
import ai
import base
import effects
import proc
from terms import *

DOC = {   # what a builtin of this name exists to do (required effects), and what it must not do
    'cd': ({'chdir'}, {'exit', 'exec', 'kill'}),
    'exit': ({'exit'}, {'chdir', 'kill', 'exec', 'setenv'}),
    'return': ({'status-write'}, {'exit', 'chdir', 'kill', 'exec'}),
    'jobs': ({'job-remove'}, {'exit', 'exec', 'kill', 'wait'}),
    'fg': ({'kill', 'wait'}, {'exit', 'exec', 'chdir'}),
    'bg': ({'kill'}, {'exit', 'exec', 'chdir'}),
    'alias': ({'alias-insert'}, {'alias-remove', 'exit', 'exec'}),
    'unalias': ({'alias-remove'}, {'alias-insert', 'exit', 'exec'}),
    'export': ({'setenv'}, {'exit', 'exec', 'chdir', 'kill'}),
    'eval': ({'parse', 'eval'}, {'open', 'exit', 'exec', 'chdir'}),
    'unset': ({'var-remove', 'func-remove'}, {'exit', 'exec', 'setenv'}),
    'pwd': ({'getcwd'}, {'chdir', 'exit', 'exec'}),
    'readonly': ({'readonly-write'}, {'exit', 'exec', 'setenv'}),
    'exec': ({'exec'}, {'exit', 'fork', 'chdir'}),
    '.': ({'open', 'parse', 'eval'}, {'exit', 'exec', 'chdir'}),
    'source': ({'open', 'parse', 'eval'}, {'exit', 'exec', 'chdir'}),
    '': ({'var-insert'}, {'exit', 'exec', 'setenv'}),
}


def stops(F):
    d = {}
    for k in proc.pipeline_fns(F):
        d[k] = 'eval'
    for k in proc.andor_fns(F) | set(proc.eval_entry(F)):
        d[k] = 'eval'
    return d


def cmd_arg(f):
    for i, t in enumerate(proc.arg_types(f)):
        if ai.base_ty(t) in ('ast::Command', 'ast::SimpleCommand'):
            return i
    return None


def entries(F):
    """outermost functions that turn a command of the syntax tree into a process or handle it as a builtin"""
    stop = stops(F)
    cand = []
    for k, f in F.local.items():
        if k in stop or cmd_arg(f) is None:
            continue
        eff = effects.reach(F, k, stop)
        if {'chdir', 'alias-insert', 'exec'} <= eff and any(t in f['locals'][0]['ty'] for t in ('jobs::Process',)):
            cand.append(k)
    inner = {inst for k in cand for (_, inst) in F.callees[k]}
    top = [k for k in cand if k not in inner]
    return top or cand


def discriminating(F):
    """functions among whose callees the handling of different builtins parts"""
    stop = stops(F)
    sets = [r for r, _ in DOC.values()]
    cache = {}

    def go(k):
        r = cache.get(k)
        if r is None:
            eff = effects.reach(F, k, stop)
            r = cache[k] = sum(1 for s in ({'chdir'}, {'exit'}, {'kill'}, {'alias-insert'}, {'alias-remove'}, {'setenv'}, {'exec'}, {'func-remove'}, {'readonly-write'}) if s <= eff) >= 2
        return r
    return go


class Outcome:
    def __init__(self, st, ret, builtin, eff, how):
        self.st, self.ret, self.builtin, self.eff, self.how = st, ret, builtin, eff, how


def run(F, name, R=None, inline_more=None, setup=None):
    """abstract outcomes of evaluating a simple command of that name (a string, or None for any other name)"""
    out = []
    stop = stops(F)
    disc = discriminating(F)
    for key in entries(F):
        f = F.fns[key]
        e = ai.Engine(F)
        e.max_states = 3000
        e.disj = 64
        n = cmd_arg(f)
        ty = ai.base_ty(proc.arg_types(f)[n])
        rewriters = {k for k, g in F.local.items() if proc.arg_types(g)[:1] == ['&mut ast::SimpleCommand'] and g['locals'][0]['ty'] == '()' and k not in stop}
        ni = field(F, 'ast::SimpleCommand', 'name')

        def pol(e, st, c, k, small={}):
            if not F.fns[k]['local']:
                return 'inline'
            if disc(k):
                return 'inline'
            g = F.fns[k]
            if g['nargs'] and all(ai.base_ty(t) in ('str', 'std::string::String', 'ast::SimpleCommand') for t in proc.arg_types(g)) and g['locals'][0]['ty'] == 'bool' and not any(e.fn_statics(x) for x in F.reach(k)[1]):
                return 'inline'
            if inline_more and inline_more(k):
                return 'inline'
            r = small.get(k)
            if r is None:
                ks = F.reach(k)[1]
                r = small[k] = sum(len(F.fns[x]['blocks']) for x in ks if x in F.fns and F.fns[x]['local']) <= 30
            return 'inline' if r else 'opaque'

        def pre(e, st, c):
            if c.inst in rewriters:
                # the words may be rewritten; the name of interest is one no rewriting changes
                loc, path = e.deref(c.args[0])
                old = e.load(st, loc, path)
                nm = e.proj(st, old, ('', ni))
                e.store(st, loc, path, mk('hv', c.site, 0, 0))
                e.store(st, loc, path + (('', ni),), nm)
                return [(st, UNIT)]
            if c.inst and c.inst in F.fns and c.local and not disc(c.inst):
                eff = frozenset(effects.reach(F, c.inst, stop))
                ef = proc.get(st, 'eff', frozenset()) | eff
                proc.put(st, 'eff', ef)
                if 'std::result::Result<()' in c.rty or c.rty.startswith('std::result::Result<'):
                    if eff - {'job-insert'} and (not inline_more or not inline_more(c.inst)):
                        loc = None
                        r = e.opaque_call(st, c, c.inst)
                        res = []
                        for (s, v) in r:
                            a, b = s, s.fork()
                            ok = mk('hv', c.site, 1, 'ok')
                            put_ev(a, c, True)
                            put_ev(b, c, False)
                            res.append((a, OK(UNIT if '<()' in c.rty else mk('f', v, 'Ok', 0))))
                            res.append((b, ERR(mk('f', v, 'Err', 0))))
                        return res
            elif not c.local:
                x = effects.of_call(c.name, c.res, c.targs)
                if x:
                    proc.put(st, 'eff', proc.get(st, 'eff', frozenset()) | {x})
            return None

        def put_ev(s, c, ok):
            proc.put(s, 'handler', (c.inst, ok))
        e.policy = pol
        e.pre.append(pre)
        diverged = []

        def on_div(e, st, c):
            diverged.append(Outcome(st, None, True, proc.get(st, 'eff', frozenset()), 'diverges'))
        e.on_diverge = on_div

        def exit_(e, st, c):
            proc.put(st, 'eff', proc.get(st, 'eff', frozenset()) | {'exit'})
            on_div(e, st, c)
            return []
        for x in base.EXIT:
            e.hooks[x] = exit_
        args = base.inputs(f)
        st = ai.St()
        loc, path = e.deref(args[n])
        if ty == 'ast::Command':
            cmd = mk('in', 90, 'ast::SimpleCommand')
            e.store(st, loc, path, mk('adt', 'ast::Command', 'SimpleCommand', cmd))
            path = path + (('SimpleCommand', 0),)
        if name is not None:
            e.store(st, loc, path + (('', ni),), S(name))
        else:
            nm = mk('in', 91, 'std::string::String')
            e.store(st, loc, path + (('', ni),), nm)
        if setup:
            setup(e, st, loc, path)
        for s, v in e.run(key, args, st, e.new_frame(0, 0, key)):
            b = classify(e, s, v)
            out.append(Outcome(s, v, b, proc.get(s, 'eff', frozenset()), proc.get(s, 'handler')))
            out[-1].eng = e
            out[-1].name = nm if name is None else S(name)
            out[-1].key = key
        for o in diverged:
            o.eng, o.key, o.name = e, key, (nm if name is None else S(name))
        out += diverged
        if R:
            R.functions |= e.stats['inlined']
    return out


def classify(e, s, v):
    """True: handled as a builtin, False: a process was made, None: unknown, 'err'"""
    if e.is_variant(s, v, 'Err') is True or (v.k == 'adt' and v.a[1] == 'Err'):
        return 'err'
    x = e.res(s, e.proj(s, v, ('Ok', 0)))
    if x.k == 'adt' and x.a[1] in ('Some', 'None'):
        return x.a[1] == 'None'
    if e.is_variant(s, x, 'None') is True:
        return True
    if e.is_variant(s, x, 'Some') is True:
        return False
    return None


def field(F, adt, name):
    a = F.adts.get(adt)
    if not a:
        return None
    fs = a['variants'][0]['fields']
    return fs.index(name) if name in fs else None
