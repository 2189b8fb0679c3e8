"""Every recognised builtin is dispatched, to its own behaviour."""
import cmds
from terms import *

RULE = ('Abstract interpretation of the evaluation of a simple command (MIR) for each documented builtin name and for a name that is none of them: for each, every abstract '
        'path is classified as handled inside the shell or turned into a process, and the effects (chdir, exit, setenv, kill, exec, alias/variable/function table writes, '
        'parse+evaluate, ...) of the functions it hands the command to, computed over the call graph from their MIR, are compared with what the name stands for.')


def check(F, R):
    R.rule = RULE
    es = cmds.entries(F)
    R.ob('the evaluation of a simple command is found', 'ok' if es else 'violated')
    if not es:
        R.violation('entry', 'no function turns a simple command into a process or a builtin any more')
        return
    base = set()
    for name, (need, ban) in sorted(cmds.DOC.items()):
        outs = cmds.run(F, name, R)
        ob = 'builtin %r is recognised and handled by its own code' % name
        R.ob(ob)
        R.count('abstract outcomes classified', len(outs))
        if not outs:
            R.ob(ob, 'undecided')
            continue
        if any(o.builtin is None for o in outs):
            R.ob(ob, 'undecided')
        if any(o.builtin is False for o in outs):
            R.ob(ob, 'violated')
            R.violation('unrecognised:%s' % name, 'the builtin %r is run as a program instead of being handled by the shell' % name, cmds_where(F, es[0]))
            continue
        eff = frozenset().union(*[o.eff for o in outs])
        miss = need - eff
        if miss:
            R.ob(ob, 'violated')
            R.violation('misdispatched:%s' % name, 'the builtin %r is recognised, but what handles it cannot %s' % (name, ', '.join(sorted(miss))), cmds_where(F, es[0]),
                        ['effects found: %s' % ', '.join(sorted(eff))] + ['handled by %s' % o.how[0] for o in outs if isinstance(o.how, tuple)])
        bad = ban & eff
        if bad:
            R.ob(ob, 'violated')
            R.violation('wrong-effect:%s' % name, 'the builtin %r can also %s' % (name, ', '.join(sorted(bad))), cmds_where(F, es[0]),
                        ['handled by %s' % o.how[0] for o in outs if isinstance(o.how, tuple)])
        R.sample('%r: effects {%s}' % (name, ', '.join(sorted(eff))))
    outs = cmds.run(F, None, R)
    ob = 'a name that is no builtin becomes a process'
    R.ob(ob, 'ok' if any(o.builtin is False for o in outs) else 'violated')
    if not any(o.builtin is False for o in outs):
        R.violation('no-programs', 'no command is ever turned into a process', cmds_where(F, es[0]))
    for o in outs:
        f = o.st.facts.get(o.name)
        R.count('abstract outcomes classified')
        if o.builtin is not True:
            continue
        if f and f[0] == 'c':
            n = f[1].a[0] if isinstance(f[1], T) else f[1]
            if n in cmds.DOC:
                continue
            if not (o.eff - {'status-write'}):
                R.violation('swallowed:%s' % n, 'the name %r is kept from being run as a program and nothing handles it' % n, cmds_where(F, es[0]))
        elif f and f[0] == 'n' and set(cmds.DOC) - {''} <= {x.a[0] if isinstance(x, T) else x for x in f[1]}:
            R.violation('swallowed:other', 'a name that is no builtin is kept from being run as a program', cmds_where(F, es[0]))
        elif not f:
            R.ob(ob, 'undecided')
    R.assume = ['the name of the command is one no alias and no expansion changes', 'effects of a handler are those reachable in its call graph, the evaluation of further text excluded']


def cmds_where(F, key):
    sp = F.fns[key]['span']
    return '%s:%s' % (sp[0], sp[1])
