"""P22: deliberate exits save the history that start-up loaded."""
import ai
import base
import cmds
import effects
import mainrun
import proc
from proc import get, put
from mainrun import sub
from terms import *

RULE = ('main() and the handler of the exit command are interpreted (MIR): the history must be loaded before the first prompt, every path on which an interactive shell then ends must write it '
        'to the place it was loaded from after the last line was read, and the editor must be told to enter the lines into it.')


class M(mainrun.Main):
    R = None
    root = None

    def v(self, key, msg, c, path=()):
        self.R.violation('%s:%s' % (key, self.root), msg, '%s:%s' % tuple(c.span[:2]) if c is not None else None, list(path))

    def on_read(self, e, st, c, src):
        if src == 'rl':
            self.tick('prompts')
            if get(st, 'load') is None:
                self.v('unloaded', 'the first line is read before the history was loaded', c)
            if get(st, 'rd') and get(st, 'rd')[0] in ('Eof',):
                self.v('goes-on', 'the shell reads on after the end of its input', c)
            put(st, 'save', None)

    def on_history(self, e, st, c, what, p):
        self.tick('%ss' % what)
        if what == 'save' and get(st, 'load') is not None:
            if not samefile(get(st, 'load'), p):
                if all(t.k in ('str', 'static', 'cat', 'f') or True for t in (p,)) and known(p) and known(get(st, 'load')):
                    self.v('elsewhere', 'the history is not written to the place it was loaded from', c, ['loaded from %s' % show(get(st, 'load'), 5), 'written to %s' % show(p, 5)])
                else:
                    self.unknown = True
        if what == 'load' and get(st, 'src') is None:
            self.loc = p

    def on_exit(self, e, st, c, v):
        if self.root == 'main':
            if get(st, 'src') == 'rl':
                self.tick('ends of an interactive shell')
                if get(st, 'save') is None:
                    self.v('unsaved', 'an interactive shell ends without writing its history', c)
        else:
            self.tick('ends by command')
            if get(st, 'save') is None:
                self.v('unsaved', 'the command that ends the shell does not write the history', c, ['exit in %s' % c.fn])

    def on_return(self, e, st, v):
        if self.root == 'main' and get(st, 'src') == 'rl' and get(st, 'save') is None:
            self.R.violation('unsaved:main', 'an interactive shell ends without writing its history', '%s:%s' % tuple(self.F.fns['main']['span'][:2]))


def samefile(a, b):
    return a is b or show(a, 9) == show(b, 9)


def known(t):
    return not any(y.k in ('hv', 'u', 'w', 'call') for y in sub(t))


def check(F, R):
    R.rule = RULE
    roots = ['main']
    stop = cmds.stops(F)
    for o in cmds.run(F, 'exit', None):
        if isinstance(o.how, tuple) and o.how[0] in F.local and 'exit' in effects.reach(F, o.how[0], stop) and o.how[0] not in roots:
            roots.append(o.how[0])
    R.count('handlers of the exit command', len(roots) - 1)
    for k in roots:
        m = M(F, want={'fragile'})
        m.R, m.root, m.unknown = R, k, False
        ob = 'an interactive shell that ends in %s has written its history' % k
        n = len(R.viol)
        try:
            m.run(k)
        except ai.Budget:
            R.ob(ob, 'undecided')
            continue
        R.functions |= m.e.stats['inlined'] | {k}
        for a, b in m.counts.items():
            R.count(a, b)
        ends = m.counts.get('ends of an interactive shell' if k == 'main' else 'ends by command')
        R.ob(ob, 'violated' if len(R.viol) > n else 'ok' if ends and not m.unknown else 'undecided')
    # lines are entered into the history
    names, keys = F.reach('main')
    auto = None
    for k in sorted(keys):
        if k not in F.local:
            continue
        for b in F.fns[k]['blocks']:
            t = b['t']
            if t['k'] == 'call' and isinstance(t['f'].get('k'), dict):
                n = t['f']['k'].get('fn', '')
                if n.endswith('::add_history_entry') or n.endswith('history::History::add'):
                    auto = auto or True
                if n.endswith('::auto_add_history'):
                    a = t['a'][1].get('k') if isinstance(t['a'][1], dict) else None
                    on = not (isinstance(a, dict) and a.get('bool') is False)
                    auto = on or auto or ('off', b.get('sp'))
    ob = 'lines read are entered into the history'
    if auto is True:
        R.ob(ob)
    else:
        R.ob(ob, 'violated')
        R.violation('unentered', 'nothing enters the lines read into the history', '%s:%s' % tuple(auto[1][:2]) if isinstance(auto, tuple) and auto[1] else None)
    R.assume = ['the line editor writes the history it holds to the path it is given', 'relative paths name the same file as long as the place is not changed by cd']
