"""And-or lists, `;` lists and `!`: which pipelines run, in which order, with which status."""
import ai
import base
import proc
from terms import *

RULE = ('Abstract interpretation of every function that evaluates a list, an and-or list or a pipeline, with the nested evaluation cut at the next syntax level '
        'and its result left unknown. Each abstract state at a return is split by (no left side | && | ||) x (left status zero | nonzero) x (error) and the '
        'recorded evaluations and the returned status are compared with the shell truth table; list elements are followed through their iterator.')


def stop_policy(F, root, interesting):
    """inline everything that does not evaluate a nested piece of the program"""
    def pol(e, st, c, key):
        if not F.fns[key]['local']:
            return 'inline'
        if F.reach(key)[0] & base.FORK:
            return 'inline' if key in e.through else 'opaque'
        size = sum(len(F.fns[k]['blocks']) for k in F.reach(key)[1] if k in F.fns and F.fns[k]['local'])
        return 'inline' if size <= 40 else 'opaque'
    return pol


def field_index(F, adt, name, ty=None):
    v = F.adts[adt]['variants'][0]
    for i, (n, t) in enumerate(zip(v['fields'], v['ftys'])):
        if (ty and t == ty) or (not ty and n == name):
            return i
    for i, n in enumerate(v['fields']):
        if n == name:
            return i
    return None


def result_of(e, st, c, tag):
    """Ok(status) / Err(..) for an evaluation left unknown"""
    t = e.fresh(st, 'call', c.site, c.res)
    s2 = st.fork()
    v = mk('f', t, 'Ok', 0)
    return st, v, s2, mk('f', t, 'Err', 0)


def exit_static(F):
    return [s for s, t in F.statics.items() if t in ('std::sync::atomic::Atomic<i32>', 'std::sync::atomic::AtomicI32', 'i32') and 'STATUS' in s.upper()]


def check(F, R):
    R.rule = RULE
    andor(F, R)
    bang(F, R)
    lists(F, R)
    R.assume = ['the parser builds a left-leaning and-or chain (property on the syntax tree)', 'an and-or node without operator but with a left side is not produced by the grammar']


def andor(F, R):
    ks = proc.andor_fns(F)
    pipes = set(proc.pipeline_fns(F))
    entries = sorted(k for k in ks if any(inst == k for o in F.local if o not in ks for (_, inst) in F.callees[o]))
    R.ob('an and-or evaluation entry exists', 'ok' if entries else 'violated')
    if not entries:
        R.violation('andor-entry', 'no function evaluates an and-or list by forking pipelines any more')
        return
    ai_ = field_index(F, 'ast::AndOr', 'and_or', 'std::option::Option<std::boxed::Box<ast::AndOr>>')
    ci = field_index(F, 'ast::AndOr', 'conditional_exec', 'std::option::Option<ast::ConditionalExec>')
    pi = field_index(F, 'ast::AndOr', 'pipeline', 'ast::Pipeline')
    for key in entries:
        e = ai.Engine(F)
        e.policy = stop_policy(F, key, ())
        e.through = {k for k in ks if k != key}
        root = {}
        und = []

        def nested(e, st, c, kind):
            loc, path = e.deref(c.args[[i for i, t in enumerate(c.at) if 'ast::' in t][0]])
            a, v, b, x = result_of(e, st, c, kind)
            m = proc.get(st, 'ev', ())
            what = (kind, loc, path)
            proc.put(a, 'ev', m + (what + (v,),) if len(m) < 6 else m)
            proc.put(b, 'ev', m + (what + (None,),) if len(m) < 6 else m)
            return [(a, OK(v)), (b, ERR(x))]

        def pre(e, st, c):
            if c.inst in pipes:
                return nested(e, st, c, 'pipe')
            if c.inst in ks:
                i = [i for i, t in enumerate(c.at) if t.endswith('ast::AndOr')]
                if i:
                    l = e.deref(c.args[i[0]])
                    if l == root['loc'] and c.inst != key:
                        return None
                    return nested(e, st, c, 'left')
            return None
        e.pre.append(pre)
        f = F.fns[key]
        args = base.inputs(f)
        n = [i for i, t in enumerate(proc.arg_types(f)) if t == '&mut ast::AndOr'][0]
        st = ai.St()
        root['loc'] = e.deref(args[n])
        outs = base.run(e, key, args, st)
        R.functions |= e.stats['inlined']
        R.count('abstract return states of and-or evaluation', len(outs))
        whole = e.load(st, *root['loc'])
        left = e.proj(st, whole, ('', ai_))
        cond = e.proj(st, whole, ('', ci))
        for s, v in outs:
            s0 = s
            evs = proc.get(s, 'ev', ())
            lefts = [x for x in evs if x[0] == 'left']
            ps = [x for x in evs if x[0] == 'pipe']
            for case in ('none', 'And', 'Or'):
                for z in ((None,) if case == 'none' else (True, False)):
                    sts = [s0.fork()]
                    if case == 'none':
                        sts = [q for q in sts if e.assume_variant(q, left, 'None', OPT, True) is not False]
                    else:
                        sts = [q for q in sts if e.assume_variant(q, left, 'Some', OPT, True) is not False]
                        sts = [q for q in sts if e.assume_variant(q, cond, 'Some', OPT, True) is not False]
                        sts = [q for q in sts if e.assume_variant(q, e.proj(q, cond, ('Some', 0)), case, 'ast::ConditionalExec', True) is not False]
                        if lefts and lefts[-1][3] is not None:
                            sts = [q for q in sts if e.assume(q, e.boolean(q, 'eq', lefts[-1][3], I(0)), z) is not False]
                    for q in sts:
                        name = 'and-or case %s%s' % ({'none': 'single pipeline', 'And': '&&', 'Or': '||'}[case], '' if z is None else ', left status %s' % ('zero' if z else 'nonzero'))
                        bad = judge(e, q, v, case, z, lefts, ps, root['loc'], pi, ai_)
                        R.ob(name)
                        R.count('and-or cases compared')
                        if bad:
                            R.ob(name, 'violated')
                            R.violation('%s: %s: %s' % (key, name, bad), '%s: %s' % (name, bad), where(F, key), ['evaluations: %s' % (', '.join('%s %s' % (x[0], 'err' if x[3] is None else 'ok') for x in evs),), 'returns %s' % show(v)])
                        else:
                            R.sample('%s: evaluates [%s] and returns %s' % (name, ', '.join(x[0] for x in evs), show(v, 3)))


def where(F, key):
    sp = F.fns[key]['span']
    return '%s:%s' % (sp[0], sp[1])


def same(e, q, a, b):
    return a is b or e.decide(q, e.boolean(q, 'eq', a, b)) is True


def judge(e, q, v, case, z, lefts, ps, loc, pi, ai_):
    oks = [x for x in lefts + ps if x[3] is None]
    if case == 'none':
        if lefts:
            return 'evaluates a left side that does not exist'
        if len(ps) != 1:
            return 'runs %s instead of exactly one pipeline' % len(ps)
        p = ps[0]
    else:
        if len(lefts) != 1:
            return 'the left side is evaluated %d times instead of once' % len(lefts)
        if not starts(lefts[0], loc, ai_):
            return 'what is evaluated as the left side is not the left side of this list'
        if lefts[0][3] is None:
            if ps:
                return 'runs the right side after the left side failed to evaluate'
            return None if is_err(e, q, v) else 'the evaluation error of the left side is lost'
        run = z if case == 'And' else not z
        if not run:
            if ps:
                return 'runs the right side'
            if is_err(e, q, v):
                return 'fails instead of returning the left status'
            return None if same(e, q, e.proj(q, v, ('Ok', 0)), lefts[0][3]) else 'does not return the status of the left side'
        if len(ps) != 1:
            return 'runs the right side %d times instead of once' % len(ps)
        p = ps[0]
    if p[1] != loc[0] or p[2][len(loc[1]):][:1] != (('', pi),):
        if p[1] == loc[0]:
            return 'runs a pipeline that is not the one of this list'
        return None
    if p[3] is None:
        return None if is_err(e, q, v) else 'the evaluation error of the pipeline is lost'
    if is_err(e, q, v):
        return 'fails although the pipeline succeeded'
    return None if same(e, q, e.proj(q, v, ('Ok', 0)), p[3]) else 'does not return the status of the pipeline that ran last'


def starts(x, loc, i):
    if x[1] == loc[0] and x[2][:len(loc[1])] == loc[1]:
        return x[2][len(loc[1]):][:1] == (('', i),) or not x[2][len(loc[1]):]
    return True


def is_err(e, q, v):
    return e.is_variant(q, v, 'Err') is True or (v.k == 'adt' and v.a[1] == 'Err')


def bang(F, R):
    """`!` inverts the status of its pipeline, and $? follows"""
    es = proc.pipeline_entry(F)
    ps = set(proc.pipeline_fns(F))
    bi = field_index(F, 'ast::Pipeline', 'bang')
    if bi is None:
        R.violation('bang-field', 'the syntax tree no longer records `!`')
        return
    stat = exit_static(F)
    for key in es:
        e = ai.Engine(F)
        e.policy = stop_policy(F, key, ())
        e.through = set()
        f = F.fns[key]
        args = base.inputs(f)
        n = [i for i, t in enumerate(proc.arg_types(f)) if t == '&mut ast::Pipeline'][0]
        e.max_states = 1500
        direct = {nm for nm, _ in F.callees[key]} & base.FORK

        def pre(e, st, c):
            if c.inst in F.fns and c.local and F.reach(c.inst)[0] & base.FORK and 'Result<i32' in c.rty.replace('std::result::', ''):
                for s in stat:
                    e.set_root(st, ('S', s), mk('hv', c.site, 0, 's:' + s))
                a, v, b, x = result_of(e, st, c, '')
                for i, (r, t) in enumerate(zip(c.args, c.at)):
                    pass
                proc.put(a, 'inner', v)
                proc.put(b, 'inner', None)
                return [(a, OK(v)), (b, ERR(x))]
            return None
        e.pre.append(pre)
        if direct:
            R.ob('`!` inverts the status of its pipeline', 'undecided')
            R.note('%s forks by itself: the status before negation cannot be separated' % key)
            continue
        st = ai.St()
        outs = base.run(e, key, args, st)
        R.functions |= e.stats['inlined']
        whole = e.load(st, *e.deref(args[n]))
        b = e.proj(st, whole, ('', bi))
        seen = set()
        for s, v in outs:
            inner = proc.get(s, 'inner', 'no')
            if inner == 'no':
                R.ob('every pipeline evaluation runs the pipeline', 'undecided')
                continue
            for neg in (True, False):
                q = s.fork()
                if e.assume(q, b, neg) is False:
                    continue
                if inner is None:
                    continue
                if is_err(e, q, v):
                    bad = 'returns an error although the pipeline returned a status'
                    report_bang(R, F, key, neg, bad, v)
                    continue
                for z in (True, False):
                    w = q.fork()
                    if e.assume(w, e.boolean(w, 'eq', inner, I(0)), z) is False:
                        continue
                    r = e.res(w, e.proj(w, v, ('Ok', 0)))
                    seen.add((neg, z))
                    R.count('negation cases compared')
                    want = I(1 if z else 0) if neg else inner
                    if not same(e, w, r, want):
                        report_bang(R, F, key, neg, 'a status that is %s becomes %s' % ('zero' if z else 'nonzero', show(r, 3)), v)
                    if neg:
                        got = [e.res(w, e.load(w, ('S', x))) for x in stat]
                        if not any(same(e, w, g, want) for g in got):
                            report_bang(R, F, key, neg, '$? does not follow the negated status', v)
        for c in ((True, True), (True, False), (False, True), (False, False)):
            R.ob('negation=%s, inner status %s' % (c[0], 'zero' if c[1] else 'nonzero'), 'ok' if c in seen else 'undecided')


def report_bang(R, F, key, neg, bad, v):
    R.ob('`!` inverts the status of its pipeline', 'violated')
    R.violation('%s: %s: %s' % (key, 'with !' if neg else 'without !', bad), 'pipeline %s: %s' % ('with !' if neg else 'without !', bad), where(F, key), ['returns %s' % show(v)])


def lists(F, R):
    """every and-or list of a list is evaluated once, in order, until one fails to evaluate"""
    ks = proc.andor_fns(F)
    roots = sorted(k for k in F.local if k not in ks and any(t.startswith('&mut') and 'ast::AndOr' in t or t in ('&mut ast::CompleteCommand', '&mut ast::List', '&mut ast::CompoundList', '&mut ast::Term') for t in proc.arg_types(F.fns[k]))
                   and any(inst in ks for (_, inst) in F.callees[k]))
    R.ob('the functions that walk a list are found', 'ok' if roots else 'undecided')
    for key in roots:
        e = ai.Engine(F)
        e.policy = stop_policy(F, key, ())
        e.through = set()
        bad = {}

        def on_iter(e, st, c, it, x, ty):
            if 'ast::AndOr' not in ty and not (x is not None and ty == ''):
                return
            if 'ast::AndOr' not in ty:
                return
            if it.k in ('rev', 'skip', 'filter', 'take', 'tw', 'fmap'):
                bad.setdefault('the list is walked through `%s`' % it.k, c)
            if proc.get(st, 'pend') is not None:
                bad.setdefault('an element of the list is passed over', c)
            proc.put(st, 'pend', x)
            proc.put(st, 'open', x is not None)

        def pre(e, st, c):
            if c.inst in ks:
                p = proc.get(st, 'pend')
                i = [i for i, t in enumerate(c.at) if t.endswith('ast::AndOr')][0]
                if p is None and proc.get(st, 'open'):
                    bad.setdefault('an element of the list is evaluated twice', c)
                elif p is not None and e.deref(p) != e.deref(c.args[i]):
                    bad.setdefault('something else than the current element is evaluated', c)
                proc.put(st, 'pend', None)
                a, v, b, x = result_of(e, st, c, '')
                proc.put(a, 'last', v)
                proc.put(b, 'last', 'err')
                proc.put(st, 'ran', True)
                return [(a, OK(v)), (b, ERR(x))]
            return None
        e.on_iter = on_iter
        e.pre.append(pre)
        outs = base.run(e, key)
        R.functions |= e.stats['inlined']
        n = 0
        for s, v in outs:
            n += 1
            last = proc.get(s, 'last')
            if last == 'err':
                if not is_err(e, s, v) and F.fns[key]['locals'][0]['ty'] != '()':
                    bad.setdefault('the evaluation error of an element is lost', None)
                continue
            if proc.get(s, 'pend') is not None:
                bad.setdefault('returns before the current element was evaluated', None)
            elif proc.get(s, 'open'):
                bad.setdefault('returns before the end of the list', None)
            if last is not None and v.k == 'adt' and v.a[1] == 'Ok' and v.a[2].k != 'tup' and not same(e, s, v.a[2], last):
                bad.setdefault('the status of the list is not that of its last element', None)
        R.count('list walks analysed')
        R.ob('%s evaluates each element once, in order' % key, 'violated' if bad else 'ok')
        for k, c in bad.items():
            R.violation('%s: %s' % (key, k), '%s: %s' % (key, k), c.where() if c else where(F, key))
