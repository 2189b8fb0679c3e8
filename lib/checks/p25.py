"""P25: every text is split into tokens completely, ending in one end marker."""
import lex
from terms import *

RULE = ('The tokenizer is interpreted over every text: from each state it can be in between two calls and each class of next character, the characters it takes are followed '
        'in order. Each token must begin at the first character taken that is neither blank nor part of a comment, a token with text must carry exactly the text from there to the '
        'last character taken, every loop must take a character on each round, the end marker must be delivered only when no character is left, once, and nothing after it.')

TEXTUAL = ('Word', 'Number', 'Subshell')


def check(F, R):
    R.rule = RULE
    x = lex.analyse(F, R, lex.QUICK if R.tier == 'quick' else lex.BLANKS)
    if not x.next or not x.new:
        R.ob('the tokenizer is found', 'undecided')
        R.note('no function of the tokenizer\'s shape (an iterator over located tokens built from a text) was found')
        return
    w = x.where(x.next)
    R.count('tokenizer outcomes', len(x.tokens))
    R.count('character classes', len(x.classes))
    for prop, key, msg, where in x.problems:
        if prop == 'P25':
            R.violation(key, msg, where)
            R.ob('no crash and no loop without progress', 'violated')
    for u in x.unknown:
        R.note(u)
        R.ob('the state between calls is followed', 'undecided')
    R.ob('no crash and no loop without progress')
    for t in x.tokens:
        s, e = t.st, t.eng
        name = 'a character %s gives %s' % (ascii(t.cls), t.kind)
        if t.kind == 'unknown':
            R.ob(name, 'undecided')
            continue
        if t.kind == 'None':
            ok = t.emitted and t.cls == 'end'
            if not t.emitted:
                R.violation('ends-early:' + ascii(t.cls), 'the token stream can end before the end marker was delivered (next character: %s)' % ascii(t.cls), w)
            elif t.cls != 'end':
                R.violation('ends-early:' + ascii(t.cls), 'the token stream can end with characters left', w)
            R.ob(name, 'ok' if ok else 'violated')
            continue
        if t.kind == 'EOF':
            bad = []
            if t.cur != 'end':
                bad.append(('eof-early', 'the end marker can be delivered while characters are left'))
            if t.mode == 'token':
                bad.append(('eof-swallows', 'the end marker can be delivered instead of characters taken from the text (first: %s)' % ascii(t.cls)))
            if t.emitted:
                bad.append(('eof-twice', 'the end marker can be delivered twice'))
            for k, m in bad:
                R.violation(k, m, w)
            R.ob(name, 'violated' if bad else 'ok')
            continue
        if t.emitted:
            R.violation('after-end', 'a token can be delivered after the end marker', w)
            R.ob(name, 'violated')
            continue
        if t.mode != 'token':
            R.violation('empty:' + t.kind, 'a token %s can be delivered for blanks or a comment alone' % t.kind, w)
            R.ob(name, 'violated')
            continue
        if t.kind == 'Err':
            R.ob(name)
            continue
        same = lambda a, b: a is b or e.res(s, a) is e.res(s, b) or x.deep(t, a) is x.deep(t, b) or e.boolean(s, 'eq', a, b) is True
        def judge(pairs, key, msg):
            if all(same(a, b) for a, b in pairs):
                R.ob(name)
            elif x.exact(*[y for p in pairs for y in p]):
                R.violation(key, msg, w, ['taken: %s' % show(t.end, 5), 'delivered: %s' % show(pairs[-1][0], 5)])
                R.ob(name, 'violated')
            else:
                R.ob(name, 'undecided')
                return False
            return True
        start = (t.lo, t.start)
        judge([start], 'start:' + t.kind, 'a token %s does not start at the first character taken for it' % t.kind)
        if t.kind not in TEXTUAL:
            continue
        a = e.res(s, t.arg)
        if t.kind == 'Number':
            if a.k == 'int':
                R.violation('number', 'a descriptor number can be other than the one written', w)
            a = x.parsed(a)
        if a is not None and a.k == 'app' and a.a[0] == 'slice' and (a.a[1] is x.text or a.a[1] is x.arg):
            lo, hi = x.bounds(t, e.res(s, a.a[2]))
            if lo is None:
                R.ob(name, 'undecided')
            elif hi is None:
                if t.cur != 'end':
                    R.violation('text:%s' % t.kind, 'a token %s carries the rest of the text' % t.kind, w)
                R.ob(name, 'ok' if t.cur == 'end' else 'violated')
            else:
                judge([(lo, t.start), (hi, t.end)], 'text:%s' % t.kind, 'a token %s can carry other text than the characters taken for it' % t.kind)
        else:
            R.ob(name, 'undecided')
