"""P26: operators and reserved words are recognised by longest match."""
import lex
from terms import *

RULE = ('The tokenizer is interpreted over every text, split by the class of the first character. The characters taken for a token decide its kind: an operator token must have been '
        'made from exactly the characters of that operator, the next character being none that continues it to a longer one; an operator character must never start or be part of '
        'a word; a word whose text equals a reserved word must become that one, any other text must not; quoted text ends at its closing quote.')


def check(F, R):
    R.rule = RULE
    x = lex.analyse(F, R, [' '])
    if not x.next or not x.new:
        R.ob('the tokenizer is found', 'undecided')
        R.note('no function of the tokenizer\'s shape (an iterator over located tokens built from a text) was found')
        return
    w = x.where(x.next)
    R.count('tokenizer outcomes', len(x.tokens))
    R.count('character classes', len(x.classes))
    for prop, key, msg, where in x.problems:
        if prop == 'P26':
            R.violation(key, msg, where)
            R.ob('a word contains no operator character and ends with its quote', 'violated')
    R.ob('a word contains no operator character and ends with its quote')
    for u in x.unknown:
        R.note(u)
        R.ob('the state between calls is followed', 'undecided')
    text = {v: k for k, v in lex.OPS.items()}
    starts = {o[0] for o in text}
    seen = set()
    words = set()
    for t in x.tokens:
        s, e = t.st, t.eng
        if t.cls in ('blank', '#', 'end', '\n') or t.mode != 'token':
            continue
        name = 'text starting with %r' % t.cls
        if t.cls in starts:
            tx = ''.join(c or '?' for c in t.text)
            if t.kind == 'unknown':
                R.ob(name, 'undecided')
            elif t.kind not in lex.OPS:
                R.violation('operator:%s:%s' % (t.cls, t.kind), 'the operator character %s can start a token %s' % (t.cls, t.kind), w)
                R.ob(name, 'violated')
            elif '?' in tx:
                # the later characters are not known: only wrong if they cannot be the operator's
                R.ob(name, 'undecided' if len(tx) == len(lex.OPS[t.kind]) else 'violated')
                if len(tx) != len(lex.OPS[t.kind]):
                    R.violation('operator:%s:%s' % (t.cls, t.kind), 'the token %s can be made of %d characters' % (t.kind, len(tx)), w)
            elif tx != lex.OPS[t.kind]:
                R.violation('operator:%s:%s' % (tx, t.kind), 'the characters %s become the token %s' % (tx, t.kind), w)
                R.ob(name, 'violated')
            else:
                seen.add(t.kind)
                R.ob(name)
                for longer in text:
                    if len(longer) == len(tx) + 1 and longer.startswith(tx) and t.cur != 'end':
                        f = x.fact(s, t.next, longer[-1]) if t.next is not None else None
                        if f is not False:
                            R.violation('split:' + longer, 'the text %s can be split into %s and what follows' % (longer, tx), w)
                            R.ob(name, 'violated')
            continue
        if t.cls in lex.QUOTES:
            if t.kind not in ('Word', 'Subshell'):
                if t.kind in lex.KEYS:
                    R.violation('quoted:' + t.kind, 'quoted text can become the reserved word %s' % lex.KEYS[t.kind], w)
                    R.ob(name, 'violated')
                else:
                    R.ob(name, 'undecided')
            elif t.closed is not True and t.cur != 'end':
                R.violation('unclosed:' + t.cls, 'a token starting with %s can end before its closing quote' % t.cls, w)
                R.ob(name, 'violated')
            else:
                R.ob(name)
            continue
        if t.cls == '$':
            if t.kind in lex.OPS:
                R.violation('operator:$:%s' % t.kind, 'the character $ can start the operator %s' % lex.OPS[t.kind], w)
            continue
        # a plain word
        if t.kind in lex.OPS:
            R.violation('operator:other:%s' % t.kind, 'a character that is no operator becomes the operator %s' % lex.OPS[t.kind], w)
            R.ob(name, 'violated')
            continue
        if t.kind == 'Err':
            continue
        c, no = x.word_fact(t)
        if t.kind in lex.KEYS:
            words.add(t.kind)
            if c is None:
                R.ob(name, 'undecided')
            elif c != lex.KEYS[t.kind]:
                R.violation('keyword:%s:%s' % (c, t.kind), 'the word %s becomes the reserved word %s' % (c, lex.KEYS[t.kind]), w)
                R.ob(name, 'violated')
            else:
                R.ob(name)
        elif t.kind in ('Word', 'Number'):
            miss = sorted(k for k in lex.KEYS.values() if k not in no) if c is None else [c] if c in lex.KEYS.values() else []
            before = True if t.next is not None and (x.known(s, t.next) or '') in ('<', '>') else \
                False if t.cur == 'end' or t.next is not None and (x.known(s, t.next) is not None or x.fact(s, t.next, '<') is False and x.fact(s, t.next, '>') is False) else None
            if t.kind == 'Number':
                if before is False:
                    R.violation('number', 'digits become a descriptor number although no redirection operator follows', w)
                R.ob('a descriptor number stands in front of a redirection', 'ok' if before else 'violated' if before is False else 'undecided')
                continue
            if before is True and not any(f == ('v', 'Err') for k, f in s.facts.items() if isinstance(k, T) and k.k == 'app' and k.a[0].startswith('parse')):
                R.violation('number-missed', 'digits directly in front of a redirection operator can become a plain word', w)
                R.ob('a descriptor number stands in front of a redirection', 'violated')
            for k in miss:
                R.violation('keyword-missed:' + k, 'the word %s can be delivered as a plain word' % k, w)
            R.ob(name, 'violated' if miss else 'ok')
        else:
            R.ob(name, 'undecided')
    for k in sorted(lex.OPS):
        if k in seen:
            R.ob('the operator %s is recognised' % lex.OPS[k])
        else:
            und = any(o for o, st in R.obl.items() if st == 'undecided')
            R.ob('the operator %s is recognised' % lex.OPS[k], 'undecided' if und else 'violated')
            if not und:
                R.violation('lost:' + lex.OPS[k], 'the text %s never becomes its own token' % lex.OPS[k], w)
    for k in sorted(lex.KEYS):
        R.ob('the reserved word %s is recognised' % lex.KEYS[k], 'ok' if k in words else 'undecided')
