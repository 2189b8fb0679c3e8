"""Runs one check, compares what it reports with the known findings, writes the evidence."""
import importlib
import json
import os
import sys
import threading
import time
import traceback

import facts
import ai

V = facts.V


class Report:
    """what a check hands back"""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.viol = {}            # key -> (message, where, path)
        self.obl = {}             # obligation -> 'ok' | 'undecided' | 'violated'
        self.counts = {}
        self.samples = []
        self.notes = []
        self.rule = ''
        self.functions = set()
        self.assume = []

    def violation(self, key, msg, where=None, path=()):
        """key: a stable identity (no line numbers); where: file:line; path: call stack or steps"""
        if key not in self.viol:
            self.viol[key] = (msg, where, list(path))

    def ob(self, name, state='ok'):
        """record an obligation; a worse state wins"""
        rank = {'ok': 0, 'undecided': 1, 'violated': 2}
        if name not in self.obl or rank[state] > rank[self.obl[name]]:
            self.obl[name] = state

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 12 and s not in self.samples:
            self.samples.append(s)

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)


def known(prop):
    """lines `finding: property=P05 | <violation key> | <what fails>`"""
    out = {}
    p = os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('finding: '):
                f = [x.strip() for x in line[9:].split(' | ', 2)]
                if len(f) == 3 and f[0] == 'property=' + prop:
                    out[f[1]] = f[2]
    return out


def span(sp):
    return '%s:%s' % tuple(sp) if sp else '?'


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    t0 = time.time()
    threading.stack_size(512 * 1024 * 1024)
    sys.setrecursionlimit(200000)
    box = {}

    def go():
        R = Report(prop, tier)
        box['R'] = R
        F = facts.load()
        box['F'] = F
        ai.DEADLINE = time.time() + (500 if tier == 'quick' else 780)
        m = importlib.import_module('checks.' + prop.lower())
        try:
            m.check(F, R)
        except ai.Budget as b:
            R.ob('analysis finished within its budget', 'undecided')
            R.note('the analysis ran out of its budget (%s): what it had not covered is undecided' % (b,))
        except Exception:
            # code of a form the analysis does not know: what it had found stands, the rest is undecided
            R.ob('the analysis can follow the code', 'undecided')
            R.note(traceback.format_exc()[-1500:])
            sys.stderr.write(traceback.format_exc())

    def guarded():
        try:
            go()
        except SystemExit as x:
            box['fatal'] = str(x)
        except BaseException:
            box['fatal'] = traceback.format_exc()
    th = threading.Thread(target=guarded)
    th.start()
    th.join()
    R = box['R']
    if 'fatal' in box:
        sys.stderr.write(box['fatal'] + '\n')
        print('ERROR: check %s failed to run' % prop)
        return 2
    kf = known(prop)
    new = {k: v for k, v in R.viol.items() if k not in kf}
    for k in R.viol:
        R.ob('no violation: ' + k, 'violated')
        if k in kf:
            print('KNOWN-FINDING: property=%s %s %s' % (prop, k, kf[k] or R.viol[k][0]))
    cov = {
        'explanation': R.rule,
        'obligations': len(R.obl),
        'discharged': sum(1 for v in R.obl.values() if v == 'ok'),
        'undecided': sorted(k for k, v in R.obl.items() if v == 'undecided'),
        'functions_analysed': len(R.functions),
        'functions': sorted(R.functions)[:60],
        'counts': R.counts,
        'samples': R.samples,
        'obligation_list': sorted('%s: %s' % (k, v) for k, v in R.obl.items())[:200],
        'notes': R.notes,
        'source_digest': box['F'].digest,
    }
    ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick',
          'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov,
          'assumptions': R.assume, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    if '--no-evidence' not in argv:
        with open(os.path.join(V, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
    for k, v in sorted(R.obl.items()):
        if v == 'undecided':
            print('note: undecided: %s' % k)
    if not new:
        print('%s: held (%d obligations, %d discharged, %.1f s)' % (prop, cov['obligations'], cov['discharged'], time.time() - t0))
        return 0
    d = os.path.join(V, '.build', 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, prop + '.txt')
    with open(p, 'w') as f:
        for k, (msg, where, path) in sorted(new.items()):
            f.write('%s\n  %s\n  at %s\n' % (k, msg, where))
            for x in path:
                f.write('    %s\n' % (x,))
    for k, (msg, where, path) in sorted(new.items()):
        print('%s: %s (%s) [%s]' % (prop, msg, where, k))
    print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(p, V)))
    return 1
