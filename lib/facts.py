"""Load the MIR facts of /repo (extracting them again whenever a source changed)."""
import fcntl
import hashlib
import json
import os
import re
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RSH_REPO', '/repo')


def src_files(repo):
    out = []
    for base, dirs, files in os.walk(os.path.join(repo, 'src')):
        dirs.sort()
        out += [os.path.join(base, f) for f in sorted(files)]
    for f in ('Cargo.toml', 'build.rs', 'Cargo.lock', 'rust-toolchain', 'rust-toolchain.toml'):
        p = os.path.join(repo, f)
        if os.path.exists(p):
            out.append(p)
    return out


def digest(repo):
    h = hashlib.sha256()
    for p in src_files(repo) + [os.path.join(V, 'extractor', 'src', 'main.rs'), os.path.join(V, 'bin', 'facts.sh')]:
        h.update(os.path.relpath(p, repo).encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def norm(p):
    if p is None:
        return None
    p = re.sub(r'(?<![\w:])(?:\w+::)*?grammar::(?:core|alloc|std)::', 'std::', p)
    p = re.sub(r'(?<![\w:])(?:core|alloc)::', 'std::', p)
    return p


class Facts:
    def __init__(self, path, repo):
        with open(path) as f:
            d = json.load(f)
        self.repo = repo
        self.fns = d['fns']
        self.adts = d['adts']
        self.statics = d['statics']
        g = path + '.grammar.rs'
        self.grammar = open(g).read() if os.path.exists(g) else ''
        self.digest = os.path.basename(path)[:-5]
        self.local = {k: f for k, f in self.fns.items() if f['local']}
        self._prep()

    def _prep(self):
        n = 0
        self.callees = {}     # key -> set of (normalised res, inst or xinst or None)
        for k, f in self.fns.items():
            cs = set()
            for b in f['blocks']:
                for s in b['s']:
                    if s[0] == '=':
                        self._fnrefs(s[2], cs)
                t = b['t']
                if t['k'] == 'call':
                    c = t['f'].get('k')
                    if isinstance(c, dict) and 'fn' in c:
                        self._fnrefs(t['a'], cs)
                        cs.add((norm(c.get('res') or c['fn']), c.get('inst') or c.get('xinst')))
                        cs.add((norm(c['fn']), c.get('inst') or c.get('xinst')))
                    n += 1
                elif t['k'] == 'drop':
                    pass
            self.callees[k] = cs
        self._reach = {}

    def _fnrefs(self, x, cs):
        if isinstance(x, dict):
            if 'fn' in x and isinstance(x['fn'], str):
                cs.add((norm(x.get('res') or x['fn']), x.get('inst') or x.get('xinst')))
                cs.add((norm(x['fn']), x.get('inst') or x.get('xinst')))
            for v in x.values():
                self._fnrefs(v, cs)
        elif isinstance(x, list):
            if len(x) >= 3 and x[0] == 'agg' and x[1] == 'closure':
                cs.add((norm(x[2]), x[2]))
            for v in x:
                self._fnrefs(v, cs)

    def reach(self, key):
        """all normalised callee names transitively reachable from fn `key` (names and body keys)"""
        r = self._reach.get(key)
        if r is not None:
            return r
        names, keys, todo = set(), set(), [key]
        while todo:
            k = todo.pop()
            if k in keys:
                continue
            keys.add(k)
            for (nm, inst) in self.callees.get(k, ()):
                names.add(nm)
                if inst and inst in self.fns:
                    todo.append(inst)
        r = (names, keys)
        self._reach[key] = r
        return r

    def adt(self, ty):
        a = self.adts.get(ty)
        return a

    def find(self, pred):
        return [k for k, f in self.local.items() if pred(k, f)]


def load(repo=None):
    repo = repo or REPO
    h = digest(repo)
    d = os.path.join(V, '.build', 'facts')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, h + '.json')
    with open(os.path.join(d, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(p):
            r = subprocess.run([os.path.join(V, 'bin', 'facts.sh'), repo, p], stderr=subprocess.PIPE, text=True)
            if r.returncode != 0 or not os.path.exists(p):
                sys.stderr.write(r.stderr)
                raise SystemExit('fact extraction failed (does the crate compile?)')
            old = sorted((os.path.join(d, x) for x in os.listdir(d) if x.endswith('.json')), key=os.path.getmtime)
            for x in old[:-6]:
                os.unlink(x)
                if os.path.exists(x + '.grammar.rs'):
                    os.unlink(x + '.grammar.rs')
    return Facts(p, repo)
