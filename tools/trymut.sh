#!/bin/bash
# trymut.sh PATCH|- CHECK...   apply a patch to a scratch copy of /repo and run checks against it
# with SED='file:::old:::new' instead of a patch, edit by literal replacement
set -u
V="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
D=$(mktemp -d /tmp/mut.XXXXXX)
mkdir -p "$D/repo"; cp -a /repo/src /repo/Cargo.toml /repo/build.rs "$D/repo/"; [ -f /repo/Cargo.lock ] && cp /repo/Cargo.lock "$D/repo/"
P="$1"; shift
if [ "$P" != "-" ]; then (cd "$D/repo" && patch -p1 -s < "$P") || { /bin/rm -rf "$D"; exit 9; }; fi
if [ -n "${SED:-}" ]; then python3 - "$D/repo" "$SED" <<'PY' || { /bin/rm -rf "$D"; exit 9; }
import sys
for one in sys.argv[2].split('|||'):
    f,o,n=one.split(':::')
    p=sys.argv[1]+'/src/'+f; s=open(p).read()
    if s.count(o)<1: sys.exit('not found: '+o)
    open(p,'w').write(s.replace(o,n,1))
PY
fi
for c in "$@"; do RSH_REPO="$D/repo" "$V/bin/check" $c --no-evidence 2>&1 | tail -${TAIL:-6}; done
/bin/rm -rf "$D"
