#!/bin/bash
# seed.sh ID...: confirm planted bugs in a scratch copy of /repo: the patch applies, builds, passes the tests,
# the demo passes without it and fails with it; then which checks report it
V="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
S=/tmp/seedcopy
. /opt/vp/env.sh
export CARGO_TARGET_DIR=$S/repo/target CARGO_RESOLVER_LOCKFILE_PATH=$S/repo/target/vp-lock/Cargo.lock
if [ ! -d $S/repo ]; then mkdir -p $S; cp -a /repo $S/repo; fi
for id in "$@"; do
  D=$V/seeded/$id
  git -C $S/repo checkout -q -- . ; git -C $S/repo fetch -q /repo HEAD && git -C $S/repo reset -q --hard FETCH_HEAD
  (cd $S/repo && cargo build --workspace --offline -q 2>/dev/null)
  T=$(mktemp -d /tmp/seeddemo.XXXXXX); cp -a $D/. $T/; /bin/rm -f $T/patch.diff $T/meta.json
  (cd $S/repo && RSH_BIN= timeout 300 bash $T/demo.sh >/tmp/seed.out 2>&1); a=$?
  if ! git -C $S/repo apply $D/patch.diff; then echo "$id: patch does not apply"; continue; fi
  (cd $S/repo && cargo build --workspace --offline -q 2>/tmp/seed.build) || { echo "$id: does not build"; grep -m3 error /tmp/seed.build; continue; }
  t=$(cd $S/repo && cargo test --workspace --offline -- --test-threads 8 2>/dev/null </dev/null | grep -c '\.\.\. ok')
  (cd $S/repo && timeout 300 bash $T/demo.sh >/tmp/seed.out2 2>&1); b=$?
  export RSH_REPO=$S/repo; $V/bin/facts.sh >/dev/null 2>&1
  c=$(ls $V/lib/checks/p*.py | sed 's/.*p\([0-9]*\).py/P\1/' | xargs -P 7 -I{} sh -c "$V/bin/check {} --no-evidence >/tmp/seed.{} 2>&1; r=\$?; [ \$r = 0 ] || echo \" {}(\$r)\"" | sort | tr '\n' ' ')
  unset RSH_REPO
  echo "$id: demo unchanged=$a patched=$b tests=$t prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])") caught:$c"
  [ $a = 0 ] || tail -3 /tmp/seed.out
  git -C $S/repo checkout -q -- .
  /bin/rm -rf "$T"
done
