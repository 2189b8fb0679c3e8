#!/bin/bash
# usage: facts.sh SRC_REPO OUT.json    -- extract MIR facts of the rsh crate at SRC_REPO
set -u
V="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
REPO="$1"; OUT="$2"
export HOME="${HOME:-/root}"
export PATH="$HOME/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
SYS="$(rustc --print sysroot)"
B="$V/.build"; mkdir -p "$B/lock"
exec 9>"$B/lock/extract.lock"; flock 9
if [ ! -x "$B/extractor/debug/mirfacts" ] || [ "$V/extractor/src/main.rs" -nt "$B/extractor/debug/mirfacts" ]; then
  ( cd "$V/extractor" && CARGO_TARGET_DIR="$B/extractor" cargo build --offline ) >"$B/extractor-build.log" 2>&1 || { tail -20 "$B/extractor-build.log" >&2; exit 3; }
fi
LOCK=/opt/vp/Cargo.lock; [ -f "$LOCK" ] || LOCK="$V/extractor/rsh.Cargo.lock"
cmp -s "$LOCK" "$B/lock/Cargo.lock" || cp -f "$LOCK" "$B/lock/Cargo.lock"
export CARGO_RESOLVER_LOCKFILE_PATH="$B/lock/Cargo.lock"
export CARGO_TARGET_DIR="$B/target"
export LD_LIBRARY_PATH="$SYS/lib"
export RUSTC_WORKSPACE_WRAPPER="$B/extractor/debug/mirfacts"
export MIRFACTS_CRATE=rsh MIRFACTS_OUT="$OUT.tmp"
/bin/rm -f "$OUT.tmp"
# force the wrapper to see the crate itself again (cargo's freshness is not keyed on us)
find "$B/target/debug" -path '*/rsh*' -name '*bin-rsh*' -path '*fingerprint*' -delete 2>/dev/null
cargo check --manifest-path "$REPO/Cargo.toml" --bin rsh --offline --profile dev >"$B/extract.log" 2>&1
rc=$?
if [ ! -s "$OUT.tmp" ]; then tail -30 "$B/extract.log" >&2; exit 4; fi
GR=$(find "$B/target/debug/build" -path '*/rsh*' -name grammar.rs -printf '%T@ %p\n' 2>/dev/null | sort -rn | head -1 | cut -d' ' -f2-)
[ -n "$GR" ] && cp "$GR" "$OUT.grammar.rs"
mv "$OUT.tmp" "$OUT"
exit 0
