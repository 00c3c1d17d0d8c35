#!/bin/bash
# Builds the simulator and, through it, /repo's working tree. Cargo decides staleness by time stamps, which a copied
# or patched tree can have in any order, so a content hash of /repo's sources decides whether its crates are rebuilt.
set -e
V="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
B="$V/.build"; mkdir -p "$B"
exec 9>"$B/lock"; flock 9
h="$(cd /repo && find . \( -name target -o -name .git \) -prune -o -type f \( -name '*.rs' -o -name 'Cargo.toml' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)"
s="$(cd "$V/sim" && find . -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)"
BIN="$B/target/x86_64-unknown-linux-gnu/debug/sim"
[ "$(cat "$B/built" 2>/dev/null)" = "$h $s" ] && [ -x "$BIN" ] && exit 0
if [ "$(cut -d' ' -f1 "$B/built" 2>/dev/null)" != "$h" ] && [ -d "$B/target" ]; then
  (cd "$V/sim" && CARGO_TARGET_DIR="$B/target" cargo clean --offline -q -p paladin-core -p paladin-opkind-derive --target x86_64-unknown-linux-gnu;
   CARGO_TARGET_DIR="$B/target" cargo clean --offline -q -p paladin-opkind-derive) || true
fi
if [ "$(cut -d' ' -f2 "$B/built" 2>/dev/null)" != "$s" ] && [ -d "$B/target" ]; then
  (cd "$V/sim" && CARGO_TARGET_DIR="$B/target" cargo clean --offline -q -p paladin-sim --target x86_64-unknown-linux-gnu) || true
fi
rm -f "$B/built"
"$V/sim/build.sh" "$B/target" || exit 1
echo "$h $s" > "$B/built"
