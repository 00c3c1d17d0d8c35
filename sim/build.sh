#!/bin/bash
# Builds the simulator from /repo's working tree. Usage: build.sh [TARGET_DIR]
set -e
export HOME=/root PATH=/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=
cd "$(dirname "$0")"
export CARGO_TARGET_DIR="${1:-/verif/.build/target}"
export RUSTC="$PWD/rustc.sh"
L="$CARGO_TARGET_DIR.log"
cargo build --offline --target x86_64-unknown-linux-gnu -q >"$L" 2>&1 || { cat "$L"; exit 1; }
