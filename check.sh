#!/bin/bash
# check.sh ID: builds the simulator from /repo's working tree and explores property ID.
# Exit 0: held on everything explored; 1: VIOLATION line; anything else: no verdict (build or harness error).
V="$(cd "$(dirname "$0")" && pwd)"
ID="$1"; shift
"$V/setup.sh" >&2 || { echo "no verdict: the simulator did not build" ; exit 3; }
T="$(mktemp -d /tmp/sim-check.XXXXXX)"
trap 'rm -rf "$T"' EXIT
"$V/.build/target/x86_64-unknown-linux-gnu/debug/sim" check "$ID" --evidence "$V/evidence/$ID.json" --replays "$V/replays" --known "$V/known-findings.txt" --tmp "$T" "$@"
