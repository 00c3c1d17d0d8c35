#!/bin/bash
inst=0
for a in "$@"; do case "$a" in --error-format=json) inst=$((inst|1));; --target|--target=*) inst=$((inst|2));; esac; done
if [ $inst = 3 ]; then
 export RUSTC_BOOTSTRAP=1
 exec rustc "$@" -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-tsan-instrument-memintrinsics=0
fi
exec rustc "$@"
