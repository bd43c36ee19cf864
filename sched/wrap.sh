#!/bin/sh
# RUSTC_WRAPPER: instruments the crate under test and the operation alphabet, nothing else:
# edges, loads and stores by SanitizerCoverage, atomic operations by ThreadSanitizer's pass (vrt defines both sets of callbacks)
rustc="$1"; shift
prev=
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then
    case "$a" in
      imgproc_rs|vh)
        exec "$rustc" "$@" "-Cpasses=forceattrs function(tsan) sancov-module" -Cllvm-args=-force-attribute=sanitize_thread -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-tsan-instrument-memintrinsics=0 -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores;;
    esac
  fi
  prev="$a"
done
exec "$rustc" "$@"
