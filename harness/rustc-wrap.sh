#!/bin/sh
# RUSTC_WRAPPER: adds edge instrumentation to the crate under test, and only to it.
rustc="$1"; shift
prev=""; name=""
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then name="$a"; fi
  prev="$a"
done
if [ "$name" = "cniic" ]; then
  exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard
fi
exec "$rustc" "$@"
