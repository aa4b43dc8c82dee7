#!/bin/bash
# RUSTC_WRAPPER: instruments the library under test and the shim that calls it
# (nothing else) with SanitizerCoverage callbacks on every branch edge, load and
# store. Those callbacks are the simulator's scheduling and crash points.
rustc="$1"; shift
prev=""; name=""
for a in "$@"; do [ "$prev" = "--crate-name" ] && name="$a"; prev="$a"; done
if [ "$name" = fxd ] || [ "$name" = fxdshim ]; then
  exec "$rustc" "$@" -Ccodegen-units=1 -Cpasses=sancov-module \
    -Cllvm-args=-sanitizer-coverage-level=3 \
    -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
    -Cllvm-args=-sanitizer-coverage-trace-loads \
    -Cllvm-args=-sanitizer-coverage-trace-stores
fi
exec "$rustc" "$@"
