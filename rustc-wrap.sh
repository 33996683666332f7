#!/bin/sh
# RUSTC_WRAPPER of the instrumented flavour: coverage callbacks in the code under test only.
rustc="$1"
shift
prev=
crate=
for a in "$@"; do
    if [ "$prev" = "--crate-name" ]; then
        crate="$a"
        break
    fi
    prev="$a"
done
if [ "$crate" = "rx509" ]; then
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-compares -Cllvm-args=-max-loads-per-memcmp=0 \
        -Ccodegen-units=1
fi
exec "$rustc" "$@"
