#!/bin/sh
# RUSTC_WRAPPER of the fully counted flavour: coverage callbacks in the code under test and in
# core and alloc, so that the loops inside the standard library count as steps too.
rustc="$1"
shift
prev=
crate=
for a in "$@"; do
    if [ "$prev" = "--crate-name" ]; then
        crate="$a"
        break
    fi
    prev="$a"
done
case "$crate" in
core | alloc | rx509)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Ccodegen-units=1
    ;;
esac
exec "$rustc" "$@"
