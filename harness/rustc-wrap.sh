#!/bin/bash
# RUSTC_WRAPPER: compiles scheduling points into the system under test and gives the simulator the allocation-error hook.
rustc="$1"
shift
crate=
prev=
for a in "$@"; do
    [ "$prev" = --crate-name ] && crate="$a"
    prev="$a"
done
case "$crate" in
bsplines)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads \
        -Cllvm-args=-sanitizer-coverage-trace-stores -Cdebug-assertions=on -Coverflow-checks=on -Awarnings
    ;;
bsim)
    RUSTC_BOOTSTRAP=1 exec "$rustc" "$@"
    ;;
*)
    exec "$rustc" "$@"
    ;;
esac
