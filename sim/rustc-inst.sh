#!/bin/bash
# Compiler wrapper: adds a callback at every basic block, load and store of the code under test.
rustc=$1
shift
name=
prev=
for a in "$@"; do
    [ "$prev" = --crate-name ] && name=$a
    prev=$a
done
case $name in
    tclifford | tcsim | ndarray)
        exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
            -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads \
            -Cllvm-args=-sanitizer-coverage-trace-stores
        ;;
esac
exec "$rustc" "$@"
