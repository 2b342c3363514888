#!/bin/bash
# Adds a (possible) scheduling point to every basic-block edge of the crates whose interleavings matter.
rustc=$1; shift
case " $* " in
*" --crate-name tower_lsp "*|*" --crate-name tlthreads "*|*" --crate-name futures_channel "*|*" --crate-name futures_util "*|*" --crate-name futures_core "*|*" --crate-name dashmap "*)
    exec "$rustc" "$@" -Copt-level=0 -Cdebug-assertions=on -Coverflow-checks=on \
        -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-pc-table ;;
esac
exec "$rustc" "$@"
