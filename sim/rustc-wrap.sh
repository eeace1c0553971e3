#!/bin/bash
# Compile the code under test (bardecoder, and the crate that instantiates its generic parts) with
# LLVM's sanitizer-coverage callbacks: every basic-block edge, load and store calls into the
# simulator, which makes each of them a scheduling point. Everything else is compiled as usual.
rustc="$1"
shift
name=
prev=
for a in "$@"; do
    [ "$prev" = "--crate-name" ] && name="$a"
    prev="$a"
done
case "$name" in
bardecoder | subject)
    exec "$rustc" "$@" -Cpasses=sancov-module \
        -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
        -Cllvm-args=-sanitizer-coverage-trace-loads \
        -Cllvm-args=-sanitizer-coverage-trace-stores
    ;;
esac
exec "$rustc" "$@"
