#!/bin/bash
# RUSTC_WRAPPER: the library under test and the checker are compiled with ThreadSanitizer's instrumentation of
# atomic operations (only those), whose runtime is mc/atoms: every atomic operation is a scheduling point of C11.
rustc=$1; shift
name=
prev=
for a in "$@"; do
  [ "$prev" = --crate-name ] && name=$a
  prev=$a
done
case $name in
  groth_sahai|gsmc)
    export RUSTC_BOOTSTRAP=1
    exec "$rustc" "$@" -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer \
      -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-tsan-instrument-memintrinsics=0 ;;
esac
exec "$rustc" "$@"
