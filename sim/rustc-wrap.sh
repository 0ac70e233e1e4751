#!/bin/bash
# Puts a simulator call at every basic block of the crates under test (and of
# the scenarios that instantiate their generics); everything else is untouched.
rustc=$1; shift
name=
prev=
for a in "$@"; do
  [ "$prev" = --crate-name ] && name=$a
  prev=$a
done
case "$name" in
  bongo|im|simrun)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
      -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores ;;
esac
exec "$rustc" "$@"
