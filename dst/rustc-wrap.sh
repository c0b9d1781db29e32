#!/bin/bash
# Used as RUSTC_WRAPPER: rustful and the simulated application get coverage call-backs, which are
# the simulator's preemption points.
rustc="$1"; shift
n=""
prev=""
for a in "$@"; do
  [ "$prev" = --crate-name ] && n="$a"
  prev="$a"
done
case "$n" in
  rustful|simapp)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads \
      -Cllvm-args=-sanitizer-coverage-trace-stores ;;
  *) exec "$rustc" "$@" ;;
esac
