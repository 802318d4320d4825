#!/bin/bash
# RUSTC_WRAPPER: instruments the crate under test (and nothing else) with one
# callback per basic block, load and store. All other crates are compiled as they are.
rustc=$1; shift
case " $* " in
*" --crate-name scilla_parser "*)
  exec "$rustc" "$@" -Cpasses=sancov-module \
    -Cllvm-args=-sanitizer-coverage-level=3 \
    -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
    -Cllvm-args=-sanitizer-coverage-trace-loads \
    -Cllvm-args=-sanitizer-coverage-trace-stores
  ;;
esac
exec "$rustc" "$@"
