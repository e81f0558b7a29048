#!/bin/bash
# RUSTC_WRAPPER: instruments only the code under test (yason) and the crate in which its generic
# functions are instantiated (yvh) with LLVM sanitizer coverage; everything else is left alone.
rustc="$1"; shift
case " $* " in
  *" --crate-name yason "* | *" --crate-name yvh "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-trace-compares ;;
esac
exec "$rustc" "$@"
