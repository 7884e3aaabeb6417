#!/bin/bash
# RUSTC_WRAPPER of the stepped build: coverage callbacks in yason and in the simulator (which holds
# the instances of yason's generic functions), nowhere else.
rustc="$1"; shift
case " $* " in
  *" --crate-name yason "*|*" --crate-name yason_sim "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc -Cllvm-args=-sanitizer-coverage-trace-loads \
      -Cllvm-args=-sanitizer-coverage-trace-stores ;;
esac
exec "$rustc" "$@"
