#!/bin/bash
# build.sh [PROPERTY]: builds the simulator from /repo's current tree, in the profiles the property
# needs (none given: all). Output stays in /verif/target (ignored by git).
cd "$(dirname "$0")/sim" || exit 2
export CARGO_NET_OFFLINE=true
T="$PWD/../target"
# there before the builds start: they would make it by renaming, and two of them get in each other's way
mkdir -p "$T/stepped" || exit 2
log=$(mktemp -d)
trap 'rm -rf "$log"' EXIT
cargo build --offline --locked --target-dir "$T" >"$log/checked" 2>&1 & a=$!
cargo build --offline --locked --release --target-dir "$T" >"$log/shipped" 2>&1 & b=$!
c=
case "${1:-all}" in C13|C18|all)
  RUSTC_WRAPPER="$PWD/rustc-stepped.sh" cargo build --offline --locked --release --features stepped \
    --target-dir "$T/stepped" >"$log/stepped" 2>&1 & c=$! ;;
esac
bad=0
for p in $a $b $c; do wait "$p" || bad=1; done
if [ $bad -ne 0 ]; then
  grep -hE '^error' -A12 "$log"/* >&2
  echo "harness error: build failed" >&2
  exit 2
fi
