#!/bin/bash
# replay.sh FILE: exit 1 if the recorded violation happens again exactly, 0 if it does not happen.
f=$(realpath "$1")
cd "$(dirname "$0")" || exit 2
bash ./build.sh || exit 2
exec ./target/release/yason-sim replay --file "$f" --root "$PWD" \
  --checked "$PWD/target/debug/yason-sim" --stepped "$PWD/target/stepped/release/yason-sim"
