#!/bin/bash
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
bash ./build.sh "$1" || exit 2
exec ./target/release/yason-sim check --prop "$1" --tier "${2:-quick}" --root "$PWD" \
  --checked "$PWD/target/debug/yason-sim" --stepped "$PWD/target/stepped/release/yason-sim"
