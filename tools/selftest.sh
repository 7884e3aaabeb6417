#!/bin/bash
# Determinism of the simulator: for every scenario and each build, some runs executed in one
# process and in order, in another process and in a different order and grouping, and replayed from
# their tapes, must give the same event-log hashes. Exit 0 if they all do.
cd "$(dirname "$0")/.." || exit 2
bash ./build.sh || exit 2
n=${1:-200}
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
bad=0
for bin in release debug stepped/release; do
  b=target/$bin/yason-sim
  for i in 01 02 03 04 05 06 07 08 09 10 11 12 13 14 15 16 17 18 19; do
    [ $i$bin = 07debug ] && continue
    [ $bin = stepped/release ] && [ $i != 13 ] && [ $i != 18 ] && continue
    [ $bin != stepped/release ] && [ $i = 18 ] && continue
    k=$n; [ $i = 15 ] && k=40
    $b hashes --scen C$i --seed 7 --from 0 --until $k --twice 1 > "$t/a"
    for s in 0 1 2; do $b hashes --scen C$i --seed 7 --from $s --until $k --step 3 & done > "$t/b"
    wait
    sort "$t/b" > "$t/bs"; grep -v DIFFERS "$t/a" | sort > "$t/as"
    if grep -q DIFFERS "$t/a" || ! cmp -s "$t/as" "$t/bs"; then echo "C$i $bin: NOT DETERMINISTIC"; bad=1; else echo "C$i $bin: $k runs, 3 executions each, same hashes"; fi
  done
done
exit $bad
