#!/bin/bash
# Compares the hashes of the same runs executed by 8, 3 and 1 worker processes and one process per run:
# determinism.sh [RUNS] [SEED]. Prints a line for every property and profile.
n=${1:-1000} seed=${2:-7}
cd "$(dirname "$0")/../sim" || exit 1
tmp=$(mktemp -d) || exit 1
trap 'rm -rf -- "$tmp"' EXIT
for b in src/bin/*.rs; do for id in $(grep -o 'id: "C[0-9]*"' "$b" | cut -d'"' -f2); do for p in release checked weak; do
  B=target/x86_64-unknown-linux-gnu/$p/$(basename "$b" .rs)
  [ $p = weak ] && [[ $id != C02 && $id != C04 ]] && continue
  for w in 8 3 1; do $B batch $id --runs $n --secs 60 --hard-secs 200 --workers $w --seed $seed --hashes $n --out "$tmp/$w" > /dev/null; grep '^h ' "$tmp/$w" | cut -c3- | sort -n > "$tmp/h$w"; done
  $B hashes $id --seed $seed --to $n | sort -n > "$tmp/h0"
  echo "$id $p runs $(wc -l < "$tmp/h0") distinct $(cut -d' ' -f2 "$tmp/h0" | sort -u | wc -l) differing: 3 workers $(diff "$tmp/h8" "$tmp/h3" | grep -c '^<'), 1 worker $(diff "$tmp/h8" "$tmp/h1" | grep -c '^<'), own process $(diff "$tmp/h8" "$tmp/h0" | grep -c '^<')"
done; done; done
