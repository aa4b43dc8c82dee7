#!/bin/bash
# Each property's first RUNS runs twice, in separate processes; the per-run
# digests of the whole event log must be identical.
cd "$(dirname "$0")/.." || exit 2
RUNS="${1:-500}"; D=$(mktemp -d)
bash check.sh build || exit 2
rc=0
for p in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14; do
  for seed in 1 2 3; do
    target/debug/fxdsim digest $p --seed $seed --runs "$RUNS" >"$D/a" &
    # the second time in two halves, so that process history differs
    { target/debug/fxdsim digest $p --seed $seed --runs $((RUNS/2)); target/debug/fxdsim digest $p --seed $seed --from $((RUNS/2)) --runs $((RUNS-RUNS/2)); } >"$D/b" &
    wait
    if cmp -s "$D/a" "$D/b"; then echo "$p seed $seed: $(wc -l <"$D/a") runs identical"; else echo "$p seed $seed: DIFFERENT"; diff "$D/a" "$D/b" | head -4; rc=1; fi
  done
done
rm -rf "$D"
exit $rc
