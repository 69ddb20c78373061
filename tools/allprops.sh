#!/bin/bash
# run every check at tier $2 (default quick) against the repository copy $1
T=${2:-quick}
cd "$(dirname "$0")/.."
for p in $(seq -f C%02g 1 18); do
  o=$(VERIF_REPO=$1 python3-vt check.py --property $p --tier $T 2>&1); rc=$?
  if [ $rc != 0 ] || echo "$o" | grep -q undecided; then echo "$p rc=$rc"; echo "$o" | cut -c1-260 | head -${3:-6}; fi
done
