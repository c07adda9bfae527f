#!/bin/bash
# usage: seedcheck.sh all|own [seed...]: applies each planted change to /repo, runs the check of its property
# (or every check), undoes it, and prints what was reported.
mode=$1; shift
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
cd /verif/seeded || exit 2
[ $# -gt 0 ] || set -- */
trap 'git -C /repo checkout -q -- .' EXIT
for s in "$@"; do
  s=${s%/}; p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$s/patch.diff" || { echo "$s does not apply"; continue; }
  if [ "$mode" = all ]; then ids=$(seq -f 'C%02g' 1 24); else ids=$p; fi
  hit=
  for c in $ids; do
    t=$SECONDS
    out=$(VERIF_SEED=1 VERIF_TIER=${VERIF_TIER:-quick} timeout 900 bash /verif/check.sh "$c" 2>&1); rc=$?
    if [ $rc = 1 ] && grep -q "VIOLATION property=$c " <<< "$out"; then hit="$hit $c"; [ "$mode" = all ] || msg=$(grep -v '^ *$' <<< "$out" | head -2 | cut -c1-200)
    elif [ $rc != 0 ]; then hit="$hit $c:rc=$rc"; msg=$(tail -3 <<< "$out"); fi
  done
  git -C /repo checkout -q -- .
  echo "$s property=$p caught by:${hit:- NONE} ($((SECONDS-t)) s)"; [ "$mode" = all ] || echo "     $msg"; msg=
done
