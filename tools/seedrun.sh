#!/bin/bash
# seedrun.sh [ID...]: run the check of each planted bug's property against a scratch copy of /repo with that bug applied;
# what happened is kept in tools/seed_results.txt (id, property, exit status, harness that reported it)
cd "$(dirname "$0")/.."
[ $# -gt 0 ] || set -- $(ls seeded)
for id in "$@"; do
    w=$(mktemp -d /tmp/sr.XXXXXX)
    git clone -q /repo "$w/repo"
    if ! git -C "$w/repo" apply "$PWD/seeded/$id/patch.diff"; then echo "$id DOES-NOT-APPLY"; rm -rf "$w"; continue; fi
    p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "seeded/$id/meta.json")
    s=$(date +%s)
    SYMX_REPO="$w/repo" PYTHONPATH="$w/repo" VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check "$p" quick >"$w/out" 2>&1
    rc=$?
    v=$(grep -m1 '^VIOLATION' "$w/out")
    echo "$id $p rc=$rc $(( $(date +%s) - s ))s $v"
    touch tools/seed_results.txt
    hs=$(grep -o '^VIOLATION.*replay=.*' "$w/out" | sed "s/.*${p}_//; s/\.json//" | sort -u | tr '\n' ' ')
    { grep -v "^$id " tools/seed_results.txt; echo "$id $p $rc $hs"; } | sed 's/ *$//' | sort > "$w/res"; cp "$w/res" tools/seed_results.txt
    [ $rc = 1 ] || { mkdir -p /tmp/srout; cp "$w/out" "/tmp/srout/$id"; }
    rm -rf "$w"
done
