#!/bin/bash
# catch.sh <seeded id>[:<check>]... : does the check of the bug's property (or the one named) report the planted bug? (by hand; scratch copies of /repo in /tmp/cb)
for a in "$@"; do
    id=${a%%:*}; chk=${a#*:}; [ "$chk" = "$a" ] && chk=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
    T=/tmp/cb/$id; mkdir -p /tmp/cb; rm -rf "$T"; mkdir -p $T; cp -a /repo/include $T/
    (cd $T && patch -s -p1 < /verif/seeded/$id/patch.diff) || { echo "$id: patch does not apply"; continue; }
    s=$(date +%s)
    VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick VERIF_REPO=$T python3 /verif/run.py check $chk > /tmp/cb/$id.$chk.out 2>&1; rc=$?
    echo "$id $chk: rc=$rc $(grep -m1 VIOLATION /tmp/cb/$id.$chk.out | cut -c1-100) $(( $(date +%s) - s )) s"
    rm -rf "$T"
done
