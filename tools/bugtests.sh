#!/bin/bash
# bugtests.sh <seeded id>... : do the repository's own stable tests still pass with the planted bug? (run by hand; scratch in /tmp/bt)
export CMAKE_BUILD_PARALLEL_LEVEL=8
T=/tmp/bt
if [ ! -d $T/repo/.git ]; then git clone -q --shared /repo $T/repo; fi
sed 's#/repo/_build/tests#/tmp/bt/build/tests#' /opt/vp/run_tests.py > $T/run_tests.py
for id in "$@"; do
    git -C $T/repo fetch -q origin && git -C $T/repo checkout -q --detach origin/HEAD && git -C $T/repo checkout -q -- .
    [ -f $T/build/build.ninja ] || cmake -S $T/repo -B $T/build -G Ninja -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DCMAKE_BUILD_TYPE=Debug -DCPPSORT_BUILD_TESTING=ON -DCPPSORT_BUILD_EXAMPLES=OFF >/dev/null || exit 1
    if [ "$id" != none ]; then git -C $T/repo apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; continue; }; fi
    ninja -C $T/build main-tests heap-memory-exhaustion-tests > $T/build.log 2>&1 || { echo "$id: does not build"; git -C $T/repo checkout -q -- .; continue; }
    (cd $T && python3 run_tests.py main-tests heap-memory-exhaustion-tests > $T/res.txt)
    python3 - "$id" <<'P'
import json, sys
st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ok = set(l[5:].strip() for l in open('/tmp/bt/res.txt') if l.startswith('PASS '))
miss = sorted(st - ok)
print(sys.argv[1], ": tests", "PASS" if not miss else "CATCH %d e.g. %s" % (len(miss), miss[:2]), "(%d pass)" % len(st & ok))
P
    git -C $T/repo checkout -q -- .
done
