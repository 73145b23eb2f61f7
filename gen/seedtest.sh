#!/bin/bash
# seedtest.sh ID...: try planted bugs against /repo: demo on the clean tree, demo with the bug, the property's check with the bug
# (SKIPDEMO=1: only the check). Leaves /repo as it was.
R="${VERIF_REPO:-/repo}"
B="${BUILD:-/opt/vp/build.sh}"
V="$(cd "$(dirname "$0")/.." && pwd)"
[ -z "$(git -C "$R" status --porcelain --untracked-files=no)" ] || { echo "$R not clean"; exit 2; }
for id in "$@"; do
    d="$V/seeded/$id"
    p=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$d/meta.json")
    c0=-; c1=-
    if [ -z "$SKIPDEMO" ]; then
        (cd "$R" && timeout 300 bash "$d/demo.sh" > /tmp/seed.$id.clean 2>&1); c0=$?
    fi
    git -C "$R" apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
    if [ -z "$SKIPDEMO" ]; then
        bash "$B" > /tmp/seed.$id.build 2>&1 || echo "$id: BUILD FAILED"
        (cd "$R" && timeout 300 bash "$d/demo.sh" > /tmp/seed.$id.bug 2>&1); c1=$?
    fi
    (cd "$V" && python3 checks/$p.py > /tmp/seed.$id.check 2>&1); k=$?
    git -C "$R" checkout -- .
    echo "$id: property=$p demo clean=$c0 bug=$c1 check=$k $([ $k = 1 ] && echo CAUGHT || echo MISSED)"
    grep -m2 "^  \[" /tmp/seed.$id.check
done
[ -z "$SKIPDEMO" ] && bash "$B" > /dev/null 2>&1
exit 0
