#!/bin/bash
# try_bugs.sh [ID...] : applies each planted bug to /repo in turn, runs its property's quick check, undoes it.
cd /verif
for id in ${@:-$(ls seeded)}; do
    p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
    git -C /repo apply "/verif/seeded/$id/patch.diff" || continue
    python3 check.py $p --tier quick > /tmp/try.$id.log 2>&1; rc=$?
    git -C /repo checkout -q -- .
    echo "$id $p rc=$rc $(grep -m1 VIOLATION /tmp/try.$id.log | cut -c1-150)"
done
