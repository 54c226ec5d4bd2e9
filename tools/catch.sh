#!/bin/bash
# Run the check of each planted bug's property against it (in /repo, undone).
# usage: catch.sh [ID ...]
cd /verif || exit 1
for id in "${@:-$(ls seeded)}"; do for i in $id; do
    p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
    git -C /repo apply "/verif/seeded/$i/patch.diff" || { echo "$i: no apply"; continue; }
    python3-vt run.py "$p" quick > /tmp/catch.$i.log 2>&1
    rc=$?
    git -C /repo checkout -q -- .
    echo "$i $p rc=$rc $(grep -m1 VIOLATION /tmp/catch.$i.log)"
done; done
