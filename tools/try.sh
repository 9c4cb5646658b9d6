#!/bin/bash
# try.sh ID...: runs the check of each planted bug's property on a scratch copy with the bug applied
for id in "$@"; do
d=/verif/seeded/$id
git -C /tmp/sw checkout -q -- . ; git -C /tmp/sw apply "$d/patch.diff" || continue
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
VERIF_REPO=/tmp/sw python3 /verif/tools/check.py $p > /tmp/try.$id.log 2>&1; echo "$id $p exit $? : $(grep -E 'OBLIGATION|undecided:' /tmp/try.$id.log | cut -c1-150 | head -2 | tr '\n' '|') $(grep VIOLATION /tmp/try.$id.log)"
git -C /tmp/sw checkout -q -- .
done
