#!/bin/bash
# try.sh ID...: apply planted bug in /repo, run its property's check, undo
for id in "$@"; do
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$id/patch.diff || continue
s=$(date +%s)
(cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check $p quick > /tmp/try-$id.log 2>&1); c=$?
git -C /repo checkout -- .
echo "$id $p exit=$c $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/try-$id.log)"
done
