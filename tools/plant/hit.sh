#!/bin/bash
# hit.sh id...: runs the check of the property of each planted bug against it
for id in "$@"; do
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$id/patch.diff || continue
s=$(date +%s); (cd /verif && ./check.sh $p quick > /tmp/plant/hit.log 2>&1); rc=$?
git -C /repo checkout -q -- .
echo "$id [$p]: rc $rc, $(($(date +%s)-s)) s: $(grep -A1 VIOLATION /tmp/plant/hit.log | tail -1 | cut -c1-160)"
done
