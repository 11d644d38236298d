#!/bin/bash
# try.sh id...: builds, tests and demonstrates with and without the change
cd /tmp/plant/repo || exit 1
sed 's#^REPO=/repo#REPO=/tmp/plant/repo#' /opt/vp/build.sh > /tmp/plant/build.sh
sed 's#/repo/_build#/tmp/plant/repo/_build#; s#/opt/vp/build.sh#/tmp/plant/build.sh#' /opt/vp/test.sh > /tmp/plant/test.sh
for id in "$@"; do
git checkout -q -- .
bash /tmp/plant/build.sh core > /tmp/plant/b.log 2>&1 || { echo "$id clean build failed"; tail -3 /tmp/plant/b.log; }
timeout 300 bash /verif/seeded/$id/demo.sh > /tmp/plant/d0.log 2>&1; c=$?
git apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
bash /tmp/plant/build.sh > /tmp/plant/b.log 2>&1 || { echo "$id patched build failed"; tail -3 /tmp/plant/b.log; }
bash /tmp/plant/test.sh /tmp/plant/t.json > /tmp/plant/t.log 2>&1
n=$(python3 -c "import json;d=json.load(open('/tmp/plant/t.json'));b=json.load(open('/opt/vp/BASELINE.json'))['stable'];print(sum(x in d['passed'] for x in b),'/',len(b))")
timeout 300 bash /verif/seeded/$id/demo.sh > /tmp/plant/d1.log 2>&1; p=$?
git checkout -q -- .
echo "$id: clean demo $c, patched demo $p, tests $n"
[ $c = 0 ] || tail -4 /tmp/plant/d0.log
tail -1 /tmp/plant/d1.log
done
