#!/bin/bash
# seed.sh ID: confirm the planted bug seeded/ID in a scratch copy (/tmp/wt): applies, builds, stable tests pass, demo 0 without / nonzero with.
id=$1; S=/verif/seeded/$id; W=/tmp/wt
cd $W && git checkout -q -- . 
[ "$(git rev-parse HEAD)" = "$(git -C /repo rev-parse HEAD)" ] || { git fetch -q /repo && git reset -q --hard FETCH_HEAD; }
bash /tmp/wt_build.sh >/tmp/seed.log 2>&1 || { echo "$id: base build fails"; exit 1; }
mkdir -p /tmp/seeddemo && cp -a $S/. /tmp/seeddemo/ && sed -i 's#/repo#/tmp/wt#g' /tmp/seeddemo/demo.sh
bash /tmp/seeddemo/demo.sh >/tmp/seed.base 2>&1; b=$?
git apply $S/patch.diff || { echo "$id: patch does not apply"; exit 1; }
bash /tmp/wt_test.sh /tmp/seed.json >>/tmp/seed.log 2>&1 || { echo "$id: build or tests fail"; git checkout -q -- .; exit 1; }
bash /tmp/seeddemo/demo.sh >/tmp/seed.bug 2>&1; g=$?
miss=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/seed.json'));m=set(b['stable'])-set(o['passed']);print(len(m),sorted(m)[:4])")
git checkout -q -- .; rm -rf /tmp/seeddemo
echo "$id: demo base=$b bug=$g stable tests lost: $miss"; tail -2 /tmp/seed.bug
