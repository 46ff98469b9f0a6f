#!/bin/bash
# tests with the bug applied to /repo itself, undone afterwards
for ID in "$@"; do
git -C /repo apply /verif/seeded/$ID/patch.diff || continue
bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh /tmp/pt.json >/dev/null 2>&1
git -C /repo checkout -- .
python3 - $ID <<'P'
import json,sys
o=json.load(open('/tmp/pt.json'));b=json.load(open('/opt/vp/BASELINE.json'))['stable']
print(sys.argv[1],'stable missing:',set(b)-set(o['passed']))
P
done
