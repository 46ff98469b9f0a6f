#!/bin/bash
# plant.sh ID : verify seeded bug in a scratch copy and run its check
ID=$1; D=/verif/seeded/$ID; S=/tmp/pl_$ID
rm -rf /tmp/pl_$ID; cp -a /repo $S; cd $S
bash $D/demo.sh >/tmp/pl_$ID.clean 2>&1 || { echo "$ID: demo fails on clean"; tail -3 /tmp/pl_$ID.clean; }
git apply $D/patch.diff || { echo "$ID: does not apply"; rm -rf /tmp/pl_$ID; exit 1; }
bash $D/demo.sh >/tmp/pl_$ID.bug 2>&1 && echo "$ID: demo passes with bug"
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /verif; VERIF_REPO=$S timeout 900 ./check.py $P > /tmp/pl_$ID.out 2>&1; echo "$ID: $P exit $? $(grep -h VIOLATION /tmp/pl_$ID.out)"
rm -rf /tmp/pl_$ID
