#!/bin/bash
# mkseed.sh ID PROPERTY FILE 'python replace expr' : developer helper. Applies the edit in /repo, stores patch.diff, runs tests, demo and the check, undoes it.
# usage: mkseed.sh ID   (seeded/ID/{edit.py,demo.cpp,meta.json} exist or patch.diff exists)
ID=$1; D=/verif/seeded/$ID
cd /repo || exit 2
git diff --quiet || { echo "repo dirty"; exit 2; }
if [ -f $D/edit.py ]; then python3 $D/edit.py && git diff > $D/patch.diff && rm $D/edit.py; else git apply $D/patch.diff || exit 2; fi
[ -s $D/patch.diff ] || { echo "$ID: no change"; exit 2; }
bash /tmp/tst.sh 2>&1 | sed "s/^/$ID: /"
bash $D/demo.sh > /tmp/demo.out 2>&1; echo "$ID: demo with patch rc=$? ($(tail -1 /tmp/demo.out))"
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /verif; C=$(python3 -c "
import json
m=json.load(open('/verif/MANIFEST.json'))
for c in m['checks']:
    if c.get('property', c.get('id'))=='$P': print(c.get('quick_cmd') or c['quick'])
")
[ -n "$C" ] && { timeout 900 bash -c "$C" > /tmp/chk.out 2>&1; echo "$ID: check $P rc=$? $(grep -a VIOLATION /tmp/chk.out | head -1)"; }
git -C /repo checkout -- .
bash /opt/vp/build.sh > /dev/null 2>&1; cd /repo; bash $D/demo.sh > /tmp/demo.out 2>&1; echo "$ID: demo clean rc=$? ($(tail -1 /tmp/demo.out))"
