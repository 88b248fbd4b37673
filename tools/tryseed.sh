#!/bin/bash
# tryseed.sh ID...: stable tests, demo on/off, and the property's check for each planted bug.
for id in "$@"; do
d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; git checkout -q -- .
bash $d/demo.sh >/tmp/d0 2>&1; r0=$?
git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
bash /opt/vp/build.sh >/tmp/b 2>&1; rb=$?
bash /opt/vp/test.sh /tmp/t.json >/tmp/tt 2>&1; rt=$?
np=$(grep -c "\.\.\. ok" /tmp/tt)
bash $d/demo.sh >/tmp/d1 2>&1; r1=$?
(cd /verif && ./run.sh $p quick) >/tmp/c1 2>&1; rc=$?
git checkout -q -- .
echo "$id prop=$p demo_clean=$r0 build=$rb tests=$np demo_bug=$r1 check=$rc $(grep -o 'VIOLATION.*' /tmp/c1)"
[ $r1 = 101 -o $r1 = 1 ] || tail -5 /tmp/d1
[ $rc = 1 ] || tail -5 /tmp/c1
done
