#!/bin/bash
# plant.sh <bug-id>: takes the uncommitted change in /repo as bug <bug-id> (its folder
# already holds demo.cpp or demo.sh and meta.json), confirms it and undoes it.
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
[ -f $d/demo.sh ] || cp /verif/tools/demo_template.sh $d/demo.sh; [ -f $d/demo.cpp ] && cp /verif/tools/demo/demo.hpp $d/demo.hpp
git -C /repo diff > $d/patch.diff; [ -s $d/patch.diff ] || git -C /repo apply $d/patch.diff.saved
bash /opt/vp/build.sh > /tmp/w/plant_build.log 2>&1 || { echo "BUG $id: DOES NOT BUILD"; tail -5 /tmp/w/plant_build.log; git -C /repo checkout -- .; exit 1; }
bash /opt/vp/test.sh /tmp/w/plant.json > /dev/null 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/w/plant.json'))
m=[x for x in b['stable'] if x not in o['passed']]
print('BUG $id: stable tests missing:', m)
P
(cd /repo && timeout 300 bash $d/demo.sh > /tmp/w/plant_demo.log 2>&1); echo "BUG $id: demo with patch rc=$? (want nonzero) $(tail -1 /tmp/w/plant_demo.log | cut -c1-200)"
(cd /verif && timeout 900 bash run.sh $prop quick > /tmp/w/plant_check_$id.log 2>&1); echo "BUG $id: check $prop rc=$? $(grep -c ^VIOLATION /tmp/w/plant_check_$id.log) violations; $(grep -A1 ^VIOLATION /tmp/w/plant_check_$id.log | sed -n 2p | cut -c1-200)"
git -C /repo checkout -- .
