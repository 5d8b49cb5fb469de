#!/bin/bash
# run every claimed check on the current tree
tier=${1:-quick}
for id in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']])" 2>/dev/null || ls /verif/checks | sed -n 's/\.cpp//p'); do
	s=$(date +%s); bash /verif/run.sh $id $tier > /tmp/all_$id.log 2>&1; rc=$?
	echo "$id rc=$rc $(($(date +%s)-s))s $(tail -1 /tmp/all_$id.log | cut -c1-150)"
done
