#!/bin/bash
# summarise the violations in a check's output: one line per key with the modes it fails in
grep -E '^  [a-z0-9_]+\|' "$1" | sed -E 's/^  [a-z0-9_]+\|//' | python3 -c "
import sys,re
d={}
for l in sys.stdin:
    m=re.match(r'([^:]+):(\w+): (.*)',l)
    if not m: print(l[:200].rstrip()); continue
    k=m.group(1); d.setdefault(k,[{},'']); d[k][0][m.group(2)]=1; t=m.group(3); d[k][1]=t[:60]+' ... '+t[t.rfind('('):][:90]
for k in d: print(k,','.join(x.replace('simulate_inaccurate','fast').replace('simulate','sim') for x in d[k][0]),'|',d[k][1])
"
