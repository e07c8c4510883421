#!/usr/bin/env python3
"""fixed.py ID PROP COMMIT TEXT SHORT: records a repaired defect."""
import json,sys
p='/verif/known-findings.json'; l=json.load(open(p))
i,prop,c,t,w=sys.argv[1:6]
l=[e for e in l if e['id']!=i]
l.append({"id":i,"property":prop,"status":"fixed","commit":c,"record":f"fixed: property={prop} {c} {t}","what":w})
json.dump(l,open(p,'w'),indent=1); open(p,'a').write('\n')
