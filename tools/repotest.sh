#!/bin/bash
# builds /repo, runs its tests and compares with the baseline
bash /opt/vp/build.sh >/tmp/rb.log 2>&1 || { tail -5 /tmp/rb.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/rt.log 2>&1
python3 - <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
ps=set(o['passed']); miss=[t for t in b['stable'] if t not in ps]
print('stable',len(b['stable']),'missing',miss[:8]); sys.exit(bool(miss))
P
