#!/bin/bash
# builds /repo, runs its tests and compares with the stable list
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { echo BUILD FAILED; tail -20 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 - <<'E'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
m=set(b['stable'])-set(o['passed'])
print('stable',len(b['stable']),'missing',m); sys.exit(bool(m))
E
