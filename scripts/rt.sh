#!/bin/bash
# build /repo and run its tests; print stable tests that do not pass
bash /opt/vp/build.sh >/tmp/rt.build 2>&1 || { echo BUILD FAILED; tail -20 /tmp/rt.build; exit 1; }
bash /opt/vp/test.sh /tmp/rt.json >/tmp/rt.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; p=set(json.load(open('/tmp/rt.json'))['passed'])
m=[x for x in b if x not in p]
print("missing:",m) if m else print("tests ok",len(p))
P
