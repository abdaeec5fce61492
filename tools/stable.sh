#!/bin/bash
# builds /repo and compares its tests with the stable list
cd /repo && bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
m=set(b['stable'])-set(t['passed']); print(len(b['stable']),'stable; not passing:',sorted(m))
P
