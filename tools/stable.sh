#!/bin/bash
cd /
# Runs the repository's tests and compares with the stable list.
bash /opt/vp/test.sh /tmp/stable.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); d=json.load(open('/tmp/stable.json'))
st=set(b.get('stable') or b.get('passed') or [])
ps=set(d.get('passed') or [])
print('stable', len(st), 'missing', sorted(st-ps)[:5])
P
