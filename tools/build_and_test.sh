#!/bin/bash
# rebuild /repo and run its stable tests (developer helper)
bash /opt/vp/build.sh >/tmp/vb.log 2>&1 || { tail -20 /tmp/vb.log; exit 1; }
bash /opt/vp/test.sh /tmp/vt.json >/tmp/vt.log 2>&1
python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/vt.json'))
print('missing stable:',[t for t in b['stable'] if t not in set(r['passed'])])
PY
