#!/bin/bash
# build, run the repository's tests and compare with the baseline
bash /opt/vp/build.sh 2>&1 | grep -E "warning:|error:" | head -20
bash /opt/vp/test.sh /tmp/out.json >/tmp/out.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
bp=set(b['stable']); op=set(o['passed'])
print('baseline',len(bp),'passed',len(op),'missing',bp-op,'extra',op-bp)
P
