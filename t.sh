#!/bin/bash
# rebuild /repo and compare its tests with the baseline
bash /opt/vp/test.sh /tmp/o.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
a=json.load(open('/tmp/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print('missing:',sorted(set(b['stable'])-set(a['passed'])),'passed',len(a['passed']))
P
