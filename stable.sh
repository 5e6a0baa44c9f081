#!/bin/bash
# developer helper: run /repo's stable tests
bash /opt/vp/test.sh /tmp/out.json >/dev/null 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
p=set(o['passed']); m=[x for x in b['stable'] if x not in p]
print('stable',len(b['stable']),'missing',m[:10])
P
