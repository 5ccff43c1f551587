#!/bin/bash
# developer helper: run /repo's stable tests and compare with the baseline
bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);t=json.load(open('/tmp/t.json'))
print(len(b-set(t['passed'])),'stable tests not passed', sorted(b-set(t['passed']))[:5])
P
