#!/bin/bash
# run stable tests, report regressions
bash /opt/vp/test.sh /tmp/o.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/o.json'))
st=set(b['stable']);ps=set(o['passed'])
print('passed',len(ps),'regress',sorted(st-ps),'new',sorted(ps-st))
P
