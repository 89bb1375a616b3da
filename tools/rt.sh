#!/bin/bash
# run tests & compare with baseline
bash /opt/vp/build.sh 2>/tmp/rt-rt.err || { cat /tmp/rt-rt.err; exit 1; }
bash /opt/vp/test.sh /tmp/rt-out.json >/tmp/rt-rt.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/rt-out.json'))
def passed(x):
    for k in ('passed','pass','stable','stable_pass'):
        if k in x: return set(x[k])
    print(x.keys()); 
pb=passed(b); po=passed(o)
print(len(pb),len(po),'missing:',sorted(pb-po))
P
git -C /repo status --short
