#!/bin/bash
# build + run the repository's own tests, report unstable or failing baseline tests
bash /opt/vp/build.sh >/tmp/vpb.log 2>&1 || { tail -40 /tmp/vpb.log; exit 1; }
bash /opt/vp/test.sh /tmp/vpt.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/vpt.json'))
def passed(x):
    for k in ('passed','pass','stable'):
        if k in x: return set(x[k])
    return set()
bp, tp = passed(b), passed(t)
print('baseline', len(bp), 'now passing', len(tp), 'missing', sorted(bp-tp)[:10])
P
