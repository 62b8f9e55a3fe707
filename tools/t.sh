#!/bin/bash
# run the repository's tests and compare with the baseline list
bash /opt/vp/build.sh >/tmp/vt_build.log 2>&1 || { tail -20 /tmp/vt_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/vt.json >/tmp/vt_test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/vt.json'))
print('passed',len(r['passed']),'failed',len(r['failed']),'MISSING',[x for x in b['stable'] if x not in r['passed']])
P
