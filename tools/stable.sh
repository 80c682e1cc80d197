#!/bin/bash
# rebuild /repo and report stable tests that do not pass
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD FAILED; tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);o=json.load(open('/tmp/o.json'))
m=b-set(o['passed']);print('stable missing:',sorted(m) or 'none')
P
