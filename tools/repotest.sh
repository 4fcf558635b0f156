#!/bin/bash
# builds /repo and runs its test suite; prints the number of stable tests that do not pass
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; echo BUILD-FAILED; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
m=[t for t in b['stable'] if t not in o['passed']]
print('passed',len(o['passed']),'missing',m)
P
