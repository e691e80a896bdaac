#!/bin/bash
# run the stable tests on /repo; print failures
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/out.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
ok=set(o.get('passed',o.get('pass',[])))
bad=[t for t in b['stable'] if t not in ok]
print('FAILED' if bad else 'all stable pass', bad)
P
