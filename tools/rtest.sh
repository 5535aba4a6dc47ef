#!/bin/bash
# Builds /repo, runs its tests and compares with the baseline of stable tests.
bash /opt/vp/build.sh >/tmp/rbuild.log 2>&1 || { tail -40 /tmp/rbuild.log; exit 1; }
bash /opt/vp/test.sh /tmp/out.json >/tmp/rtest.log 2>&1
python3 - <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
miss=sorted(set(b['stable'])-set(o['passed']))
print('stable',len(b['stable']),'missing',miss[:20]); sys.exit(bool(miss))
P
