#!/bin/bash
# Builds ${VERIF_REPO:-/repo} and reports baseline tests that do not pass.
bash /opt/vp/build.sh >/tmp/bt.log 2>&1 || { tail -20 /tmp/bt.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >>/tmp/bt.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/o.json'))
m=set(b['stable'])-set(o['passed']); print("missing:",sorted(m)[:10], "passed",len(o['passed']))
P
