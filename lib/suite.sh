#!/bin/bash
# Development helper: rebuild /repo and report stable tests that do not pass.
bash /opt/vp/build.sh >/tmp/vb.log 2>&1 || { tail -20 /tmp/vb.log; exit 1; }
bash /opt/vp/test.sh /tmp/vo.json >/tmp/vt.log 2>&1
python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/vo.json'))
m=set(b['stable'])-set(o['passed']);print('stable missing:',sorted(m));raise SystemExit(1 if m else 0)"
