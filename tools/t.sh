#!/bin/bash
# runs the repo's stable tests and names any stable test that no longer passes
bash /opt/vp/build.sh >/dev/null 2>&1
bash /opt/vp/test.sh /tmp/o.json 2>&1 | tail -1
/opt/venv/bin/python - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/o.json'))
m=set(b['stable'])-set(o['passed'])
print('stable tests not passing:',sorted(m)[:10], len(m))
P
