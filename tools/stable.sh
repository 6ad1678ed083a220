#!/bin/bash
# runs the repository's tests and compares with the stable ones
bash /opt/vp/test.sh /tmp/stable.out.json >/dev/null 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/stable.out.json'))
miss=b-set(o['passed'])
print("stable", len(b), "missing", sorted(miss))
P
