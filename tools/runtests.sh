#!/bin/bash
# runs the repository's own tests and lists stable ones that fail
bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
python3 - <<'P'
import json
a = json.load(open('/opt/vp/BASELINE.json'))
b = json.load(open('/tmp/t.json'))
miss = [t for t in a['stable'] if t not in set(b['passed'])]
print(len(a['stable']) - len(miss), 'of', len(a['stable']), 'stable tests pass', miss[:5])
P
