#!/bin/bash
# builds /repo, runs its tests, reports stable tests that did not pass
bash /opt/vp/build.sh >/tmp/vf_build.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/vf_build.log; exit 2; }
bash /opt/vp/test.sh /tmp/vf_tests.json >/tmp/vf_tests.log 2>&1
python3 - <<'E'
import json, sys
a = json.load(open('/opt/vp/BASELINE.json'))['stable']
b = set(json.load(open('/tmp/vf_tests.json'))['passed'])
m = [i for i in a if i not in b]
print('stable', len(a), 'missing', len(m), m[:5])
sys.exit(1 if m else 0)
E
