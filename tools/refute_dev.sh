#!/bin/bash
# dev: refute_dev.sh c01 [budget] [seed]
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cd /verif
python3 -c "
from vf import stage; print(stage.create('$d'))" || exit 2
PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=${3:-1} /opt/venv/bin/python refute/common.py $d/src_py $1 ${3:-1} ${2:-5} quick $d/out.json
python3 -c "
import json; r=json.load(open('$d/out.json'))
print(r['violation'] and r['violation']['what'], r['evaluations'], r['distinct'], round(r['wall'],1), r['notes'])
for k,v in ((r['violation'] or {}).get('data') or {}).items(): print('   ',k,':',v[:300]+(' ... '+v[-900:] if len(v)>1200 else v[300:]))
if r['error']: print(r['error'])"
