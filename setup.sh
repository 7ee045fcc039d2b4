#!/bin/bash
# nothing to build: checks the tools the framework needs and the engine imports
set -e
cd "$(dirname "$0")"
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3, hat.json, hat.sbs, lmdb
sys.path.insert(0, '.')
import vf.libs, vf.unit
print('z3', z3.get_version_string())"
