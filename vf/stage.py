"""Stages /repo's current working tree into a scratch directory.

Copies src_py (python sources only), regenerates the two schema repositories
(git-ignored build products loaded by hat.event.common at import) and puts the
copy first on sys.path.  /repo itself is only read.
"""

import os
import pathlib
import shutil
import subprocess
import sys

REPO = pathlib.Path(os.environ.get('VERIF_REPO', '/repo'))
PY = '/opt/venv/bin/python'
Z3_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

_GEN = r'''
import sys, pathlib
import hat.json, hat.sbs
repo, dst = map(pathlib.Path, sys.argv[1:])
r = hat.json.create_schema_repository(
    *sorted((repo / 'schemas_json').rglob('*.yaml')))
hat.json.encode_file(r, dst / 'json_schema_repo.json', indent=None)
r = hat.sbs.Repository(*sorted((repo / 'schemas_sbs').rglob('*.sbs')))
hat.json.encode_file(r.to_json(), dst / 'sbs_repo.json', indent=None)
'''


class StageError(Exception):
    pass


def create(dst):
    """Create staged copy in `dst`; returns path to put on sys.path"""
    dst = pathlib.Path(dst)
    src = REPO / 'src_py'
    out = dst / 'src_py'
    shutil.copytree(src, out, ignore=shutil.ignore_patterns(
        '__pycache__', '*.pyc', '*.so', 'json_schema_repo.json',
        'sbs_repo.json'))
    shutil.copytree(REPO / 'schemas_sbs', dst / 'schemas_sbs')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    env.pop('PYTHONPATH', None)
    p = subprocess.run([PY, '-c', _GEN, str(REPO),
                        str(out / 'hat/event/common')], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=120)
    if p.returncode:
        raise StageError(p.stdout[-2000:])
    return out


def activate(path):
    """Make the staged `hat.event` importable in this process"""
    sys.dont_write_bytecode = True
    sys.path.insert(0, str(path))
    if Z3_SITE not in sys.path:
        sys.path.append(Z3_SITE)
