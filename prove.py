"""Runs one proof unit in its own process.

prove.py STAGED PROP UNIT TIMEOUT OUT.json [BOUND]
"""

import importlib
import json
import pathlib
import resource
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
sys.setrecursionlimit(20000)


def main():
    staged, prop, name, timeout, out = sys.argv[1:6]
    bound = int(sys.argv[6]) if len(sys.argv) > 6 else None
    gb = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (gb, gb))
    res = {'unit': name, 'status': 'undecided', 'reason': 'crash'}
    try:
        from vf import stage
        stage.activate(pathlib.Path(staged))
        from vf import libs, unit
        importlib.import_module('units.' + prop.lower())
        u, = [u for u in unit.UNITS[prop] if u.name == name]
        m = libs.Registry(pathlib.Path(staged))
        r = unit.run_unit(u, m, bound=bound, timeout=float(timeout))
        res = r.to_dict()
        res['definite'] = u.definite
        res['assumptions'] = r.assumptions
        res['unit_assumes'] = list(u.assumes)
        res['covers'] = sorted(r.covers)
        res['extraction'] = m.extraction_report()
        if hasattr(r, 'tb'):
            res['tb'] = r.tb[-2000:]
    except BaseException:
        res['reason'] = 'engine error: ' + traceback.format_exc()[-1500:]
    text = json.dumps(res, default=str)
    with open(out, 'w') as f:
        f.write(text)


main()
