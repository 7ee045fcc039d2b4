#!/usr/bin/env python3
"""Decides one property on /repo's current working tree.

check.py PROPERTY [quick|thorough]

1. stages /repo's sources (read only) into a scratch directory;
2. extracts the functions under contract and discharges every obligation of
   the property's proof units (one process per unit, z3);
3. runs the property's refuter (concrete search on the real, untransformed
   code) - it supplies the failing input, and is the bounded stand-in for
   units the verifier could not decide;
4. writes evidence/PROPERTY.json.

exit 0: held; exit 1 + VIOLATION line: violated; exit 2: no answer.
"""

import concurrent.futures
import importlib
import json
import os
import pathlib
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = pathlib.Path(__file__).resolve().parent
PY = '/opt/venv/bin/python'
sys.dont_write_bytecode = True
sys.path.insert(0, str(HERE))

from vf import stage  # noqa: E402

TRUSTED = [
    'PyVC engine (vf/): AST extraction (transform.py), symbolic execution of '
    'Python operations (core.py, seqs.py, bytesm.py, dtm.py, libs.py)',
    'z3 (python bindings of /opt/veriftools/pyvenv)',
    'CPython 3.12 semantics of the statements kept by the extraction',
    'Python integers are mathematical integers (exact in Python); floats, '
    'where they occur, are treated as reals unless the unit says otherwise',
]


def run_proc(args, timeout, env):
    """run in own process group; kill the group on timeout"""
    p = subprocess.Popen(args, env=env, stdout=subprocess.DEVNULL,
                         stderr=subprocess.PIPE, stdin=subprocess.DEVNULL,
                         start_new_session=True, text=True,
                         errors='replace')
    try:
        _, err = p.communicate(timeout=timeout)
        return p.returncode, err[-1500:]
    except subprocess.TimeoutExpired:
        return None, 'timeout'
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()


def load_json(path):
    try:
        return json.loads(path.read_text())
    except Exception:
        return None


def units_of(prop, staged):
    """unit name -> (functions, timeout, bounds, definite, tiers)"""
    if not (HERE / f'units/{prop.lower()}.py').exists():
        return []
    stage.activate(staged)
    from vf import unit
    importlib.import_module('units.' + prop.lower())
    return unit.UNITS.get(prop, [])


def main():
    prop = sys.argv[1].upper()
    tier = (sys.argv[2] if len(sys.argv) > 2 else
            os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.monotonic()
    work = pathlib.Path(tempfile.mkdtemp(prefix='vfcheck'))
    try:
        code = decide(prop, tier, seed, t0, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def decide(prop, tier, seed, t0, work):
    tmp = work / 'tmp'
    tmp.mkdir()
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', TMPDIR=str(tmp),
               PYTHONHASHSEED=str(seed % (2 ** 32)), PYTHONUNBUFFERED='1')
    env.pop('PYTHONPATH', None)
    try:
        staged = stage.create(work / 'tree')
    except Exception as e:
        print(f'check {prop}: cannot stage the tree: {e}')
        return 2
    units = units_of(prop, staged)
    thorough = tier == 'thorough'
    has_ref = (HERE / f'refute/{prop.lower()}.py').exists()
    nref = (3 if thorough else 2) if has_ref else 0
    budget = 240 if thorough else 12
    factor = 5 if thorough else 1
    refs = []
    proofs = {}
    log = []

    def prove(u, bound=None):
        out = work / f'unit-{u.name}-{bound}.json'
        tmo = u.timeout * factor
        rc, err = run_proc([PY, str(HERE / 'prove.py'), str(staged), prop,
                            u.name, str(tmo), str(out)] +
                           ([str(bound)] if bound else []), tmo + 20, env)
        r = load_json(out) or {'unit': u.name, 'status': 'undecided',
                               'reason': f'no result ({rc}): {err}'}
        r.setdefault('functions', u.functions)
        for k in ('obligations', 'discharged', 'solver_s', 'paths',
                  'wall_s'):
            r.setdefault(k, 0)
        return r

    def refute(i):
        out = work / f'ref-{i}.json'
        s = seed + 1000 * i
        e = dict(env, PYTHONHASHSEED=str(s % (2 ** 32)))
        rc, err = run_proc([PY, str(HERE / 'refute/common.py'), str(staged),
                            prop, str(s), str(budget), tier, str(out)],
                           budget * 6 + 60, e)
        r = load_json(out) or {'violation': None, 'evaluations': 0,
                               'distinct': 0, 'samples': [], 'rule': '',
                               'notes': [], 'wall': 0,
                               'error': f'no result ({rc}): {err}'}
        r['seed'] = s
        return r

    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        fr = [pool.submit(refute, i) for i in range(nref)]
        fp = {u.name: pool.submit(prove, u) for u in units}
        refs = [f.result() for f in fr]
        proofs = {k: f.result() for k, f in fp.items()}
        # confirm failed proofs on exact (bounded, unabstracted) executions
        suspects = [u for u in units
                    if proofs[u.name]['status'] == 'refuted']
        fb = {u.name: [pool.submit(prove, u, b) for b in u.bounds]
              for u in suspects}
        confirm = {k: [f.result() for f in fs] for k, fs in fb.items()}

    violations = []
    for r in refs:
        v = r.get('violation')
        if v:
            violations.append(('input', r, v))
            break
    proof_fail = None
    for u in units:
        r = proofs[u.name]
        if r['status'] != 'refuted':
            continue
        bad = [b for b in confirm.get(u.name, [])
               if any(f['status'] == 'refuted'
                      for f in b.get('failing', []))]
        labels = [f['label'] for f in r.get('failing', [])
                  if f['status'] == 'refuted']
        if not bad and all(i.startswith(('no exception (TypeError)',
                                         'no exception (Attr'))
                           for i in labels):
            r['status'] = 'undecided'
            r['reason'] = ('changed code does not fit the contract stubs: '
                           'not confirmed by exact execution')
            continue
        if not u.definite:
            r['status'] = 'undecided'
            r['reason'] = 'unit over-approximates: failure is not definite'
            continue
        r['confirmed'] = [b.get('failing') for b in bad]
        if proof_fail is None:
            proof_fail = r

    found = None
    if violations or proof_fail:
        rdir = HERE / 'replay'
        rdir.mkdir(exist_ok=True)
        path = rdir / f'{prop}-{tier}-{seed}.json'
        rep = {'property': prop, 'seed': seed, 'tier': tier}
        if violations:
            _, r, v = violations[0]
            rep.update(kind='failing input on the real code',
                       what=v['what'], data=v['data'],
                       refuter_seed=r['seed'],
                       rerun=f'VERIF_SEED={seed} python3 check.py {prop} '
                             f'{tier}')
        if proof_fail:
            rep['failed_obligations'] = {
                'unit': proof_fail['unit'],
                'functions': proof_fail['functions'],
                'failing': proof_fail.get('failing'),
                'exact': proof_fail.get('confirmed')}
        path.write_text(json.dumps(rep, indent=1, default=str))
        found = path

    proved = [u.name for u in units if proofs[u.name]['status'] == 'proved']
    open_units = {u.name: proofs[u.name]['reason'][:300] for u in units
                  if proofs[u.name]['status'] == 'undecided'}
    errors = [r['error'] for r in refs if r.get('error')]

    known = known_findings(prop)
    code = 0
    if violations:
        print(f'check {prop}: {violations[0][2]["what"]}')
        print(f'VIOLATION property={prop} replay={found}')
        code = 1
    elif proof_fail:
        lab = [f['label'] for f in proof_fail.get('failing', [])][:3]
        print(f'check {prop}: unit {proof_fail["unit"]}: obligation fails: '
              f'{lab}')
        print(f'VIOLATION property={prop} replay={found} '
              'no-failing-input-found')
        code = 1
    elif errors and len(errors) == len(refs):
        print(f'check {prop}: refuter error: {errors[0][-800:]}')
        code = 2 if (open_units or not proved) else 0
    elif not units and not refs:
        print(f'check {prop}: nothing to check')
        code = 2
    for k in known:
        print(f'KNOWN-FINDING: property={prop} {k}')

    n_obl = sum(p['obligations'] for p in proofs.values())
    n_dis = sum(p['discharged'] for p in proofs.values())
    level = 'proof' if manifest_level(prop) == 'proof' else \
        manifest_level(prop)
    assumptions = sorted({a for p in proofs.values()
                          for a in (p.get('assumptions', []) +
                                    p.get('unit_assumes', []))})
    coverage = {
        'obligations': n_obl, 'discharged': n_dis,
        'checker_cmd': f'python3 check.py {prop} {tier}',
        'trusted_base': TRUSTED,
        'backend': 'z3',
        'solver_s': round(sum(p['solver_s'] for p in proofs.values()), 2),
        'functions_under_contract': sorted(
            {f for u in units if proofs[u.name]['status'] == 'proved'
             for f in u.functions}),
        'units_proved': proved,
        'units_undecided_bounded_standin': open_units,
        'units': {k: {i: p.get(i) for i in
                      ('status', 'reason', 'functions', 'obligations',
                       'discharged', 'paths', 'solver_s', 'wall_s',
                       'labels', 'covers')}
                  for k, p in proofs.items()},
        'extracted_sources': next(
            (p['extraction'] for p in proofs.values()
             if p.get('extraction')), {}),
        'evaluations': sum(r['evaluations'] for r in refs),
        'distinct_nontrivial': max([r['distinct'] for r in refs],
                                   default=0),
        'rule': (refs[0]['rule'] if refs else
                 'no concrete executions in this check'),
        'samples': (refs[0]['samples'] if refs else []),
        'bounded': 'concrete executions are bounded and never counted as '
                   'proved: ' + ' '.join(
                       (refs[0].get('bounds') or '').split()
                       if refs else ['none']),
        'explanation': explain(prop, proved, open_units, refs),
    }
    if errors:
        coverage['refuter_errors'] = errors
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level,
          'coverage': coverage, 'assumptions': assumptions,
          'wall_s': round(time.monotonic() - t0, 2),
          'violations': 1 if code == 1 else 0}
    (HERE / 'evidence').mkdir(exist_ok=True)
    (HERE / f'evidence/{prop}.json').write_text(
        json.dumps(ev, indent=1, default=str))
    print(f'check {prop}: {n_dis}/{n_obl} obligations in {len(units)} units '
          f'({len(proved)} proved, {len(open_units)} left to the bounded '
          f'stand-in), {coverage["evaluations"]} concrete executions, '
          f'{ev["wall_s"]} s, exit {code}')
    return code


def explain(prop, proved, open_units, refs):
    s = (f'{len(proved)} proof units discharged for all inputs')
    if open_units:
        s += (f'; {len(open_units)} units undecided this run, decided only '
              'within the stated bound by concrete executions')
    if not proved:
        s += '; no function proved: bounded executions only'
    return s


def manifest_level(prop):
    m = load_json(HERE / 'MANIFEST.json') or {}
    for c in m.get('checks', []):
        if c['property'] == prop:
            return c['level']
    return 'other'


def known_findings(prop):
    res = []
    p = HERE / 'known-findings.txt'
    if p.exists():
        for line in p.read_text().splitlines():
            if line.startswith(f'known: property={prop} '):
                res.append(line.split(' ', 2)[2])
    return res


main()
