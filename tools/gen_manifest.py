"""Writes MANIFEST.json from the table below."""
import json
import pathlib

HERE = pathlib.Path(__file__).resolve().parent.parent
props = {}
for line in (HERE / 'properties.jsonl').read_text().splitlines():
    p = json.loads(line)
    props[p['id']] = p
claims = json.loads((HERE / 'tools/claims.json').read_text())
checks = []
for pid in sorted(props):
    c = claims.get(pid)
    if not c or 'na' in c:
        continue
    checks.append({
        'property': pid,
        'quick_cmd': f'python3 check.py {pid} quick',
        'thorough_cmd': f'python3 check.py {pid} thorough',
        'evidence_file': f'evidence/{pid}.json',
        'technique': c.get('technique',
                           'contract-based deductive verification of the '
                           'extracted real code (PyVC, z3)'),
        'level': c['level'],
        'level_note': c['note']})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
     'not_applicable': [
         {'property': pid, 'reason': claims.get(pid, {}).get(
             'na', 'check not built yet')}
         for pid in sorted(props) if pid not in
         {c['property'] for c in checks}]}
(HERE / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
print(len(checks), 'checks')
