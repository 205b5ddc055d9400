"""Writes MANIFEST.json from the check modules and the table below."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
NA = {}
exec(open(os.path.join(ROOT, 'tools', 'na_table.py')).read())
checks, na = [], []
for p in props:
  path = os.path.join(ROOT, 'sa', 'checks', p.lower() + '.py')
  if os.path.exists(path) and p not in NA:
    m = importlib.import_module(f'sa.checks.{p.lower()}')
    note = ' '.join((m.__doc__ or '').split())
    checks.append({
        'property': p,
        'quick_cmd': f'python3 -m sa.check {p}',
        'thorough_cmd': f'python3 -m sa.check {p}',
        'evidence_file': f'evidence/{p}.json',
        'technique': 'static analysis: ' + getattr(m, 'TECHNIQUE', 'value-graph / event-trace comparison with a reference model'),
        'level': getattr(m, 'LEVEL', 'other'),
        'level_note': note,
    })
  else:
    na.append({'property': p, 'reason': NA.get(p, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
