#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl from the table below (maintenance tool)."""
import json, os, sys
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
  assert len(title) <= 80, (id, len(title))
  P.append(dict(id=id, title=title, statement=statement,
    quantifier=dict(over=over, text=qtext), why_tests_cant=why,
    anchors=dict(files=['putting_dune/'+f for f in files],
      mechanism=[dict(name=n, where='putting_dune/'+w) for n, w in mech],
      state=[dict(name=a, meaning=b, where='putting_dune/'+c) for a, b, c in state],
      observe_at=list(observe), hook_needed=None)))
exec(open(os.path.join(os.path.dirname(__file__), 'props_table.py')).read())
out = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
with open(out, 'w') as f:
  for x in P: f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
