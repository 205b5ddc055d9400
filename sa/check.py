"""python3 -m sa.check C08 : decides one property on the current tree."""
import importlib
import json
import os
import sys
import time
import traceback

from .core import Analysis
from .prog import AnalysisBroken

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, 'known_findings.txt')


def known(pid):
  out = {}
  if os.path.exists(KNOWN):
    for l in open(KNOWN, encoding='utf-8'):
      l = l.strip()
      if l.startswith('known: property='):
        head, _, text = l.partition(' :: ')
        _, p, key = head.split(' ', 2)
        if p.split('=')[1] == pid:
          out[key.strip()] = text
  return out


def run(pid, repo=None):
  """The check, under each pairing of renamed private attributes with the reference models' names until one agrees."""
  m = importlib.import_module(f'sa.checks.{pid.lower()}')
  plan, first = {}, None
  for _ in range(60):
    A = Analysis(pid, repo, plan)
    try:
      m.check(A)
    except Exception:  # what was found before the analysis failed still counts
      if not any(o.verdict is False for o in A.obs):
        raise
    first = first or A
    if not any(o.verdict is False for o in A.obs):
      return A, m
    if not A.options:
      break
    for k, n in A.options.items():
      i = plan.get(k, 0) + 1
      if i < n:
        plan = {**plan, k: i}
        break
      plan = {**plan, k: 0}
    else:
      break
  return first, m


def main(argv):
  sys.setrecursionlimit(20000)
  pid = argv[0].upper()
  verbose = '-v' in argv
  t0 = time.time()
  tier = os.environ.get('VERIF_TIER', 'quick')
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  try:
    A, m = run(pid)
    if A.prog.errors:
      raise AnalysisBroken('; '.join(A.prog.errors))
    if not any(o.verdict is False for o in A.obs) and len(A.obs) < getattr(m, 'MIN_OBLIGATIONS', 1):
      raise AnalysisBroken(f'only {len(A.obs)} obligations generated, at least {m.MIN_OBLIGATIONS} expected')
  except AnalysisBroken as e:
    print(f'ANALYSIS-BROKEN property={pid} {e}')
    return 2
  kn = known(pid)
  bad = [o for o in A.obs if o.verdict is False]
  und = [o for o in A.obs if o.verdict is None]
  new, old, seen = [], [], set()
  for o in bad:
    (old if o.key in kn else new).append(o)
  ev = {
      'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(m, 'LEVEL', 'other'),
      'coverage': {
          'explanation': (m.__doc__ or '').strip(),
          'obligations': len(A.obs),
          'discharged': len([o for o in A.obs if o.verdict is True]),
          'undecided': [f'{o.key}: {o.detail}'[:300] for o in und],
          'known_findings': [o.key for o in old],
          'checker_cmd': f'python3 -m sa.check {pid}',
          'trusted_base': ['Python ast parser', 'sa/absint.py (value graph)', 'sa/terms.py (normal forms)',
                           f'sa/checks/{pid.lower()}.py (rules)'],
          'functions_analysed': sorted(A.analysed),
          'call_sites_seen': A.sites,
          'rules': sorted({o.rule for o in A.obs}),
          'samples': [dict(rule=o.rule, construct=o.construct, where=o.where, verdict={True: 'holds', False: 'VIOLATED', None: 'undecided'}[o.verdict],
                           detail=o.detail[:400]) for o in A.obs][:60],
      },
      'assumptions': A.assumptions + getattr(m, 'ASSUMPTIONS', []),
      'wall_s': round(time.time() - t0, 3),
      'violations': len(new),
  }
  out = os.environ.get('SA_OUT') or os.path.join(ROOT, 'evidence')
  os.makedirs(out, exist_ok=True)
  with open(os.path.join(out, f'{pid}.json'), 'w', encoding='utf-8') as f:
    json.dump(ev, f, indent=1, default=str)
  for o in old:
    if o.key not in seen:
      seen.add(o.key)
      print(f'KNOWN-FINDING: property={pid} {o.key} {kn[o.key]}')
  for o in und:
    print(f'UNDECIDED property={pid} {o.key} ({o.where}): {o.detail[:300]}')
  if verbose:
    for o in A.obs:
      print({True: 'ok  ', False: 'BAD ', None: '?   '}[o.verdict], o.key, '|', o.where, '|', o.detail[:200])
  if new:
    rp = os.path.join(out, f'{pid}.violation.txt')
    with open(rp, 'w', encoding='utf-8') as f:
      for o in new:
        f.write(f'{o.rule}\n  construct: {o.construct}\n  where: {o.where}\n  {o.detail}\n')
    for o in new:
      print(f'  {o.rule} [{o.construct}] {o.where}: {o.detail[:900]}')
    print(f'VIOLATION property={pid} replay={rp}')
    return 1
  print(f'OK property={pid} obligations={len(A.obs)} discharged={ev["coverage"]["discharged"]} undecided={len(und)} '
        f'known={len(old)} functions={len(A.analysed)} wall={ev["wall_s"]}s')
  return 0


if __name__ == '__main__':
  try:
    rc = main(sys.argv[1:])
  except Exception:  # pylint: disable=broad-except
    traceback.print_exc(limit=-6)
    rc = 3
  sys.exit(rc)
