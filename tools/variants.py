"""Regression suite of the checks: textual variants of /repo (bugs that must be reported, rewrites that must stay quiet).

python3 tools/variants.py [C01 ...]   each tools/variants/*.py calls V(prop(s), kind, name, file, [(old, new), ...]).
"""
import concurrent.futures
import glob
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_VARIANT_REPO', '/repo')
ALL = []


def V(props, kind, name, file, edits):
  for p in props.split():
    ALL.append((p, kind, name, file, edits))


def run(v):
  p, kind, name, file, edits = v
  d = tempfile.mkdtemp(prefix='variant-')
  try:
    shutil.copytree(f'{REPO}/putting_dune', f'{d}/putting_dune', ignore=lambda a, ns: [n for n in ns if not n.endswith(('.py', '.proto')) and '.' in n or n == '__pycache__'])
    es = [(file, o, n) for o, n in edits] if file else edits
    for f, o, n in es:
      path = f'{d}/putting_dune/{f}'
      s = open(path).read()
      if s.count(o) < 1:
        return v, 'STALE', f'text not found in {f}: {o[:60]!r}'
      s = s.replace(o, n)
      compile(s, path, 'exec') if f.endswith('.py') else None
      open(path, 'w').write(s)
    r = subprocess.run([sys.executable, '-m', 'sa.check', p], cwd=ROOT, capture_output=True, text=True, timeout=900,
                       env=dict(os.environ, SA_REPO=d, SA_OUT=d + '/out'))
    want = 1 if kind == 'bug' else 0
    und = r.stdout.count('UNDECIDED')
    st = 'pass' if r.returncode == want else 'FAIL'
    return v, st + (f'({und} undecided)' if und else ''), (r.stdout + r.stderr)[-900:] if st == 'FAIL' or und else ''
  finally:
    shutil.rmtree(d, ignore_errors=True)


def main():
  sel = [a.upper() for a in sys.argv[1:] if not a.startswith('-')]
  for f in sorted(glob.glob(os.path.join(ROOT, 'tools', 'variants', os.environ.get('ONLY', '*') + '.py'))):
    exec(compile(open(f).read(), f, 'exec'), {'V': V})
  vs = [v for v in ALL if not sel or v[0] in sel]
  bad = 0
  with concurrent.futures.ThreadPoolExecutor(8) as ex:
    for v, st, out in ex.map(run, vs):
      if not st.startswith('pass') or '-v' in sys.argv or 'undecided' in st:
        print(st, v[0], v[1], v[2], '\n    ' + out.strip().replace('\n', '\n    ')[:1500] if out else '')
      bad += not st.startswith('pass')
  print(f'{len(vs)} variants, {bad} unexpected')


if __name__ == '__main__':
  main()
