"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(R + '/seeded/*/meta.json')):
  m = json.load(open(f))
  rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} |")
p = R + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'(?:^\| c\d\d-.*\n)+', '\n'.join(rows) + '\n', s, count=1, flags=re.M)
open(p, 'w').write(s)
