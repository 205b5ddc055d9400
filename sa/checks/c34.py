"""Row provenance over the value graphs of every function that builds or reads an atomic grid: the positions and the numbers of a new grid
must be the same rows (same source grid, same masks and indices, same concatenation and order); a position of a grid is only looked up by
a mask or index computed from that grid. The two detectors and the code that carries numbers over are compared with reference models."""
import ast

from .. import cases, libnf, rows as R, terms as T
from ..prog import PKG
from ..terms import mk

MIN_OBLIGATIONS = 40
TECHNIQUE = 'row-provenance analysis of value graphs (masks, indices, concatenations, reorderings) plus value-graph comparison with reference models'
GRID = f'{PKG}.microscope_utils.AtomicGrid'
SKIP = ('plotting_utils',)
HEAVY = ['alignment.' + x for x in ('get_lattice_clusterer', 'classify_lattice_types', 'align_latest', 'clique_merge', 'naive_merge')]
HELD = ('atom_positions', 'atomic_numbers')
KNOWN = libnf.KNOWN | {'numpy.all', 'numpy.any', 'numpy.asarray', 'numpy.argsort', 'numpy.linalg.norm', 'numpy.argmin', 'numpy.where', 'numpy.sum', 'cv2.findContours', 'len'}


def functions(A):
  """Functions and methods that touch an atomic grid's arrays or build one."""
  out = [(f, None) for f in A.prog.funcs.values()] + [(m, c) for c in A.prog.classes.values() for m in c.methods.values()]
  for f, c in sorted(out, key=lambda x: (x[0].mod.name, x[0].node.lineno)):
    if not f.mod.name.startswith(PKG + '.') or f.is_abstract or f.mod.name.endswith('test_utils'):
      continue
    names = {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute)} | {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name)}
    if 'atomic_numbers' in names or 'AtomicGrid' in names or {'get_atoms_in_bounds'} & names:
      yield f, c


def plain(t):
  """A source whose identity is certain: a parameter, or a field or element of one."""
  return all(x.op in ('param', 'attr', 'item', 'const', 'new', 'ix', 'bv') for x in T.subterms(t))


def same_sel(a, b):
  ok, _ = cases.equal(libnf.nf(a), libnf.nf(b))
  return ok


def differ(a, b, why):
  """None when two row terms agree; (certain?, text) otherwise."""
  if a is b:
    return None
  if a.op == 'phi' or b.op == 'phi':
    ok, leaf = cases.equal(a, b)
    if ok:
      return None
    if leaf is not None and not (leaf[0] is a and leaf[1] is b):
      return differ(leaf[0], leaf[1], why)
    if a.op == 'phi' and b.op == 'phi' and a.args[0] is b.args[0]:
      return differ(a.args[1], b.args[1], why) or differ(a.args[2], b.args[2], why)
    x, y = (a, b) if a.op == 'phi' else (b, a)
    d = [differ(z, y, why) for z in x.args[1:]]
    d = [z for z in d if z]
    return next((z for z in d if z[0]), d[0]) if d else None
  if a.op == b.op == 'pick':
    d = differ(a.args[0], b.args[0], why)
    if d:
      return d
    ok = same_sel(a.args[1], b.args[1])
    if ok:
      return None
    odd = (libnf.vocabulary(a.args[1]) ^ libnf.vocabulary(b.args[1])) - KNOWN
    sure = ok is False and not odd and not any(x.op in ('unknown', 'bottom', 'maybe') for x in T.subterms(mk('tuple', a.args[1], b.args[1])))
    return sure, f'one is selected by {T.show(a.args[1], 6)[:260]}, the other by {T.show(b.args[1], 6)[:260]}'
  if a.op == b.op == 'cat':
    if len(a.args) != len(b.args):
      return True, f'one joins {len(a.args)} parts, the other {len(b.args)}'
    for x, y in zip(a.args, b.args):
      d = differ(x, y, why)
      if d:
        return d
    return None
  if a.op == b.op == 'reord' and a.args[0] == b.args[0]:
    return differ(a.args[1], b.args[1], why)
  if a.op == b.op == 'n':
    return None if a.args[0] is b.args[0] else (True, f'{T.show(a.args[0])} rows against {T.show(b.args[0])}')
  if a.op in ('rows', 'of') and b.op in ('rows', 'of'):
    x, y = libnf.nf(a.args[0]), libnf.nf(b.args[0])
    if cases.equal(x, y)[0]:
      return None
    merged = [any((R.gname(z) or '').endswith(('.clique_merge', '.naive_merge')) for z in T.subterms(v)) for v in (x, y)]
    sure = (a.op == b.op == 'rows' and plain(x) and plain(y)) or (merged[0] != merged[1] and plain(y if merged[0] else x)) or (x.op == y.op == 'item' and x.args[1] is y.args[1] and R.gname(x.args[0]) == R.gname(y.args[0]) == 'cv2.findContours')
    return sure, f'one has the rows of {T.show(x, 12)[:900]}, the other those of {T.show(y, 12)[:900]}'
  for x, y in ((a, b), (b, a)):
    if x.op in ('pick', 'reord'):
      base = x
      while base.op in ('pick', 'reord'):
        base = base.args[0] if base.op == 'pick' else base.args[1]
      z = y
      while z.op in ('pick', 'reord'):
        z = z.args[0] if z.op == 'pick' else z.args[1]
      d = differ(base, z, why)
      how = f'selected by {T.show(x.args[1], 5)[:240]}' if x.op == 'pick' else f'reordered by {x.args[0]}'
      return d is None or d[0], f'one is {how}, the other is not'
  return False, f'{T.show(a, 5)[:200]} against {T.show(b, 5)[:200]}'


def held(t):
  """Copies of a list taken before it was extended, told apart from the list as it is later (an argument of a call not followed)."""
  def start(x):
    if x.op == 'concat':
      return start(x.args[0])
    if x.op == 'phi':
      a = start(x.args[1])
      return a if a is start(x.args[2]) else None
    return x.args[0] if x.op == 'init' else None

  def f(x):
    return start(x) if x.op in ('concat', 'phi', 'init') else None
  return T.subst(t, f)


def wholly(r):
  return r is not None and r is not R.FLAT


def handed(f, pos, num):
  """A helper handed the arrays one by one: judged in its callers' runs."""
  if any(x.op == 'attr' and x.args[1] in HELD for t in (pos, num) for x in T.subterms(t)):
    return False
  a, b = ({x.args[0] for x in T.subterms(t) if x.op == 'param'} for t in (pos, num))
  return bool(a and b) and not a & b


def pairing(A, nm, where, pos, num):
  pos, num = libnf.nf(held(pos)), libnf.nf(held(num))
  if num.op == 'call' and R.gname(num) in ('numpy.asarray', 'numpy.array') and (R.arg(num, 'a') or T.NONE).op in ('tuple', 'list') and not R.arg(num, 'a').args:
    return A.ob('paired-rows', nm, True, 'a grid of positions only', where)
  a, b = R.rows(pos), R.rows(num)
  if not wholly(a):
    a = mk('of', pos)
  if not wholly(b):
    return A.ob('paired-rows', nm, None, f'rows of the numbers not known: {T.show(num, 6)[:300]}', where)
  if R.uniform(num):
    a, b = R.unordered(a), R.unordered(b)
  d = differ(a, b, nm)
  ok = True if d is None else (False if d[0] else None)
  A.ob('paired-rows', nm, ok, T.show(b, 5)[:300] if ok else f'positions and numbers are not the same rows: {d[1]}', where)
  # values written at particular rows
  for x in T.subterms(num):
    if x.op == 'store' and R.rows(x.args[0]) is not None and not T.is_num(x.args[1]):
      s = index_rows(x.args[1])
      if s is None:
        continue
      d = differ(R.rows(pos) if wholly(R.rows(pos)) else mk('of', pos), s, nm)
      ok = True if d is None else (False if d[0] else None)
      if ok is not None:
        A.ob('marked-row', nm, ok, f'{T.show(x.args[2], 3)} written where a mask or index of the same positions says' if ok else
             f'{T.show(x.args[2], 3)} is written at an index found among other rows: {d[1]}', where)


def index_rows(i):
  """The rows an index or mask was computed over."""
  i = R.selector(i)
  g = R.gname(i)
  if i.op == 'mcall' and i.args[0] in ('reshape', 'flatten', 'ravel', 'squeeze', 'astype', 'copy'):
    return index_rows(i.args[1])
  if i.op == 'item' and (R.gname(i.args[0]) in ('numpy.argsort', 'numpy.neighbour_indices') or i.args[0].op in ('mcall', 'item')):
    return index_rows(i.args[0])
  if g == 'numpy.neighbour_indices':
    r = R.rows(i.args[1][0]) if i.args[1] else None
    return r if wholly(r) else None
  if g in R.SAME and len(i.args[1]) + len(i.args[2]) >= 1:
    x = R.arg(i, 'a', 'x')
    return index_rows(x) if x is not None else None
  if g in ('numpy.argmin', 'numpy.argmax', 'numpy.argsort') and dict(i.args[2]).get('axis') in (None, T.const(0), T.const(-1)):
    x = R.arg(i, 'a')
    r = R.rows(x) if x is not None and not R.wide(x) else None
    return r if wholly(r) else None
  if R.is_index_mask(i):
    r = R.rows(i)
    return r if wholly(r) and not R.wide(i) else None
  return None


def source(r):
  """Whether every leaf of a row term is an atomic grid."""
  return wholly(r) and any(x.op == 'rows' and any(True for _ in [0]) for x in T.subterms(r))


def lookups(A, r, nm, seen):
  """Positions and numbers looked up by a mask or index computed elsewhere."""
  n = 0
  terms = [(r.result, r.where)]
  for e in r.events:
    for v in e.d.values():
      if isinstance(v, T.Term):
        terms.append((v, e.where))
      elif isinstance(v, (tuple, list)):
        terms += [(y, e.where) for y in v if isinstance(y, T.Term)]
      elif isinstance(v, dict):
        terms += [(y, e.where) for y in v.values() if isinstance(y, T.Term)]
  done = set()
  for t, w in terms:
    for x in T.subterms(t, done):
      if x.op != 'item' or x in seen:
        continue
      if not any(y.op == 'attr' and y.args[1] in HELD for y in T.subterms(x.args[0])):
        continue
      seen.add(x)
      y = libnf.nf(x)
      if y.op != 'item':
        continue
      i = y.args[1].args[0] if y.args[1].op == 'tuple' and y.args[1].args else y.args[1]
      a, b = R.rows(y.args[0]), index_rows(i)
      if not wholly(a) or b is None:
        continue
      d = differ(a, b, nm)
      ok = True if d is None else (False if d[0] else None)
      n += 1
      A.ob('own-mask', f'{nm}: {T.show(y, 5)[:160]}', ok, 'indexed by a mask or index of its own rows' if ok else f'indexed by a mask or index of other rows: {d[1]}', w)
  return n


def empties(A, nm, where, pos):
  """Joined lists of positions stay two columns wide when one of them is empty."""
  pos = libnf.nf(pos)
  for x in T.subterms(pos):
    if R.gname(x) == 'numpy.concatenate':
      l = R.arg(x, 'arrays')
      if l is None or l.op not in ('list', 'tuple'):
        continue
      for k, p in enumerate(l.args):
        raw = p.op in ('mapl', 'mapf', 'mapa') or (R.gname(p) in ('numpy.array', 'numpy.asarray') and (R.arg(p, 'a') or T.NONE).op in ('mapl', 'mapf', 'mapa'))
        if raw and p.op in ('mapl', 'mapf', 'mapa') and p.args[2].op not in ('tuple', 'list'):
          continue
        A.ob('two-columns', f'{nm}: part {k + 1}', not raw, 'two columns also when nothing was found' if not raw else
             'an empty list of positions has no columns, so joining it to the other one fails', where)


def check(A):
  A.nf, A.vocab = libnf.nf, True
  seen = set()
  for f, c in functions(A):
    nm = (f'{c.qual}.{f.name}' if c is not None else f.qual).replace(PKG + '.', '')
    r = A.node(f, snap_new=(GRID,), opaque=HEAVY)
    sites = {}
    for e in r.events:
      if e.kind == 'new' and e.d['cls'].qual == GRID and e.d.get('now'):
        sites.setdefault(e.where, []).append(e)
    for w, es in sites.items():
      for e in es:
        now = e.d['now']
        if set(HELD) <= set(now):
          p, z = now['atom_positions'], now['atomic_numbers']
          own = w.split(' in ')[-1].startswith(nm)
          if (w, p, z) in seen or (own and handed(f, p, z)):
            continue
          seen.add((w, p, z))
          pairing(A, nm if own else f'{nm} through {w.split(" in ")[-1]}', w, p, z)
          empties(A, nm, w, p)
    lookups(A, r, nm, seen)
  detected(A)
  f = A.prog.method('microscope_utils.AtomicGrid', '__eq__')
  spec = A.know(A.spec('detectors.same_atoms', cls='microscope_utils.AtomicGrid', types={'other': 'microscope_utils.AtomicGrid'}))
  r = A.method('microscope_utils.AtomicGrid', '__eq__', names=['other'])
  x = A.spec('alignment.propagate_atomic_numbers')
  n = 'alignment.propagate_atomic_numbers'
  p = A.func(n, names=x.f.params()[0])
  A.same('numbers-carried-over', n, p.result, x.result, p.where)
  A.same('equal-grids', 'microscope_utils.AtomicGrid.__eq__', r.result, spec.result, r.where)


def parts(t):
  """The positions and numbers of a grid, each as the list of its joined parts."""
  f = dict(t.args[1]) if t.op == 'new' else {}
  return f.get('atom_positions'), f.get('atomic_numbers')


def detected(A):
  """What each detector reports: every atom found in a class's map with that class's number."""
  for cls, name, ref in (('alignment.ImageAligner', 'process_detection_predictions', 'detectors.aligner_grid'), ('atom_detector.AtomDetector', '__call__', 'detectors.detector_grid')):
    f = A.prog.method(cls, name)
    spec = A.know(A.spec(ref, cls=None if f.is_static else cls))
    names = [p for p in spec.f.params()[0] if p not in ('self', 'cls')]
    r = A.method(cls, name, names=names)
    for k, a, b in zip(HELD, parts(r.result), parts(spec.result)):
      if a is None:
        A.ob('detected-atoms', f'{cls}.{name}: {k}', None, f'returns {T.show(r.result, 4)}', r.where)
      else:
        A.same('detected-atoms', f'{cls}.{name}: {k}', a, b, r.where)
