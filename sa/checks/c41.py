"""The generated sheet: the array expression of the lattice is evaluated at symbolic index pairs (period times a symbol plus a remainder,
for every remainder of the strides it uses), which gives each kept site as an affine function of the indices.  The distances between the sites
are then exact constants: each kept site must have exactly three kept neighbours, all at distance one, and none nearer.  What
is done to the lattice afterwards must be a scaling by the bond length, shifts common to all atoms, and a rotation; the random shift and angle are
drawn from the caller's generator within their ranges (interval of the draws)."""
import math
from fractions import Fraction

from .. import libnf, terms as T
from ..core import field
from ..prog import AnalysisBroken, PKG
from ..terms import mk, const
from .c36 import is_glob, plain

MIN_OBLIGATIONS = 8
TECHNIQUE = 'abstract evaluation of the lattice expression on residue classes of its indices (strided-array domain), exact neighbour distances; similarity-transform analysis of what follows'
INF = 'infinite'
L = 12


class NoGrid(Exception):
  pass


SHEETS = ('generate_pristine_graphene', 'canonical_pristine_graphene_with_centered_silicon')


def grid_function(A):
  """The name of the function that generates the lattice: the one function of the module that both sheets call."""
  name = '_generate_hexagonal_grid'
  import ast
  try:
    A.prog.func(f'graphene.{name}')
    return name
  except AnalysisBroken:
    calls = []
    for f in SHEETS:
      calls.append({n.func.id for n in ast.walk(A.prog.func(f'graphene.{f}').node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)})
    both = []
    for n in sorted(calls[0] & calls[1]):
      try:
        if A.prog.func(f'graphene.{n}').node.args.args:
          both.append(n)
      except AnalysisBroken:
        pass
    if len(both) != 1:
      raise
    return both[0]


def check(A):
  A.nf, A.vocab = libnf.nf, False
  r = A.func(f'graphene.{grid_function(A)}', names=['num_cols'])
  lat = plain(r.it.closed(r.result))
  lattice(A, r, lat)
  sheets(A, lat)
  silicon(A, lat)


# ---------------------------------------------------------------- lattice

class Lin:
  """a * symbol + b for an index."""
  def __init__(self, name, a, b):
    self.name, self.a, self.b = name, a, b

  def term(self):
    return T.add(T.mul(const(self.a), mk('param', self.name)), const(self.b))

  def mod(self, k):
    return self.b % k if self.a % k == 0 else None


class At:
  """Evaluation of two-dimensional array expressions at one index pair."""
  def __init__(self, p, q):
    self.ix = (p, q)

  def elt(self, t, ix=None, rank=2):
    ix = self.ix if ix is None else ix
    if T.is_num(t) or t.op == 'param':
      return t
    if is_glob(t, 'inf'):
      return INF
    if t.op == 'const':
      return INF if isinstance(T.cval(t), float) and math.isinf(T.cval(t)) else t
    if t.op == 'poly':
      out = T.ZERO
      for c, m in T.poly_terms(t):
        x = const(c)
        for b, e in m:
          v = self.elt(b, ix)
          if v is INF:
            return INF
          x = T.mul(x, T.power(v, const(e)))
        out = T.add(out, x)
      return out
    if t.op == 'mcall' and t.args[0] in ('astype', 'copy', 'view'):
      return self.elt(t.args[1], ix)
    if t.op in ('init', 'fresh', 'copy', 'copied') and isinstance(t.args[0], T.Term):
      return self.elt(t.args[0], ix)
    if t.op == 'call' and t.args[1]:
      n = t.args[0].args[0].split('.')[-1] if t.args[0].op == 'glob' else ''
      a, kw = t.args[1], dict(t.args[2])
      if n in ('asarray', 'array', 'float32', 'float64', 'copy', 'ascontiguousarray', 'float'):
        return self.elt(a[0], ix)
      if n == 'where' and len(a) == 3:
        c = self.truth(a[0], ix)
        if c is None:
          raise NoGrid('condition ' + T.show(a[0], 4))
        return self.elt(a[1] if c else a[2], ix)
      if n == 'sqrt':
        return T.power(self.elt(a[0], ix), const(Fraction(1, 2)))
      if n in ('mod', 'remainder') and len(a) == 2:
        return self.modulo(self.elt(a[0], ix), self.elt(a[1], ix))
    if t.op in ('mod', 'fmod') and len(t.args) == 2:
      return self.modulo(self.elt(t.args[0], ix), self.elt(t.args[1], ix))
    if t.op == 'phi':
      c = self.truth(t.args[0], ix)
      if c is not None:
        return self.elt(t.args[1] if c else t.args[2], ix)
    if t.op in ('eq', 'lt', 'le', 'not', 'and', 'or'):
      c = self.truth(t, ix)
      if c is not None:
        return const(int(c))
    if t.op == 'store':
      base, idx, v = t.args
      if idx.op != 'tuple':
        c = None
        try:
          c = self.truth(idx, ix)
        except NoGrid:
          pass
        if c is not None:
          return self.elt(v, ix) if c else self.elt(base, ix)
      k = self.within(idx, ix)
      if k is None:
        return self.elt(base, ix)
      return self.elt(v, k)
    if t.op == 'item':
      return self.item(t, ix)
    raise NoGrid(T.show(t, 4)[:200])

  def modulo(self, v, k):
    if v is INF or not T.is_num(k) or T.cval(k) <= 0:
      raise NoGrid('remainder')
    if T.is_num(v):
      return const(T.cval(v) % T.cval(k))
    # every term with a symbol is a multiple
    b = Fraction(0)
    for c, m in T.poly_terms(v) if v.op == 'poly' else [(Fraction(1), ((v, 1),))]:
      if not m:
        b = Fraction(c)
      elif c % T.cval(k) != 0 or any(e < 0 or Fraction(e).denominator != 1 or x.op != 'param' or x.args[0] not in 'RC' for x, e in m):
        raise NoGrid('remainder of ' + T.show(v, 4))
    return const(b % T.cval(k))

  def index(self, lo, step, x):
    """Position in slice(lo, None, step) of an index, None when outside."""
    m = x.mod(step)
    if m is None:
      raise NoGrid('stride')
    if m != lo % step:
      return None
    if x.a == 0 and x.b < lo:
      return None
    if x.a and x.b + 2 * x.a < lo:          # the symbols are at least two
      raise NoGrid('start of a slice')
    if x.a % step or (x.b - lo) % step:
      raise NoGrid('stride')
    return Lin(x.name, x.a // step, (x.b - lo) // step)

  def within(self, idx, ix):
    """Indices into the selected part, None when the pair is not selected."""
    sl = list(idx.args) if idx.op == 'tuple' else [idx]
    sl += [mk('slice', T.NONE, T.NONE, T.NONE)] * (2 - len(sl))
    if len(sl) != 2:
      raise NoGrid('index ' + T.show(idx, 3))
    out = []
    for s, x in zip(sl, ix):
      if s.op != 'slice':
        raise NoGrid('index ' + T.show(idx, 3))
      lo, hi, st = s.args
      lo = 0 if lo is T.NONE else T.cval(lo) if T.is_num(lo) else None
      st = 1 if st is T.NONE else T.cval(st) if T.is_num(st) else None
      if hi is not T.NONE or lo is None or lo < 0 or st is None or st <= 0:
        raise NoGrid('slice ' + T.show(s, 3))
      k = self.index(int(lo), int(st), x)
      if k is None:
        return None
      out.append(k)
    return tuple(out)

  def item(self, t, ix):
    b, i = t.args
    if b.op == 'call' and T.is_num(i):
      n = b.args[0].args[0].split('.')[-1] if b.args[0].op == 'glob' else ''
      a, kw = b.args[1], dict(b.args[2])
      k = T.cval(i)
      if n == 'meshgrid' and len(a) == 2:
        mode = T.cval(kw['indexing']) if 'indexing' in kw else 'xy'
        x = ix[1 - k] if mode == 'xy' else ix[k]
        return self.line(a[k], x)
      if n == 'indices' and a:
        return ix[k].term()
    sl = list(i.args) if i.op == 'tuple' else [i]
    # one line of values laid out along an axis
    new = [s is T.NONE or is_glob(s, 'newaxis') for s in sl]
    if any(new):
      ax = [x for s, x in zip(sl + [None] * (2 - len(sl)), ix) if not (s is T.NONE or is_glob(s, 'newaxis'))]
      if len(ax) == 1:
        return self.line(b, ax[0])
      raise NoGrid(T.show(t, 3))
    if all(s.op == 'slice' for s in sl):
      out = []
      for s, x in zip(sl + [mk('slice', T.NONE, T.NONE, T.NONE)] * (2 - len(sl)), ix):
        lo, hi, st = s.args
        if hi is not T.NONE or not (lo is T.NONE or T.is_num(lo)) or not (st is T.NONE or T.is_num(st)):
          raise NoGrid(T.show(s, 3))
        lo, st = 0 if lo is T.NONE else int(T.cval(lo)), 1 if st is T.NONE else int(T.cval(st))
        if lo < 0 or st <= 0:
          raise NoGrid(T.show(s, 3))
        out.append(Lin(x.name, x.a * st, x.b * st + lo))
      return self.elt(b, tuple(out))
    raise NoGrid(T.show(t, 4)[:200])

  def line(self, t, x):
    """Element of a one-dimensional array."""
    if t.op == 'call' and is_glob(t.args[0], 'arange'):
      a = t.args[1]
      lo = a[0] if len(a) > 1 else T.ZERO
      st = a[2] if len(a) > 2 else T.ONE
      return T.add(lo, T.mul(st, x.term()))
    if t.op == 'range' and len(t.args) == 1:
      return x.term()
    if t.op == 'poly':
      out = T.ZERO
      for c, m in T.poly_terms(t):
        y = const(c)
        for b, e in m:
          y = T.mul(y, T.power(b if T.is_num(b) else self.line(b, x), const(e)))
        out = T.add(out, y)
      return out
    if t.op == 'mcall' and t.args[0] == 'astype' or t.op == 'init':
      return self.line(t.args[1] if t.op == 'mcall' else t.args[0], x)
    raise NoGrid(T.show(t, 4)[:200])

  def truth(self, t, ix=None):
    """Of a mask at the index pair."""
    if t is T.TRUE or t is T.FALSE:
      return t is T.TRUE
    if t.op == 'not':
      c = self.truth(t.args[0], ix)
      return None if c is None else not c
    if t.op in ('and', 'or') or t.op == 'mcall' and t.args[0] in ('flatten', 'ravel', 'reshape'):
      if t.op == 'mcall':
        return self.truth(t.args[1], ix)
      cs = [self.truth(x, ix) for x in t.args]
      if t.op == 'and':
        return False if False in cs else None if None in cs else True
      return True if True in cs else None if None in cs else False
    if t.op in ('eq', 'ne', 'lt', 'le'):
      a, b = [self.elt(flat(x), ix) for x in t.args]
      if INF in (a, b):
        if t.op in ('eq', 'ne'):
          return (a is b) == (t.op == 'eq')
        return b is INF and a is not INF if t.op == 'lt' else b is INF
      if T.is_num(a) and T.is_num(b):
        x, y = T.cval(a), T.cval(b)
        return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y}[t.op]
      return None
    if t.op == 'call' and t.args[0].op == 'glob' and t.args[1]:
      n = t.args[0].args[0].split('.')[-1]
      a = t.args[1]
      if n in ('isfinite', 'isinf'):
        return (self.elt(flat(a[0]), ix) is INF) == (n == 'isinf')
      if n in ('logical_and', 'logical_or', 'bitwise_and', 'bitwise_or') and len(a) == 2:
        return self.truth(mk('and' if n.endswith('and') else 'or', *a), ix)
      if n in ('logical_not', 'invert'):
        return self.truth(mk('not', a[0]), ix)
      if n in ('equal', 'not_equal') and len(a) == 2:
        return self.truth(mk('eq' if n == 'equal' else 'ne', *a), ix)
      if n in ('ones', 'full', 'ones_like', 'full_like', 'zeros', 'zeros_like'):
        v = T.TRUE if n.startswith('ones') else T.FALSE if n.startswith('zeros') else a[1]
        return self.truth(v, ix)
    if t.op in ('fill', 'init') and isinstance(t.args[-1], T.Term):
      return self.truth(t.args[-1], ix)
    if t.op == 'store':
      ix = self.ix if ix is None else ix
      k = self.within(t.args[1], ix)
      return self.truth(t.args[0], ix) if k is None else self.truth(t.args[2], k)
    if t.op == 'xor' or t.op == 'mcall':
      return None
    if T.is_num(t):
      return bool(T.cval(t))
    return None


def flat(t):
  """An array whose elements are taken in order, before it was made one-dimensional."""
  t0 = None
  while t0 is not t:
    t0 = t
    if t.op == 'mcall' and (t.args[0] in ('flatten', 'ravel') or t.args[0] == 'reshape' and t.args[2] and t.args[2][-1] is const(-1) and len(t.args[2]) == 1):
      t = t.args[1]
    elif t.op == 'call' and is_glob(t.args[0], 'ravel'):
      t = t.args[1][0]
  return t


def columns(t):
  """[(array, mask)] of the x and y column of the result."""
  if t.op == 'call' and t.args[0].op == 'glob' and t.args[1]:
    n, a, kw = t.args[0].args[0].split('.')[-1], t.args[1], dict(t.args[2])
    ax = kw.get('axis') or (a[1] if len(a) > 1 else None)
    if n == 'column_stack' or n == 'stack' and ax is not None and T.is_num(ax) and T.cval(ax) in (1, -1):
      if a[0].op in ('tuple', 'list') and len(a[0].args) == 2:
        return [masked(x) for x in a[0].args]
    if n == 'transpose':
      return columns(mk('attr', a[0], 'T'))
    if n in ('asarray', 'array'):
      return columns(a[0])
  if t.op == 'mcall' and t.args[0] in ('astype', 'copy'):
    return columns(t.args[1])
  if t.op == 'attr' and t.args[1] == 'T':
    b = t.args[0]
    if b.op == 'call' and is_glob(b.args[0], 'stack') and len(b.args[1]) == 1 and not b.args[2] or b.op == 'call' and (is_glob(b.args[0], 'vstack') or is_glob(b.args[0], 'asarray') or is_glob(b.args[0], 'array')):
      l = b.args[1][0]
      if l.op in ('tuple', 'list') and len(l.args) == 2:
        return [masked(x) for x in l.args]
  if t.op == 'item':
    # rows of both columns selected together
    try:
      inner = columns(t.args[0])
    except NoGrid:
      inner = None
    if inner and all(m is None for _, m in inner):
      m = t.args[1]
      return [(x, selector(m)) for x, _ in inner]
  raise NoGrid('columns of ' + T.show(t, 3)[:200])


def selector(m):
  if m.op == 'call' and (is_glob(m.args[0], 'where') or is_glob(m.args[0], 'flatnonzero')) and len(m.args[1]) == 1:
    return m.args[1][0]
  if m.op == 'item' and T.is_num(m.args[1]) and m.args[0].op == 'call' and (is_glob(m.args[0].args[0], 'where') or is_glob(m.args[0].args[0], 'nonzero')):
    return m.args[0].args[1][0]
  if m.op == 'call' and is_glob(m.args[0], 'nonzero'):
    return m.args[1][0]
  return m


def masked(t):
  if t.op == 'mcall' and t.args[0] == 'astype':
    return masked(t.args[1])
  if t.op == 'item' and not T.is_num(t.args[1]) and t.args[1].op not in ('tuple', 'slice'):
    return flat(t.args[0]), selector(t.args[1])
  return flat(t), None


def num(t):
  """Numerical value of a term made of rationals and roots."""
  if T.is_num(t):
    return float(T.cval(t))
  if t.op == 'poly':
    s = 0.0
    for c, m in T.poly_terms(t):
      x = float(c)
      for b, e in m:
        v = num(b)
        if v is None:
          return None
        x *= v ** float(e)
      s += x
    return s
  return None


def site(cols, p, q):
  """(x, y) of the site at an index pair, None where there is none."""
  at = At(p, q)
  keep = []
  for x, m in cols:
    if m is None:
      raise NoGrid('every site is kept')
    keep.append(at.truth(m, at.ix))
  if None in keep:
    raise NoGrid('kept sites')
  if keep[0] != keep[1]:
    raise Mixed()
  if not keep[0]:
    return None
  v = [at.elt(x) for x, _ in cols]
  if INF in v:
    raise Mixed()
  return v


class Mixed(Exception):
  pass


def rounded(t):
  """The value rounded, when it is put through a rounding."""
  if t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] in ('numpy.round', 'numpy.around', 'numpy.rint', 'numpy.floor', 'numpy.ceil', 'numpy.trunc', 'numpy.float16', 'numpy.int32') and t.args[1]:
    return t.args[1][0]
  if t.op == 'mcall' and t.args[0] == 'round':
    return t.args[1]
  return None


def lattice(A, r, t):
  name = '_generate_hexagonal_grid'
  if rounded(t) is not None:
    A.ob('lattice', f'{name}: sites', False, f'the coordinates are rounded: {T.show(t, 2)[:120]}', r.where)
    return
  try:
    cols = columns(t)
    inner, edge = {}, {}
    for i in range(-L, 2 * L):
      for j in range(-L, 2 * L):
        inner[i, j] = site(cols, Lin('R', L, i), Lin('C', L, j))
    for i in range(L):
      for j in range(L):
        edge[i, j] = site(cols, Lin('R', 0, i), Lin('C', 0, j))
  except Mixed:
    A.ob('lattice', f'{name}: columns', False, 'x and y coordinates of different sites are kept', r.where)
    return
  except NoGrid as e:
    A.ob('lattice', f'{name}: sites', None, f'not read: {e}', r.where)
    return
  A.ob('lattice', f'{name}: columns', True, 'x and y are kept at the same sites', r.where)
  # the sites near the edge follow the same pattern
  sym = {'R': T.ZERO, 'C': T.ZERO}
  first = {k: None if v is None else [T.subst(x, lambda z: sym.get(z.args[0]) if z.op == 'param' and z.args[0] in sym else None) for x in v] for k, v in inner.items()}
  same = all((first[k] is None) == (v is None) and (v is None or all(T.rat_equal(a, b) for a, b in zip(first[k], v))) for k, v in edge.items())
  A.ob('lattice', f'{name}: edge', same, 'the first rows and columns follow the pattern of the others', r.where)
  bad, far = [], []
  n = 0
  for i in range(L):
    for j in range(L):
      if inner[i, j] is None:
        continue
      n += 1
      ds = []
      for (a, b), s in inner.items():
        if s is None or (a, b) == (i, j):
          continue
        dx, dy = (num(T.sub(s[k], inner[i, j][k])) for k in (0, 1))
        if dx is None or dy is None:
          A.ob('lattice', f'{name}: distances', None, 'a distance depends on the position', r.where)
          return
        ds.append(math.hypot(dx, dy))
      ds = sorted(ds)[:4]
      if abs(ds[0] - 1) > 1e-9 or abs(ds[2] - 1) > 1e-9:
        far.append((i, j, ds[:3]))
      if ds[3] < 1 + 1e-9:
        bad.append((i, j, ds))
  A.ob('lattice', f'{name}: bonds', n > 0 and not far, f'{n} sites of {L * L} kept' + (f'; at {far[0][:2]} the nearest are {[round(x, 4) for x in far[0][2]]}' if far else ', the three nearest at distance one'), r.where)
  A.ob('lattice', f'{name}: three neighbours', not bad, f'no fourth neighbour' if not bad else f'a fourth neighbour at {bad[0][:2]}', r.where)
  period(A, r, name, inner)
  extent(A, r, name, cols)


def period(A, r, name, inner):
  """Whole periods apart, sites are whole periods apart in the plane (so the neighbourhoods above are complete)."""
  k = next(k for k, v in inner.items() if v is not None)
  v = inner[k]
  got = []
  for s in 'RC':
    sym = mk('param', s)
    got.append([num(T.sub(T.subst(x, lambda z: T.add(sym, T.ONE) if z is sym else None), x)) for x in v])
  ok = None not in got[0] + got[1] and min(math.hypot(*got[0]), math.hypot(*got[1])) > 4 and abs(got[0][0] * got[1][1] - got[0][1] * got[1][0]) > 16
  A.ob('lattice', f'{name}: period', ok, f'{L} rows up is {got[0]}, {L} columns along is {got[1]}', r.where)


def extent(A, r, name, cols):
  """As wide and as high as asked for."""
  rows = {x for c, _ in cols for x in T.subterms(c) if x.op == 'call' and is_glob(x.args[0], 'meshgrid') and len(x.args[1]) == 2}
  ns = set()
  for m in rows:
    kw = dict(m.args[2])
    a = [x.args[1][-1] if x.op == 'call' and is_glob(x.args[0], 'arange') and len(x.args[1]) == 1 else x.args[0] if x.op == 'range' else None for x in m.args[1]]
    if None in a:
      return
    if T.cval(kw['indexing']) == 'ij' if 'indexing' in kw else False:
      a = a[::-1]
    ns.add(tuple(a))
  if len(ns) != 1:
    return
  n, m = next(iter(ns))
  p = mk('param', 'num_cols')
  A.ob('size', f'{name}: columns', n is p or (False if T.contains_term(n, p) and n.op in ('poly', 'floordiv') or T.is_num(n) else None), T.show(n, 5), r.where)
  want = T.mul(const(2), T.mul(p, T.power(const(3), const(Fraction(-1, 2)))))
  inner = m.args[1][0] if m.op == 'call' and m.args[1] else m.args[0] if m.op in ('int', 'floor') else m
  cut = m.op == 'call' and m.args[0].op == 'glob' and m.args[0].args[0].split('.')[-1] in ('min', 'minimum') and any(T.is_num(x) for x in m.args[1]) and any(T.contains_term(x, p) for x in m.args[1])
  cut = cut or m.op == 'min' and any(T.is_num(x) for x in m.args) and any(T.contains_term(x, p) for x in m.args)
  A.ob('size', f'{name}: rows', False if cut else True if T.rat_equal(inner, want) else None if not T.contains_term(m, p) or inner.op != 'poly' else False, f'{T.show(m, 6)}', r.where)


# ---------------------------------------------------------------- what follows

def similar(t, lat):
  """(scale, addends, rotations) of a value made from the lattice by scaling, shifts and rotations, or NoGrid."""
  if t is lat:
    return T.ONE, [], []
  if t.op == 'rot' or t.op == 'matmul':
    if t.op == 'matmul':
      m = libnf.matrix(t.args[1])
      a = libnf.rotation(m) if m else None
      if a is None:
        raise Skew(t) if m else NoGrid(T.show(t, 3))
    s, add, rots = similar(t.args[0], lat)
    return s, add, rots + [t.args[1]]
  if t.op == 'poly':
    s, add, rots = None, [], []
    for c, m in T.poly_terms(t):
      whole = [b for b, e in m if e == 1 and T.contains_term(b, lat) and not common(b) and not (b.op == 'mcall' and b.args[0] in DRAWS)]
      if len(whole) == 1:
        rest = const(c)
        for b, e in m:
          if b is not whole[0]:
            rest = T.mul(rest, T.power(b, const(e)))
        if T.contains_term(rest, lat):
          raise NoGrid(T.show(rest, 3))
        s2, a2, r2 = similar(whole[0], lat)
        if s is not None:
          raise NoGrid('sum of sheets')
        s, add, rots = T.mul(s2, rest), add + a2, rots + r2
      else:
        x = mk('poly', ((c, m),)) if False else T.const(c)
        for b, e in m:
          x = T.mul(x, T.power(b, const(e)))
        add.append(x)
    if s is None:
      raise NoGrid(T.show(t, 3))
    return s, add, rots
  if t.op == 'mcall' and t.args[0] in ('copy', 'astype') or t.op == 'init':
    return similar(t.args[1] if t.op == 'mcall' else t.args[0], lat)
  raise NoGrid(T.show(t, 4)[:200])


class Skew(Exception):
  pass


def compared(t):
  """Whether rows are selected by comparing values of the sheet with numbers."""
  i = t.args[1]
  return i.op in ('lt0', 'le0', 'lt', 'le') and T.contains(i, lambda x: x.op == 'call' or x.op == 'mcall') or i.op in ('and', 'or') and all(x.op in ('lt0', 'le0', 'lt', 'le') for x in i.args)


def common(t):
  """Whether a value is the same for every atom."""
  if t.op == 'call' and t.args[0].op == 'glob':
    n, kw = t.args[0].args[0].split('.')[-1], dict(t.args[2])
    ax = kw.get('axis') or (t.args[1][1] if len(t.args[1]) > 1 else None)
    if n in ('mean', 'median', 'min', 'max', 'amin', 'amax', 'sum') and (ax is T.ZERO or ax is None):
      return True
  if t.op == 'mcall' and t.args[0] in ('mean', 'min', 'max', 'sum'):
    ax = dict(t.args[3]).get('axis') or (t.args[2][0] if t.args[2] else None)
    return ax is T.ZERO
  if t.op == 'mcall' and t.args[0] == 'reshape':
    return common(t.args[1])
  if t.op == 'item':
    i = t.args[1]
    if i is T.NONE or i.op == 'tuple' and T.NONE in i.args:
      return common(t.args[0])
    i = i.args[0] if i.op == 'tuple' and i.args else i
    return numbered(i) or i.op == 'call' and i.args[0].op == 'glob' and i.args[0].args[0].split('.')[-1] == 'argmin'
  if t.op == 'poly':
    return all(any(common(b) for b, e in m) or not m for _, m in T.poly_terms(t))
  return one_row(t) is True


def numbered(i):
  """Whether an index is a number, or a fraction of the number of rows."""
  if i.op == 'floordiv':
    return numbered(i.args[0]) and T.is_num(i.args[1])
  return T.is_num(i) or i.op == 'call' and is_glob(i.args[0], 'len') or i.op == 'item' and i.args[0].op == 'attr' and i.args[0].args[1] == 'shape'


def one_row(t):
  """Whether a drawn array has one row."""
  if t.op == 'mcall' and t.args[0] in DRAWS:
    size = dict(t.args[3]).get('size') or (t.args[2][2] if len(t.args[2]) > 2 else None)
    if size is None:
      return None
    if T.is_num(size):
      return T.cval(size) == 2
    if size.op in ('tuple', 'list'):
      d = [T.cval(x) if T.is_num(x) else None for x in size.args]
      return d in ([2], [1, 2])
    if size.op == 'attr' and size.args[1] == 'shape':
      return False
  return None


DRAWS = ('uniform', 'normal', 'random', 'integers', 'standard_normal', 'exponential')


def draws(t, name):
  return [x for x in T.subterms(t) if x.op == 'mcall' and x.args[0] in DRAWS]


def bounds(t):
  kw = dict(t.args[3])
  a = list(t.args[2])
  lo = kw.get('low') or (a[0] if a else T.ZERO)
  hi = kw.get('high') or (a[1] if len(a) > 1 else T.ONE)
  return lo, hi


def value(t):
  """Numerical value with pi."""
  t = T.subst(t, lambda x: const(Fraction(math.pi)) if is_glob(x, 'numpy.pi') or is_glob(x, 'math.pi') else None)
  return num(t)


def bond(A):
  m = A.prog.modules.get(f'{PKG}.constants')
  import ast
  for n in m.tree.body if m else []:
    if isinstance(n, (ast.Assign, ast.AnnAssign)):
      tg = n.targets[0] if isinstance(n, ast.Assign) else n.target
      if isinstance(tg, ast.Name) and tg.id == 'CARBON_BOND_DISTANCE_ANGSTROMS':
        try:
          return Fraction(str(ast.literal_eval(n.value)))
        except ValueError:
          return None
  return None


def resolved(A, lat, t):
  """With the lattice generated for the number of columns asked for as one value."""
  cols = [x for x in T.subterms(t) if x.op == 'param' and x.args[0] == 'num_columns']
  here = T.subst(lat, lambda x: mk('param', 'num_columns') if x.op == 'param' and x.args[0] == 'num_cols' else None)
  mark = mk('param', '<lattice>')
  return T.subst(t, lambda x: mark if x is here else None), mark


def sheets(A, lat):
  d = bond(A)
  for name, fields in (('generate_pristine_graphene', None), ('canonical_pristine_graphene_with_centered_silicon', 'atom_positions')):
    r = A.func(f'graphene.{name}')
    t = plain(r.it.closed(r.result))
    if fields:
      t = field(t, 'atom_positions') or next((x.args[-1] for x in T.subterms(t) if x.op == 'field'), t)
    t, mark = resolved(A, lat, t)
    if not T.contains_term(t, mark):
      A.ob('sheet', f'{name}: lattice', None, 'the sheet is not made from the lattice of the requested number of columns', r.where)
      continue
    t = libnf.nf(t)
    try:
      s, add, rots = similar(t, mark)
    except Skew as e:
      A.ob('sheet', f'{name}: rotation', False, f'not a rotation: {T.show(e.args[0].args[1], 5)[:200]}', r.where)
      continue
    except NoGrid as e:
      A.ob('sheet', f'{name}: sheet', False if t.op == 'item' and compared(t) or rounded(t) is not None else None, f'not read: {e}', r.where)
      continue
    if s.op == 'phi' and T.contains(s.args[0], lambda x: x.op == 'param') and not T.contains(s.args[0], lambda x: x.op not in ('param', 'const', 'poly', 'lt0', 'le0', 'eq', 'not')):
      vs = [num(x) for x in (s.args[1], s.args[2])]
      if None not in vs and d is not None:
        A.ob('sheet', f'{name}: bond length', all(abs(v - float(d)) < 1e-12 for v in vs), f'lattice scaled by {T.show(s, 4)}, bond length {d}', r.where)
        s = s.args[1]
    v = num(s)
    A.ob('sheet', f'{name}: bond length', None if v is None or d is None else abs(v - float(d)) < 1e-12, f'lattice scaled by {T.show(s, 4)}, bond length {d}', r.where)
    A.ob('sheet', f'{name}: rotations', True, f'{len(rots)}', r.where)
    for x in add:
      c = common(x) or (any(common(b) for _, m in ((T.poly_terms(x)) if x.op == 'poly' else ()) for b, e in m))
      per_atom = any(one_row(y) is False for y in draws(x, name))
      A.ob('sheet', f'{name}: shift', True if c else False if per_atom else None, f'{T.show(x, 3)[:120]}', r.where)
    if fields is None:
      centred(A, r.where, name, t, mark, shifted=True)
      random(A, r, name, t, add, rots, d)


class Unread(Exception):
  pass


def statistic(t):
  """(name, array) of a summary over the atoms, None when a value is not one."""
  while t.op == 'mcall' and t.args[0] == 'reshape' or t.op == 'item' and (t.args[1] is T.NONE or t.args[1].op == 'tuple' and T.NONE in t.args[1].args):
    t = t.args[1] if t.op == 'mcall' else t.args[0]
  if t.op == 'item' and numbered(t.args[1]):
    return 'one atom', t.args[0]
  if t.op == 'call' and t.args[0].op == 'glob':
    n, kw = t.args[0].args[0].split('.')[-1], dict(t.args[2])
    ax = kw.get('axis') or (t.args[1][1] if len(t.args[1]) > 1 else None)
    a = t.args[1][0] if t.args[1] else kw.get('a') or kw.get('x')
  elif t.op == 'mcall':
    n, a = t.args[0], t.args[1]
    ax = dict(t.args[3]).get('axis') or (t.args[2][0] if t.args[2] else None)
  else:
    return None
  if n in ('mean', 'average', 'sum', 'min', 'max', 'amin', 'amax', 'median') and a is not None:
    if ax is T.ZERO:
      return n, a
    if ax is None or T.is_num(ax):
      return f'{n} over the coordinates', a
  return None


def weights(t, lat):
  """(s, k, other, turns): a value is s times the lattice plus k times its mean, both turned alike, plus a random or other shift."""
  if t is lat:
    return T.ONE, T.ZERO, T.ZERO, ()
  if t.op in ('rot', 'matmul'):
    s, k, o, turns = weights(t.args[0], lat)
    return s, k, o, turns + (t.args[1],)
  if t.op == 'init' or t.op == 'mcall' and t.args[0] in ('copy', 'astype'):
    return weights(t.args[1] if t.op == 'mcall' else t.args[0], lat)
  if t.op != 'poly':
    t = mk('poly', ((Fraction(1), ((t, Fraction(1)),)),)) if statistic(t) else t
    if t.op != 'poly':
      raise Unread(T.show(t, 3)[:160])
  s, k, other, turns = T.ZERO, T.ZERO, T.ZERO, None
  for c, m in T.poly_terms(t):
    holds = [b for b, e in m if T.contains_term(b, lat)]
    rest = const(c)
    for b, e in m:
      if b not in holds:
        rest = T.mul(rest, T.power(b, const(e)))
    if not holds:
      other = T.add(other, mk_term(c, m))
      continue
    if len(holds) > 1 or dict(m)[holds[0]] != 1:
      raise Unread(T.show(t, 3)[:160])
    b, = holds
    st = statistic(b)
    if st and st[0] in ('mean', 'average'):
      s2, k2, o2, w = weights(st[1], lat)
      s2, k2 = T.ZERO, T.add(s2, k2)
    elif st:
      other = T.add(other, T.mul(rest, mk('param', f'<{st[0]}>')))
      continue
    else:
      s2, k2, o2, w = weights(b, lat)
    other = T.add(other, T.mul(rest, o2))
    if turns is not None and w != turns:
      raise Unread('turned differently')
    turns = w
    s, k = T.add(s, T.mul(rest, s2)), T.add(k, T.mul(rest, k2))
  return s, k, other, turns or ()


def centred(A, where, name, t, lat, shifted=False):
  """The mean of the lattice is taken off it, as large as the lattice itself."""
  try:
    s, k, other, _ = weights(libnf.nf(t), lat)
  except (Unread, RecursionError) as e:
    A.ob('sheet', f'{name}: centred', None, str(e)[:200], where)
    return
  left = T.add(s, k)
  summary = {x.args[0] for x in T.subterms(other) if x.op == 'param' and str(x.args[0]).startswith('<')}
  if left is T.ZERO:
    ok = True if not summary else None
  elif k is T.ZERO and (len(summary) > 1 or '<median>' in summary):
    ok = None  # the middle of the extent, or a median
  elif T.is_num(left):
    ok = False
  else:
    ok = None
  A.ob('sheet', f'{name}: centred', ok, f'{T.show(s, 3)} of the lattice, {T.show(k, 3)} of its mean{" and " + ", ".join(sorted(summary)) if summary else ""}', where)
  if shifted and not summary and T.contains(t, lambda x: x.op == 'mcall' and x.args[0] in DRAWS and one_row(x)):
    A.ob('sheet', f'{name}: offset', True if draws(other, name) else False, f'shifted by {T.show(other, 4)[:160]}', where)


def random(A, r, name, t, add, rots, d):
  """The shift stays within half a bond, the angle covers a turn, and both come from the caller's generator."""
  for x in [y for a in add for y in draws(a, name)]:
    lo, hi = (value(z) for z in bounds(x)) if x.args[0] == 'uniform' else (None, None)
    own = base(x.args[1]) == 'rng'
    A.ob('random', f'{name}: shift', None if lo is None or hi is None or d is None else own and -float(d) / 2 - 1e-9 <= lo <= hi <= float(d) / 2 + 1e-9, f'from {T.show(x.args[1], 2)} within [{lo}, {hi}]', r.where)
  for a in rots:
    for x in draws(a, name):
      lo, hi = (value(z) for z in bounds(x)) if x.args[0] == 'uniform' else (None, None)
      own = base(x.args[1]) == 'rng'
      A.ob('random', f'{name}: angle', None if lo is None or hi is None else own and abs(hi - lo - 2 * math.pi) < 1e-6, f'from {T.show(x.args[1], 2)} within [{lo}, {hi}]', r.where)


def base(t):
  while t.op in ('at', 'post'):
    t = t.args[0]
  return t.args[0] if t.op == 'param' else None


# ---------------------------------------------------------------- silicon

def silicon(A, lat):
  """The silicon of the canonical sheet is its central atom, and lies on the origin."""
  pure = (f'graphene.{grid_function(A)}',)
  r = A.func('graphene.canonical_pristine_graphene_with_centered_silicon', names=['num_columns'], pure=pure)
  g = plain(r.it.closed(r.result))
  pos, nums = field(g, 'atom_positions'), field(g, 'atomic_numbers')
  if pos is None or nums is None:
    A.ob('silicon', 'canonical: sheet', None, 'fields not known', r.where)
    return
  pos = libnf.nf(pos)
  # the index of the silicon
  idx = {x.args[1] for x in T.subterms(nums) if x.op == 'store' and T.is_num(x.args[2])}
  sub = {x.args[1] for c, m in (T.poly_terms(pos) if pos.op == 'poly' else ()) for b, e in m for x in T.subterms(b) if x.op == 'item' and c == -1 and len(m) == 1 and (b is x or b.op == 'mcall' and b.args[0] == 'reshape' and b.args[1] is x)}
  idx, sub = {libnf.nf(x) for x in idx}, {libnf.nf(x) for x in sub}
  A.ob('silicon', 'canonical: at the origin', len(idx) == 1 and idx == sub if idx and sub else None, f'silicon at {[T.show(x, 2)[:80] for x in idx]}, origin at {[T.show(x, 2)[:80] for x in sub]}', r.where)
  shift = [mk_term(c, m) for c, m in (T.poly_terms(pos) if pos.op == 'poly' else ()) if any(T.contains(b, lambda y: y.op == 'item' and y.args[1] in idx) for b, _ in m)]
  sheet = pos
  for x in shift:
    sheet = T.sub(sheet, x)
  cols = {x for x in T.subterms(sheet) if x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0].endswith('graphene.' + grid_function(A))}
  if len(cols) == 1:
    centred(A, r.where, 'canonical', sheet, cols.pop())
  for x in idx:
    n = x.args[0].args[0].split('.')[-1] if x.op == 'call' and x.args[0].op == 'glob' else ''
    a = (x.args[1][0] if x.args[1] else dict(x.args[2]).get('a')) if n in ('argmin', 'argmax') else None
    A.ob('silicon', 'canonical: central atom', None if a is None else n == 'argmin' if distance(a, sheet) else None, T.show(x, 5)[:200], r.where)


def mk_term(c, m):
  x = const(c)
  for b, e in m:
    x = T.mul(x, T.power(b, const(e)))
  return x


def distance(t, sheet):
  """Whether a value is the (squared) length of each row."""
  t = libnf.nf(t)
  while t.op == 'poly' and len(T.poly_terms(t)) == 1 and len(T.poly_terms(t)[0][1]) == 1 and T.poly_terms(t)[0][0] > 0:
    t = T.poly_terms(t)[0][1][0][0]
  if t.op == 'call' and t.args[0].op == 'glob':
    n, kw = t.args[0].args[0].split('.')[-1], dict(t.args[2])
    a = t.args[1][0] if t.args[1] else kw.get('a') or kw.get('x')
    ax = kw.get('axis') or (t.args[1][1] if len(t.args[1]) > 1 else None)
    if ax is None or not T.is_num(ax) or T.cval(ax) not in (1, -1):
      return False
    if n == 'norm':
      return True
    if n == 'sum' and a is not None:
      if T.rat_equal(a, libnf.nf(T.power(sheet, const(2)))):
        return True
      if a.op == 'call' and is_glob(a.args[0], 'square'):
        return True
      ts = T.poly_terms(a) if a.op == 'poly' else []
      return len(ts) == 1 and ts[0][0] > 0 and len(ts[0][1]) == 1 and ts[0][1][0][1] == 2
  return False
