"""Selections of rows: a mask over the rows of an array of positions is read as a condition on the two coordinates of a row, so that
testing both axes at once, each in turn, or for the opposite are the same selection."""
from . import terms as T, vec
from .terms import mk, const

FULL = mk('slice', T.NONE, T.NONE, T.NONE)
REDUCE = {'numpy.all': 'all', 'numpy.any': 'any', 'numpy.logical_and.reduce': 'all', 'numpy.logical_or.reduce': 'any'}


class NoRow(Exception):
  pass


def gname(t):
  return t.args[0].args[0] if t.op == 'call' and t.args[0].op == 'glob' else None


def reduced(t):
  """(all or any, what) of a reduction over the coordinates."""
  if gname(t) in REDUCE:
    kw, args, how = dict(t.args[2]), list(t.args[1]), REDUCE[gname(t)]
  elif t.op == 'mcall' and t.args[0] in ('all', 'any'):
    kw, args, how = dict(t.args[3]), [t.args[1]] + list(t.args[2]), t.args[0]
  else:
    return None
  a = kw.get('a', args[0] if args else None)
  ax = kw.get('axis', args[1] if len(args) > 1 else None)
  return (how, a) if a is not None and ax in (const(1), const(-1)) else None


def each(t, leaf):
  if t.op in ('and', 'or'):
    out = [each(a, leaf) for a in t.args]
    r = out[0]
    for x in out[1:]:
      r = T.and_(r, x) if t.op == 'and' else T.or_(r, x)
    return r
  if t.op == 'not':
    return T.not_(each(t.args[0], leaf))
  return leaf(t)


def axis(t, k, scalars):
  def leaf(x):
    if x.op == 'lt0':
      try:
        return T.lt(vec.norm(vec.comp(x.args[0], k, scalars)), T.ZERO)
      except vec.NoComp:
        raise NoRow(x)
    raise NoRow(x)
  return each(t, leaf)


def row(t, scalars=()):
  """The condition on one row."""
  r = reduced(t)
  if r is not None:
    a, b = axis(r[1], 0, scalars), axis(r[1], 1, scalars)
    return T.and_(a, b) if r[0] == 'all' else T.or_(a, b)

  def leaf(x):
    if reduced(x) is not None:
      return row(x, scalars)
    if x.op == 'lt0':
      y = T.rewrite(vec.norm(x.args[0]), column)
      if not T.contains(y, lambda z: z.op == 'comp') or T.contains(T.subst(y, lambda z: T.ZERO if z.op == 'comp' else None), lambda z: z.op == 'attr' and z.args[1] in ('atom_positions', 'coords')):
        raise NoRow(x)
      return T.lt(y, T.ZERO)
    raise NoRow(x)
  if t.op in ('and', 'or', 'not'):
    return each(t, leaf)
  return leaf(t)


def column(x):
  if x.op == 'item' and x.args[1].op == 'tuple' and len(x.args[1].args) == 2 and x.args[1].args[0].op == 'slice' and T.is_num(x.args[1].args[1]):
    return mk('comp', x.args[0], T.cval(x.args[1].args[1]))
  if x.op == 'item' and x.args[0].op == 'attr' and x.args[0].args[1] == 'T' and T.is_num(x.args[1]):
    return mk('comp', x.args[0].args[0], T.cval(x.args[1]))
  return None


def indices(t):
  """The mask whose indices these are."""
  if t.op == 'item' and T.is_num(t.args[1]) and T.cval(t.args[1]) == 0 and gname(t.args[0]) in ('numpy.nonzero', 'numpy.where') and len(t.args[0].args[1]) + len(t.args[0].args[2]) == 1:
    t = t.args[0]
  elif gname(t) != 'numpy.flatnonzero':
    return t
  return (list(t.args[1]) + [v for _, v in t.args[2]])[0]


def masks(t, scalars=()):
  """The term with every selection of rows by a mask in terms of a row's coordinates."""
  def f(x):
    if gname(x) in ('numpy.compress',):
      return None
    if x.op == 'item':
      i = x.args[1]
      if i.op == 'tuple' and len(i.args) == 2 and i.args[1] is FULL:
        i = i.args[0]
      try:
        return mk('item', x.args[0], mk('rows', row(indices(i), scalars)))
      except NoRow:
        return mk('item', x.args[0], i) if i is not x.args[1] else None
    return None
  return T.rewrite(t, f)


def coordinate(t, k, scalars=()):
  """Coordinate k of the selected rows; arithmetic on rows and selecting rows commute."""
  def push(x):
    if x.op == 'comp' and x.args[0].op == 'item' and x.args[0].args[1].op == 'rows' and x.args[0].args[0].op not in ('attr', 'param'):
      z, sel = x.args[0].args
      y = vec.norm(vec.comp(z, x.args[1], scalars))
      return T.subst(y, lambda q: mk('comp', mk('item', q.args[0], sel), q.args[1]) if q.op == 'comp' else None)
    return None
  return T.rewrite(vec.norm(vec.comp(t, k, scalars)), push)
