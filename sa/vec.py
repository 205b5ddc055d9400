"""Component-wise reading of 2-vector / (n, 2)-array expressions."""
from . import terms as T
from .terms import mk, const

PASS = {'numpy.asarray', 'numpy.array', 'numpy.reshape', 'numpy.squeeze', 'numpy.ravel', 'numpy.copy', 'jnp.asarray', 'jnp.array',
        'numpy.atleast_1d', 'numpy.atleast_2d', 'numpy.expand_dims', 'jnp.reshape', 'jnp.squeeze', 'numpy.float32', 'numpy.float64',
        'numpy.ascontiguousarray', 'numpy.broadcast_to'}
PASSM = {'reshape', 'copy', 'astype', 'squeeze', 'ravel', 'flatten', 'view'}
POINT = ('.Point',)


class NoComp(Exception):
  pass


def comp(t, k, scalars=()):
  """Component k (0 = x, 1 = y) of an array expression whose last axis has length two; raises NoComp."""
  if t.op == 'seqcopy':
    return comp(t.args[0], k, scalars)
  if t.op in ('tuple', 'list'):
    if len(t.args) == 2 and not any(is_array(x) for x in t.args):
      return t.args[k]
    if len(t.args) == 1:
      return comp(t.args[0], k, scalars)
    raise NoComp(t)
  if t.op == 'const':
    return t
  if t.op == 'poly':
    out = T.ZERO
    for c, m in T.poly_terms(t):
      x = const(c)
      for a, e in m:
        x = T.mul(x, T.power(comp(a, k, scalars), const(e)))
      out = T.add(out, x)
    return out
  if t in scalars or is_scalar(t):
    return t
  if t.op == 'attr':
    if t.args[1] == 'coords':
      return mk('attr', t.args[0], 'xy'[k])
    if t.args[1] == 'T':
      raise NoComp(t)
    return mk('comp', t, k)
  if t.op == 'param':
    return mk('comp', t, k)
  if t.op == 'call' and t.args[0].op == 'glob':
    n = t.args[0].args[0]
    if n in PASS:
      a = t.args[1][0] if t.args[1] else next((v for q, v in t.args[2] if q in ('a', 'object', 'arr')), None)
      if a is None:
        raise NoComp(t)
      return comp(a, k, scalars)
    if n.endswith(POINT):
      return point(t, k)
  if t.op == 'mcall' and t.args[0] in PASSM:
    return comp(t.args[1], k, scalars)
  if t.op == 'phi':
    return T.phi(t.args[0], comp(t.args[1], k, scalars), comp(t.args[2], k, scalars))
  if t.op == 'item':
    i = t.args[1]
    # [:, None] style / whole-row selection
    if i.op == 'slice' or (i.op == 'tuple' and all(x.op in ('slice',) or x is T.NONE for x in i.args)):
      return comp(t.args[0], k, scalars)
    if i is T.ZERO and t.args[0].op != 'param':
      return comp(t.args[0], k, scalars)
    return mk('comp', t, k)
  raise NoComp(t)


def is_array(t):
  return t.op in ('list', 'tuple', 'mapl', 'concat')


def is_scalar(t):
  """Scalar reads: x.width, array[i, k]-like."""
  if t.op == 'attr' and t.args[1] in ('x', 'y', 'width', 'height'):
    return True
  return False


def point(t, k):
  """Coordinate k of a Point construction (or of a point-valued term)."""
  if t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0].endswith(POINT):
    a = t.args[1]
    if len(a) == 2:
      return norm(a[k])
    if len(a) == 1:
      x = a[0]
      if x.op in ('tuple', 'list') and len(x.args) == 2:
        return norm(x.args[k])
      return norm(comp(x, k))
  if t.op == 'phi':
    return T.phi(t.args[0], point(t.args[1], k), point(t.args[2], k))
  return mk('attr', t, 'xy'[k])


def norm(t):
  """Rewrites element reads array[0, k] / array[k] / point.coords[0][k] into coordinates."""
  def f(x):
    if x.op == 'item':
      b, i = x.args
      k = None
      if T.is_num(i) and T.cval(i) in (0, 1):
        k = T.cval(i)
      elif i.op == 'tuple' and len(i.args) == 2 and i.args[0] is T.ZERO and T.is_num(i.args[1]) and T.cval(i.args[1]) in (0, 1):
        k = T.cval(i.args[1])
      if k is None:
        return None
      if b.op in ('poly', 'call', 'mcall', 'tuple', 'list') or (b.op == 'attr' and b.args[1] == 'coords'):
        if b.op == 'attr' and T.is_num(i):
          return None
        try:
          return comp(b, k)
        except NoComp:
          return None
      if b.op == 'item' and b.args[0].op == 'attr' and b.args[0].args[1] == 'coords' and b.args[1] is T.ZERO:
        return mk('attr', b.args[0].args[0], 'xy'[k])
    return None
  return T.rewrite(t, f)
