"""Which rows an array holds: the source array or grid, and the masks, indices, concatenations and reorderings applied to its first axis.

rows(t) -> a term (None when it cannot be told):
  rows(X)           one row per atom of the grid X, in its order
  of(X)             one row per element of the array or sequence X, in its order
  pick(R, m)        the rows of R a mask or index m selects
  cat(R1, R2, ...)  one after the other
  reord(name, R)    the same rows in another order
  n(k)              k rows of nothing in particular
  phi(c, R1, R2)
"""
from . import libnf, terms as T
from .terms import mk

FLAT = mk('norow')
SAME = {'numpy.asarray', 'numpy.array', 'numpy.ascontiguousarray', 'numpy.copy', 'numpy.abs', 'numpy.round', 'numpy.around', 'numpy.rint', 'numpy.floor', 'numpy.ceil', 'numpy.clip',
        'numpy.square', 'numpy.sqrt', 'numpy.isfinite', 'numpy.isnan', 'numpy.isin', 'numpy.in1d', 'numpy.logical_not', 'numpy.deg2rad', 'numpy.rad2deg', 'list', 'tuple',
        'numpy.nan_to_num', 'numpy.float32', 'numpy.float64', 'numpy.int32', 'jax.numpy.asarray', 'jax.numpy.array', 'copy.copy', 'copy.deepcopy', 'numpy.exp'}
BOTH = {'numpy.logical_and', 'numpy.logical_or', 'numpy.logical_xor', 'numpy.isclose', 'numpy.equal', 'numpy.not_equal', 'numpy.less', 'numpy.greater', 'numpy.less_equal',
        'numpy.greater_equal', 'numpy.maximum', 'numpy.minimum', 'numpy.hypot', 'numpy.arctan2', 'numpy.add', 'numpy.subtract', 'numpy.multiply', 'numpy.divide'}
ACROSS = {'numpy.all', 'numpy.any', 'numpy.sum', 'numpy.mean', 'numpy.max', 'numpy.min', 'numpy.prod', 'numpy.linalg.norm', 'numpy.argmin', 'numpy.argmax', 'numpy.std', 'numpy.median'}
ORDER = {'numpy.sort', 'numpy.flip', 'numpy.flipud', 'numpy.roll', 'numpy.unique', 'sorted', 'reversed', 'numpy.random.permutation', 'numpy.lib.scimath.sort'}
BLANK = {'numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.full'}
LIKE = {'numpy.zeros_like', 'numpy.ones_like', 'numpy.empty_like', 'numpy.full_like'}
WHERE = {'numpy.where', 'numpy.nonzero', 'numpy.flatnonzero', 'numpy.argwhere'}
RNG = ('uniform', 'normal', 'standard_normal')
FIELDS = ('atom_positions', 'atomic_numbers')


def gname(t):
  return t.args[0].args[0] if t.op == 'call' and t.args[0].op == 'glob' else None


def arg(t, *names, at=0):
  kw = dict(t.args[2])
  for n in names:
    if n in kw:
      return kw[n]
  return t.args[1][at] if len(t.args[1]) > at else None


def gather(ts):
  """The rows shared by the operands of an elementwise operation. An operand of unknown extent may be broadcast along the others."""
  out, unsure = [], []
  for x in ts:
    r = rows(x)
    if r is None:
      if x not in unsure:
        unsure.append(x)
    elif r is not FLAT and r not in out:
      out.append(r)
  if len(out) == 1:
    return out[0]
  if not out and len(unsure) == 1:
    return mk('of', unsure[0])
  return None if out or unsure else FLAT


def is_index_mask(i):
  return i.op in ('lt0', 'eq', 'not', 'and', 'or') or gname(i) in ('numpy.all', 'numpy.any', 'numpy.isin', 'numpy.logical_and', 'numpy.logical_or', 'numpy.isclose', 'numpy.logical_not')


def selector(i):
  """The mask an index stands for."""
  if gname(i) in WHERE and arg(i, 'x', at=1) is None:
    return arg(i, 'condition', 'a')
  if i.op == 'item' and gname(i.args[0]) in WHERE and T.is_const(i.args[1]) and T.cval(i.args[1]) == 0:
    return arg(i.args[0], 'condition', 'a')
  return i


def pick(r, i):
  return None if r is None else mk('pick', r, selector(i))


def of_len(l):
  if gname(l) == 'len' and len(l.args[1]) == 1:
    s = l.args[1][0]
    r = rows(s)
    return r if r is not None and r is not FLAT else mk('of', s)
  if l.op == 'phi':
    a, b = of_len(l.args[1]), of_len(l.args[2])
    return None if a is None or b is None else T.phi(l.args[0], a, b)
  if T.is_num(l):
    return mk('n', l)
  if l.op in ('tuple', 'list'):
    return of_len(l.args[0]) if l.args else FLAT
  if l.op == 'item' and l.args[0].op == 'attr' and l.args[0].args[1] == 'shape' and T.is_const(l.args[1]) and T.cval(l.args[1]) == 0:
    return of_len(libnf.length(l.args[0].args[0]))
  if l.op == 'attr' and l.args[1] == 'size' and l.args[0].op == 'attr' and l.args[0].args[1] == 'atomic_numbers':
    return mk('rows', l.args[0].args[0])
  if l.op == 'attr' and l.args[1] == 'shape':
    return of_len(libnf.length(l.args[0]))
  return None


def rows(t):
  op = t.op
  if op == 'const':
    return FLAT
  if op == 'attr':
    if t.args[1] in FIELDS:
      return mk('rows', t.args[0])
    return FLAT if t.args[1] in ('shape', 'coords', 'size', 'ndim') else None
  if op == 'poly':
    return gather(T.poly_bases(t))
  if op in ('lt0', 'eq', 'not', 'and', 'or', 'ne', 'floordiv', 'mod', 'xor'):
    return gather([x for x in T.children(t)])
  if op == 'rec':
    return FLAT
  if op == 'phi':
    a, b = rows(t.args[1]), rows(t.args[2])
    if a is None or b is None:
      return None
    return T.phi(t.args[0], a, b)
  if op in ('rot', 'matmul'):
    return gather(t.args[:1])
  if op in ('seqcopy', 'mutfree'):
    return rows(t.args[0])
  if op in ('mapa', 'mapl'):
    return of_len(t.args[1])
  if op == 'mapf':
    r = of_len(t.args[1])
    return None if r is None else mk('pick', r, mk('lam', t.args[0], t.args[3])) if len(t.args) > 3 else None
  if op == 'repeat':
    return of_len(t.args[0]) if t.args[1].op in ('list', 'tuple') and len(t.args[1].args) == 1 else None
  if op == 'store':
    return rows(t.args[0])
  if op == 'fill' and len(t.args) == 4:
    r = rows(t.args[2])
    for ix, _ in t.args[3]:
      ix = ix.args[0] if ix.op == 'tuple' and ix.args else ix
      if r is not None and ix.op != 'bv' and not is_index_mask(selector(ix)) and any(x.op == 'bv' and x.args[0] == t.args[0] for x in T.subterms(ix)):
        return mk('reord', 'writes at ' + T.show(ix, 5), r)
    return r
  if op == 'fold':
    return folded(t)
  if op in ('list', 'tuple'):
    return mk('n', T.const(len(t.args)))
  if op == 'concat':
    return cat(t.args)
  if op == 'mutated':
    r = rows(t.args[0])
    if t.args[1] in ('sort', 'shuffle', 'reverse', 'permute'):
      return None if r is None else mk('reord', t.args[1], r)
    if t.args[1] in ('fill',):
      return r
    return None
  if op == 'item':
    return indexed(t.args[0], t.args[1])
  g = gname(t)
  if g in SAME:
    x = arg(t, 'a', 'x')
    if x is None and len(t.args[2]) >= 1:
      x = t.args[2][0][1]
    return rows(x) if x is not None else None
  if g in BOTH:
    return gather(list(t.args[1]) + [v for _, v in t.args[2]])
  if g in ACROSS:
    kw = dict(t.args[2])
    ax, x = kw.get('axis'), arg(t, 'a', 'x')
    if ax is None or x is None:
      return FLAT
    if T.is_const(ax) and T.cval(ax) in (1, -1):
      return rows(x) if not wide(x) else None
    return None if not (T.is_const(ax) and T.cval(ax) == 0) else FLAT
  if g in ORDER:
    r = rows(arg(t, 'a', 'm', 'x', 'ar')) if arg(t, 'a', 'm', 'x', 'ar') is not None else None
    return None if r is None or r is FLAT else mk('reord', g, r)
  if g in ('numpy.concatenate', 'numpy.vstack', 'numpy.hstack', 'numpy.r_'):
    ax = dict(t.args[2]).get('axis')
    x = arg(t, 'arrays', 'tup')
    if x is None or x.op not in ('list', 'tuple') or (ax is not None and not (T.is_const(ax) and T.cval(ax) == 0)):
      return None
    return cat(x.args)
  if op == 'mcall' and t.args[0] in RNG:
    s = dict(t.args[3]).get('size') if len(t.args) > 3 and isinstance(t.args[3], tuple) else None
    if s is None:
      return FLAT if not t.args[2] and not any(k == 'size' for k, _ in (t.args[3] if len(t.args) > 3 and isinstance(t.args[3], tuple) else ())) else None
    if s.op in ('tuple', 'list') and s.args and T.is_num(s.args[0]):
      return FLAT if T.cval(s.args[0]) == 1 or len(s.args) == 1 else None
    return None
  if g in ('numpy.stack', 'numpy.column_stack'):
    x = arg(t, 'arrays', 'tup')
    if x is None or x.op not in ('list', 'tuple') or (g == 'numpy.stack' and dict(t.args[2]).get('axis') not in (T.const(1), T.const(-1))):
      return None
    return gather(x.args)
  if g in BLANK:
    s = arg(t, 'shape')
    return of_len(s) if s is not None else None
  if g in LIKE:
    x = arg(t, 'a')
    return rows(x) if x is not None else None
  if g == 'numpy.where' and arg(t, 'x', at=1) is not None:
    return gather([arg(t, 'condition'), arg(t, 'x', at=1), arg(t, 'y', at=2)])
  if g == 'numpy.take':
    return indexed(arg(t, 'a'), arg(t, 'indices', at=1)) if arg(t, 'axis', at=2) in (None, T.const(0)) else None
  if g in ('numpy.compress', 'numpy.extract'):
    return indexed(arg(t, 'a', 'arr', at=1), arg(t, 'condition'))
  if g == 'numpy.delete':
    r = rows(arg(t, 'arr'))
    return None if r in (None, FLAT) else mk('pick', r, mk('except', arg(t, 'obj', at=1)))
  if op == 'mcall' and len(t.args) >= 3:
    n, recv = t.args[0], t.args[1]
    if n in ('astype', 'copy', 'tolist', 'round', 'clip', 'view'):
      return rows(recv)
    if n == 'reshape':
      a = t.args[2]
      a = a[0].args if len(a) == 1 and a[0].op in ('tuple', 'list') else a
      if a and T.is_const(a[0]) and T.cval(a[0]) == 1:
        return FLAT
      if len(a) == 2 and T.is_const(a[0]) and T.cval(a[0]) == -1:
        return rows(recv)
      return FLAT if len(a) == 1 else None
  return None


def wide(x):
  """Whether an intermediate pairs the rows of two arrays (x[:, None] - y[None])."""
  if x.op == 'item':
    i = x.args[1]
    return i is T.NONE or (i.op == 'tuple' and any(z is T.NONE for z in i.args)) or wide(x.args[0])
  if x.op == 'poly':
    return any(wide(y) for y in T.poly_bases(x))
  if x.op in ('lt0', 'eq', 'not', 'and', 'or', 'pow', 'phi'):
    return any(wide(y) for y in T.children(x))
  g = gname(x)
  if g == 'numpy.expand_dims':
    return True
  if g in SAME | ACROSS | BOTH:
    return any(wide(y) for y in list(x.args[1]) + [v for _, v in x.args[2]])
  if x.op == 'mcall' and x.args[0] in ('astype', 'copy'):
    return wide(x.args[1])
  return False


def cat(parts):
  out = []
  for p in parts:
    r = rows(p)
    if r is None:
      return None
    out += list(r.args) if r.op == 'cat' else [r]
  return mk('cat', *out)


def folded(t):
  inits = [x.args[0] for x in T.subterms(t) if x.op == 'init' and len(x.args) == 1 and isinstance(x.args[0], T.Term)]
  if any(x.op == 'concat' or gname(x) in ('numpy.concatenate', 'numpy.append', 'numpy.delete') for x in T.subterms(t)):
    return None
  rs = []
  for x in inits:
    r = rows(x)
    if r is None:
      return None
    if r is not FLAT and r not in rs:
      rs.append(r)
  return rs[0] if len(rs) == 1 else None


def indexed(b, i):
  r = rows(b)
  if r is FLAT or i is None:
    return r if i is not None and i.op == 'slice' else None
  if r is None:
    if i.op != 'slice' and not is_index_mask(i):
      return None
    r = mk('of', b)
  if i.op == 'tuple':
    if not i.args or any(x is T.NONE for x in i.args):
      return None
    i = i.args[0]
    if i.op == 'const' and i is not T.NONE and not T.is_num(i):
      return r                       # an ellipsis
  if i.op == 'slice':
    return r if libnf.full(i) else mk('pick', r, i)
  if i is T.NONE:
    return None
  if T.is_num(i) or i.op in ('ix', 'bv') or (gname(i) in ('numpy.argmin', 'numpy.argmax') and dict(i.args[2]).get('axis') is None):
    return FLAT
  if i.op == 'poly' and rows(i) is FLAT:
    return FLAT
  return mk('pick', r, selector(i))


def uniform(t):
  """Whether every row holds the same value, so that only their number matters."""
  if t.op in ('repeat',) or gname(t) in BLANK | LIKE:
    return True
  if gname(t) in SAME and t.args[2] + t.args[1]:
    x = arg(t, 'a', 'x')
    return x is not None and uniform(x)
  if t.op == 'mcall' and t.args[0] in ('astype', 'copy'):
    return uniform(t.args[1])
  if t.op in ('store', 'poly'):
    return uniform(t.args[0]) if t.op == 'store' else all(uniform(x) or x.op == 'const' for x in T.poly_bases(t))
  return False


def unordered(r):
  """The rows up to their order."""
  if r.op == 'reord':
    return unordered(r.args[1])
  if r.op == 'pick' and (gname(r.args[1]) in ('numpy.argsort', 'numpy.random.permutation') or (r.args[1].op == 'mcall' and r.args[1].args[0] == 'permutation')):
    return unordered(r.args[0])
  if r.op == 'pick':
    return mk('pick', unordered(r.args[0]), r.args[1])
  if r.op == 'phi':
    return T.phi(r.args[0], unordered(r.args[1]), unordered(r.args[2]))
  return r
