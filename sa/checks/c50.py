"""The functions that find the silicon are compared, as value graphs, with a reference model: the result and the conditions of the error
are decided for each number of silicon atoms in the grid (none, one, and several)."""
from .. import arr, libnf, terms as T
from ..terms import mk

MIN_OBLIGATIONS = 6
TECHNIQUE = 'value-graph comparison with a reference model by case split on the number of silicon atoms'
FOUND = mk('param', 'positions of the silicon atoms')
ABS = mk('glob', 'numpy.abs')
MAX = mk('glob', 'numpy.maximum')
FLAT = ('reshape', 'flatten', 'ravel', 'squeeze', 'copy')


def is_found(x):
  return x is FOUND or x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0].endswith('graphene.get_silicon_positions')


def with_count(t, n):
  """The value when there are n silicon atoms."""
  k = T.const(n)

  def f(x):
    if x is not FOUND and is_found(x):
      return FOUND
    if x.op == 'not' and is_found(x.args[0]):
      return T.not_(T.TRUE if n else T.FALSE)
    if x.op == 'phi' and is_found(x.args[0]):
      return x.args[1] if n else x.args[2]
    if x.op == 'attr' and is_found(x.args[0]):
      return {'size': T.const(2 * n), 'shape': mk('tuple', k, T.const(2)), 'ndim': T.const(2)}.get(x.args[1])
    if x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0] in ('len', 'numpy.size') and len(x.args[1]) == 1 and is_found(x.args[1][0]):
      return k if x.args[0].args[0] == 'len' else T.const(2 * n)
    return None
  t = T.subst(t, f)

  def g(x):
    if x.op == 'floordiv' and all(T.is_num(a) for a in x.args) and T.cval(x.args[1]):
      return T.const(T.cval(x.args[0]) // T.cval(x.args[1]))
    if x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0] == 'int' and len(x.args[1]) == 1 and T.is_num(x.args[1][0]):
      return T.const(int(T.cval(x.args[1][0])))
    return None
  return T.subst(T.subst(t, g), g)


def row(t):
  """The index of the row of the atoms found that a value is, None when it is not one."""
  while True:
    if t.op == 'mcall' and t.args[0] in FLAT:
      t = t.args[1]
    elif t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] in ('numpy.asarray', 'numpy.array', 'numpy.reshape', 'numpy.ravel', 'numpy.squeeze', 'numpy.copy') and t.args[1]:
      t = t.args[1][0]
    elif t.op == 'item' and t.args[0].op == 'item' and t.args[1] is T.ZERO and t.args[0].args[1].op == 'slice':
      t = t.args[0]
    else:
      break
  if t is FOUND:
    return mk('all')
  if t.op == 'item' and t.args[0] is FOUND:
    i = t.args[1]
    if i.op == 'tuple' and len(i.args) == 2 and i.args[1].op == 'slice':
      i = i.args[0]
    if i.op in ('list', 'tuple') and len(i.args) == 1:
      i = i.args[0]
    return i
  return None


def summary(t):
  """Whether a value is a mean or another summary of the atoms found."""
  while t.op == 'mcall' and t.args[0] in FLAT:
    t = t.args[1]
  if t.op == 'mcall':
    return t.args[0] in ('mean', 'sum', 'min', 'max') and t.args[1] is FOUND
  return t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] in ('numpy.mean', 'numpy.median', 'numpy.average', 'numpy.sum', 'numpy.min', 'numpy.max', 'numpy.amin', 'numpy.amax') and bool(t.args[1]) and t.args[1][0] is FOUND


def nearest(i):
  """What an index minimises, (kind, value)."""
  if i.op == 'call' and i.args[0].op == 'glob':
    n = i.args[0].args[0].rsplit('.', 1)[-1]
    if n in ('argmin', 'argmax'):
      return n, i.args[1][0] if i.args[1] else dict(i.args[2]).get('a')
  if i.op == 'mcall' and i.args[0] in ('argmin', 'argmax'):
    return i.args[0], i.args[1]
  if i.op == 'item' and i.args[1] in (T.ZERO, T.const(-1)):
    b = i.args[0]
    if b.op == 'call' and b.args[0].op == 'glob' and b.args[0].args[0] == 'numpy.argsort' and b.args[1]:
      return ('argmin' if i.args[1] is T.ZERO else 'argmax'), b.args[1][0]
    if b.op == 'mcall' and b.args[0] == 'argsort':
      return ('argmin' if i.args[1] is T.ZERO else 'argmax'), b.args[1]
  return None, None


def elements(t, n):
  """The value element by element."""
  c = arr.Canon({FOUND: (n, 2)})
  try:
    t = c.canon(t)
  except (arr.NoShape, RecursionError):
    return libnf.nf(t)
  return t if t.op == 'arr' else libnf.nf(t)


def kindof(v):
  """Whether what is raised is the documented error, None when that is not known."""
  if v is None:
    return None
  if T.contains(v, lambda y: y.op in ('glob', 'new', 'obj') and 'SiliconNotFoundError' in str(y.args[0])):
    return True
  import builtins
  if T.contains(v, lambda y: y.op == 'glob' and y.args[0] in vars(builtins)):
    return False
  return None


def square_of(e):
  p = T._poly_items(e)
  if len(p) == 1:
    (m, c), = p.items()
    if c == 1 and len(m) == 1 and m[0][1] * 2 == 1:
      return m[0][0]
  return T.power(e, T.const(2))


def known(e):
  """Whether an element is arithmetic over the coordinates of the atoms, so that another form is another value."""
  return all(y.op in ('const', 'poly', 'el', 'add', 'mul', 'pow', 'abs', 'param', 'tuple') or y is FOUND or (y.op == 'call' and y.args[0] in (ABS, MAX)) or y in (ABS, MAX) for y in T.subterms(e))


def check(A):
  A.nf, A.vocab = libnf.nf, True
  r, x = A.func('graphene.get_silicon_positions', names=['grid']), A.know(A.spec('finding.all_of', names=['grid']))
  strip = lambda t: t.args[1] if t.op == 'mcall' and t.args[0] == 'reshape' and t.args[2] == (T.const(-1), T.const(2)) else t
  A.same('silicon-atoms', 'get_silicon_positions', strip(r.result), strip(x.result), r.where)
  name = 'get_single_silicon_position'
  kw = dict(pure=('graphene.get_silicon_positions',), names=['grid'])
  r, x = A.func('graphene.' + name, **kw), A.know(A.spec('finding.one_of', **kw))
  out, ref = r.it.closed(r.result), x.it.closed(x.result)
  fs = {y.args[1] for y in T.subterms(mk('tuple', out, *[r.it.closed(e.guard()) for e in r.events])) if y is not FOUND and is_found(y)}
  A.ob('silicon-atoms', f'{name}: of the grid', True if fs == {(mk('param', 'grid'),)} else None, f'{len(fs)} calls', r.where)
  for n in (0, 1, 2, 3, 5):
    raises = [(with_count(r.it.closed(e.guard()), n), e) for e in r.events if e.kind == 'raise']
    live = [(g, e) for g, e in raises if g is not T.FALSE]
    sure = any(g is T.TRUE for g, e in live)
    text = f'{name}: {n} silicon atom{"s" * (n != 1)}'
    if n == 0:
      A.ob('error-when-none', text, True if sure else None if live else False, f'{len(live)} errors raised', r.where)
      for g, e in live:
        v = r.it.closed(e.d['exc']) if isinstance(e.d.get('exc'), T.Term) else None
        A.ob('error-when-none', f'{text}: kind', kindof(v), T.show(v, 3) if v is not None else '', e.where)
      continue
    A.ob('found', f'{text}: no error', True if not live else False if sure else None, f'{len(live)} errors raised', (live or [(0, r)])[0][1].where)
    t = with_count(out, n)
    i = row(t)
    if i is None:
      A.ob('found', text, False if n > 1 and summary(t) else None, T.show(t, 5)[:200], r.where)
      continue
    kind, v = nearest(i)
    if n == 1:
      A.ob('found', text, True if i.op == 'all' or i is T.ZERO or i is T.const(-1) or kind else None, T.show(t, 4)[:160], r.where)
      continue
    if i.op == 'all' or T.is_num(i) or kind == 'argmax':
      A.ob('found', text, False, f'{T.show(t, 4)[:160]} is not the one nearest the centre of the view', r.where)
      continue
    if kind is None or v is None:
      A.ob('found', text, None, T.show(t, 5)[:200], r.where)
      continue
    want = nearest(row(with_count(ref, n)))[1]
    a, b = elements(v, n), elements(want, n)
    if a.op == 'arr' and b.op == 'arr' and all(known(e) for e in a.args[1]):
      # The nearest by a distance is the nearest by its square.
      square = mk('arr', b.args[0], tuple(square_of(e) for e in b.args[1]), *b.args[2:])
      A.ob('found', text, a in (b, square), f'the smallest of {T.show(a.args[1][0], 6)[:200]}', r.where)
    else:
      A.ob('found', text, None, f'the smallest of {T.show(a, 5)[:200]}', r.where)
