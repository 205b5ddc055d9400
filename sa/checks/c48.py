"""The lattice and re-framing steps of the image aligner, compared as value graphs with reference models: arrays of two coordinates are
evaluated component by component, so that neither the spelling of a shift nor the order of its steps matters."""
from .. import arr, libnf, terms as T
from ..terms import mk, const
from ..core import call_label
from .c36 import plain
from .c44 import lengths

MIN_OBLIGATIONS = 4
TECHNIQUE = 'value-graph comparison with reference models, two-component arrays evaluated component by component; ordered effect traces of the calls on external models'
IMG = mk('param', 'frame')
SIZE = tuple(mk('param', n) for n in ('rows', 'columns', 'channels'))


def glob(t, *names):
  return t.op == 'glob' and t.args[0] in names


def of(t):
  return T.subst(libnf.nf(T.subst(lengths_of(plain(T.subst(t, held))), spelled)), spelled)


def lengths_of(t):
  return T.subst(T.subst(libnf.nf(t), lengths), flat)


def bounded(x):
  """Clipping as a minimum of a maximum."""
  if x.op == 'call' and glob(x.args[0], 'min', 'max') and len(x.args[1]) == 2 and not x.args[2]:
    return two(x.args[0].args[0] + 'imum', *[T.subst(y, bounded) for y in x.args[1]])
  if x.op == 'call' and glob(x.args[0], 'numpy.minimum', 'numpy.maximum') and len(x.args[1]) == 2 and not x.args[2]:
    return two(x.args[0].args[0][6:], *[T.subst(y, bounded) for y in x.args[1]])
  if x.op == 'call' and glob(x.args[0], 'numpy.clip') or x.op == 'mcall' and x.args[0] == 'clip':
    n = x.op == 'mcall'
    d = {**dict(zip(('a', 'a_min', 'a_max'), (x.args[1],) * n + x.args[1 + n])), **{{'min': 'a_min', 'max': 'a_max'}.get(k, k): v for k, v in x.args[2 + n]}}
    if set(d) == {'a', 'a_min', 'a_max'} and T.NONE not in d.values():
      a, lo, hi = (T.subst(d[k], bounded) for k in ('a', 'a_min', 'a_max'))
      return two('minimum', two('maximum', a, lo), hi)
  return None


def two(n, a, b):
  return mk('call', mk('glob', 'numpy.' + n), tuple(sorted((a, b), key=T.skey)), (), None)


def nonempty(g):
  """A length is true when the sequence is."""
  if g.op == 'and':
    return T.and_(*[nonempty(c) for c in g.args])
  if g.op == 'not':
    return T.not_(nonempty(g.args[0]))
  return nonempty(g.args[1][0]) if g.op == 'call' and glob(g.args[0], 'len') and len(g.args[1]) == 1 else g


def flat(x):
  """One spelling of a flattened array, of a table of rows, of a truth of an array."""
  if x.op == 'mcall' and x.args[0] in ('flatten', 'ravel') and not x.args[2]:
    return mk('mcall', 'reshape', T.subst(x.args[1], flat), (const(-1),), (), None)
  if x.op == 'call' and glob(x.args[0], 'numpy.ravel'):
    v = x.args[1][0] if x.args[1] else dict(x.args[2]).get('a')
    return mk('mcall', 'reshape', T.subst(v, flat), (const(-1),), (), None) if v is not None else None
  if x.op == 'call' and glob(x.args[0], 'numpy.stack', 'numpy.array', 'numpy.asarray', 'numpy.vstack'):
    kw = dict(x.args[2])
    v = x.args[1][0] if x.args[1] else kw.get('arrays') or kw.get('a')
    if v is not None and v.op in ('mapl', 'mapa') and kw.get('axis', T.ZERO) is T.ZERO and len(x.args[1]) < 2:
      return mk('mapa', *[T.subst(a, flat) if isinstance(a, T.Term) else a for a in v.args])
  return None


def spelled(x):
  if x.op == 'call' and glob(x.args[0], 'numpy.rint', 'numpy.around'):
    return mk('call', mk('glob', 'numpy.round'), *[T.subst(a, spelled) if isinstance(a, T.Term) else tuple(T.subst(y, spelled) if isinstance(y, T.Term) else y for y in a) if isinstance(a, tuple) else a for a in x.args[1:]])
  if x.op == 'eq' and T.ZERO in x.args:
    y = x.args[0] if x.args[1] is T.ZERO else x.args[1]
    if y.op == 'call' and glob(y.args[0], 'numpy.sum') and set(dict(y.args[2])) <= {'a'}:
      v = y.args[1][0] if y.args[1] else dict(y.args[2])['a']
      if v.op in ('and', 'not', 'lt0', 'eq'):
        return T.not_(mk('any', T.subst(v, spelled)))
  if x.op == 'repeat' and T.is_num(x.args[0]) and x.args[1].op in ('tuple', 'list'):
    return mk('tuple', *[T.subst(y, spelled) for y in x.args[1].args] * int(T.cval(x.args[0])))
  if x.op == 'list':
    return mk('tuple', *[T.subst(y, spelled) for y in x.args])
  if x.op == 'store' and x.args[1].op == 'tuple' and len(x.args[1].args) == 2 and x.args[2] is T.FALSE:
    # a truth table whose other columns are cleared
    rows, cols = x.args[1].args
    if rows.op == 'slice' and set(rows.args) == {T.NONE}:
      return T.and_(T.subst(x.args[0], spelled), mk('item', T.subst(T.not_(cols), spelled), T.NONE))
  return None


def held(x):
  """A copy has the value it was taken from."""
  if x.op == 'seqcopy':
    return T.subst(x.args[0], held)
  if x.op == 'call' and glob(x.args[0], 'copy.deepcopy', 'copy.copy', 'numpy.copy') and len(x.args[1]) == 1:
    return T.subst(x.args[1][0], held)
  return None


def framed(t, image):
  """The image with a channel axis is one array of rows x columns x channels; a corner is an array of two numbers; an array updated in place is its elements."""
  def dims(z):
    shape = lambda v: v.op == 'attr' and v.args[0] is image and v.args[1] == 'shape'
    return z is mk('attr', image, 'ndim') or z.op == 'call' and glob(z.args[0], 'len') and len(z.args[1]) == 1 and shape(z.args[1][0])

  def f(x):
    if x.op == 'phi' and image in x.args[1:]:
      at = [T.subst(x.args[0], lambda z: const(n) if dims(z) else None) for n in (2, 3)]
      if at == [T.TRUE, T.FALSE] and x.args[2] is image:
        y = x.args[1]
      elif at == [T.FALSE, T.TRUE] and x.args[1] is image:
        y = x.args[2]
      else:
        return None
      if y.op == 'call' and glob(y.args[0], 'numpy.expand_dims') and dict(y.args[2]).get('axis', y.args[1][-1] if len(y.args[1]) == 2 else None) in (const(-1), const(2)):
        return IMG
      if y.op == 'item' and y.args[0] is image and y.args[1].op == 'tuple' and y.args[1].args[-1] is T.NONE and len(y.args[1].args) in (2, 3):
        return IMG
    return None
  t = T.subst(t, f)

  def g(x):
    if x.op == 'attr' and x.args[0] is IMG and x.args[1] == 'shape':
      return mk('tuple', *SIZE)
    if x.op == 'call' and glob(x.args[0], 'len') and x.args[1] == (IMG,):
      return SIZE[0]
    if x.op == 'init':
      return T.subst(x.args[0], g)
    return None
  t = T.subst(t, g)
  return T.subst(t, folded)


def folded(x):
  if x.op == 'item' and x.args[0].op in ('tuple', 'list') and x.args[1].op == 'slice':
    v = [None if a is T.NONE else T.cval(a) if T.is_num(a) else 'x' for a in x.args[1].args]
    if 'x' not in v:
      return mk(x.args[0].op, *x.args[0].args[slice(*v)])
  return None


def corners(A):
  f = 'alignment.pad_and_crop_images_by_fov'
  names = ['image', 'original_fov', 'new_fov']
  r, s = A.func(f, names=names), A.know(A.spec('lattice.reframe'))
  out = [reframed(x.it.closed(x.result)) for x in (r, s)]
  A.same('re-framing', 'pad_and_crop_images_by_fov', out[0], out[1], r.where)


def either(x):
  """Any of a few conditions."""
  if x.op in ('any', 'all') and x.args[0].op == 'arr' and all(isinstance(d, int) for d in x.args[0].args[0]):
    c = [T.subst(y, either) for y in x.args[0].args[1]]
    out = T.not_(c[0]) if x.op == 'any' else c[0]
    for y in c[1:]:
      out = T.and_(out, T.not_(y) if x.op == 'any' else y)
    return T.not_(out) if x.op == 'any' else out
  return None


def reframed(t):
  image = mk('param', 'image')
  fovs = [mk('param', n) for n in ('original_fov', 'new_fov')]
  shapes = {mk('attr', v, c): (2,) for v in fovs for c in ('lower_left', 'upper_right')}
  shapes.update({x: () for x in SIZE})
  t = T.subst(framed(plain(t), image), bounded)
  held = {mk('attr', c, x): mk('param', f'{c.args[0].args[0]}.{c.args[1]}.{x}') for c in shapes if c.op == 'attr' for x in 'xy'}
  t = T.subst(t, lambda x: held.get(x))
  shapes.update({x: () for x in held.values()})
  cn = arr.Canon(shapes)

  def stored(x):
    """Elements of a short array after its element assignments."""
    if x.op == 'store' and T.is_num(x.args[1]):
      b = T.subst(x.args[0], stored)
      s = cn.known(b)
      if s == (2,):
        i = int(T.cval(x.args[1])) % 2
        e = [mk('item', b, const(k)) for k in (0, 1)]
        e[i] = T.subst(x.args[2], stored)
        return mk('list', *e)
    return None
  t = T.subst(t, stored)
  t = cn.canon(t)
  t = T.subst(t, lambda x: held[mk('attr', x.args[0], 'xy'[int(T.cval(x.args[1]))])] if x.op == 'el' and len(x.args) == 2 and x.args[0] in shapes and x.args[1] in (const(0), const(1)) else None)
  t = T.subst(t, lambda x: x.args[0] if x.op == 'el' and len(x.args) == 1 else None)
  t = T.subst(t, either)
  return of(t)


def system(run, t):
  """A value that a loop builds, with what each carried variable it depends on starts as and becomes, the variables numbered canonically."""
  live, todo, m = {}, [t], {}
  mus = {mu: (li, i, e) for li in run.it.loops.values() for mu, i, e in li.carried.values() if i is not None and e is not None}
  while todo:
    x = todo.pop()
    for y in T.subterms(x):
      if y in mus and y not in live:
        li, i, e = mus[y]
        live[y] = (run.it.closed(i), run.it.closed(e))
        todo += live[y]
  mask = lambda x: T.subst(x, lambda y: mk('mumask') if y in live else None)
  order = sorted(live, key=lambda y: (T.skey(of(live[y][0])), T.skey(of(mask(live[y][1])))))
  for n, y in enumerate(order):
    m[y] = mk('muc', n)
  sub = lambda x: of(T.subst(x, lambda y: m.get(y)))
  return mk('tuple', sub(t), *[mk('tuple', sub(live[y][0]), sub(live[y][1])) for y in order])


def models(e):
  lab = calls(e)
  return lab and tuple(of(x) if isinstance(x, T.Term) else x for x in lab)


calls = call_label({'fit', 'add_nodes_from', 'add_edges_from', 'add_node', 'add_edge', 'remove_node', 'remove_edge', 'partial_fit', 'set_params'}, ())


def check(A):
  A.nf, A.vocab = libnf.nf, True
  corners(A)
  for rule, f, s, names in (('scale', 'get_graphene_scale_factor', 'scale', ['coordinates']), ('merging', 'clique_merge', 'merge', None),
                            ('classes', 'get_lattice_clusterer', 'clusterer', ['grid']), ('classes', 'classify_lattice_types', 'classify', ['grid', 'clusters']),
                            ('classes', 'propagate_graphene_classes', 'outward', ['classes', 'grid'])):
    kw = {'names': names} if names else {}
    r, s = A.func('alignment.' + f, **kw), A.know(A.spec('lattice.' + s))
    A.same(rule, f, *[system(x, x.it.closed(x.result)) for x in (r, s)], r.where)
    if f in ('clique_merge', 'get_lattice_clusterer'):
      A.same_trace('fitted', f, *[[c.under(nonempty(of(c.guard))) for c in x.trace(models)] for x in (r, s)], r.where)
