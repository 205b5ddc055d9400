"""The rates the simulated materials offer: the value graph of each rate function, as a function of grid, beam and its own parameters, is compared
with a reference model (one neighbour, one rate, in the order of the successors); the parameters of a sampled mixture are bounded by interval analysis of
their draws, matched in size, normalised, and must come from the caller's generator."""
from fractions import Fraction

from .. import libnf, terms as T
from ..core import field, map_field, rebind
from ..interval import interval
from ..terms import mk, const
from .c12 import zip_domain
from .c33 import base, lower
from .c36 import plain

MIN_OBLIGATIONS = 5
TECHNIQUE = 'value graphs of the rate functions compared with reference models; interval, shape and provenance analysis of sampled mixture parameters'
G = 'graphene.GaussianMixtureRateFunction'
NAMES = ['grid', 'beam_position', 'silicon_position', 'neighbor_indices']


def is_glob(t, *names):
  return t.op == 'glob' and t.args[0] in names


def orthogonal(t):
  """The inverse of a matrix of orthonormal axes, however it is taken; one transpose spelling."""
  def f(x):
    if x.op == 'call' and is_glob(x.args[0], 'numpy.linalg.pinv', 'numpy.linalg.inv') and len(x.args[1]) == 1:
      return turned(T.subst(x.args[1][0], f))
    if x.op == 'call' and is_glob(x.args[0], 'numpy.transpose') and len(x.args[1]) == 1 and not x.args[2]:
      return turned(T.subst(x.args[1][0], f))
    if x.op == 'attr' and x.args[1] == 'T':
      return turned(T.subst(x.args[0], f))
    if x.op == 'call' and is_glob(x.args[0], 'numpy.column_stack') and len(x.args[1]) == 1:
      return turned(mk('call', mk('glob', 'numpy.vstack'), x.args[1], (), None))
    if x.op == 'call' and is_glob(x.args[0], 'numpy.stack') and dict(x.args[2]).get('axis') in (const(1), const(-1)):
      return turned(mk('call', mk('glob', 'numpy.vstack'), x.args[1], (), None))
    return None
  t = T.subst(t, f)
  return T.subst(t, lambda x: mk('list', *x.args) if x.op == 'tuple' else None)


def turned(m):
  return m.args[0] if m.op == 'attr' and m.args[1] == 'T' else mk('attr', m, 'T')


def highest(t):
  """The maximum of non-negative values kept in a variable that starts at zero."""
  if t.op == 'fold' and len(t.args[2]) == 1 and t.args[2][0][0] is T.ZERO:
    v, rec = t.args[2][0][1], mk('rec', t.args[0], 0)
    got = None
    if v.op == 'call' and is_glob(v.args[0], 'max', 'numpy.maximum') and rec in v.args[1]:
      got = [a for a in v.args[1] if a is not rec]
    elif v.op == 'phi' and rec in v.args[1:] and v.args[0].op == 'lt0':
      x = v.args[1] if v.args[2] is rec else v.args[2]
      if v.args[0] is mk('lt0', T.sub(rec, x)) and v.args[1] is x or v.args[0] is mk('lt0', T.sub(x, rec)) and v.args[2] is x:
        got = [x]
    if got and len(got) == 1 and not T.contains(got[0], lambda z: z is rec):
      return mk('call', mk('glob', 'max'), (mk('mapl', t.args[0], t.args[1], got[0]),), (), None)
  if t.op == 'call' and is_glob(t.args[0], 'numpy.max') and not set(dict(t.args[2])) - {'a'}:
    return mk('call', mk('glob', 'max'), (T.subst(t.args[1][0] if t.args[1] else dict(t.args[2])['a'], highest),), (), None)
  return None


def numbered(t):
  """Bound variables numbered by nesting."""
  return rebind(t.op, t.args[0], T.subst(t.args[1], numbered), T.subst(t.args[2], numbered)) if t.op in ('sum', 'mapl', 'flatmap') and len(t.args) == 3 else None


def lengths(t):
  """A length is the root of a sum of squares."""
  if t.op == 'call' and is_glob(t.args[0], 'numpy.linalg.norm') and set(dict(t.args[2])) <= {'x', 'axis', 'keepdims'} and 'x' in dict(t.args[2]):
    kw = dict(t.args[2])
    x = T.subst(kw.pop('x'), lengths)
    return T.power(mk('call', mk('glob', 'numpy.sum'), (), tuple(sorted({**kw, 'a': T.mul(x, x)}.items(), key=lambda i: i[0])), None), const(Fraction(1, 2)))
  return None


def of(t):
  return T.subst(T.subst(T.subst(orthogonal(libnf.nf(plain(t))), lengths), highest), numbered)


def check(A):
  A.nf, A.vocab = libnf.nf, True
  r, s = A.func('graphene.simple_canonical_rate_function', names=NAMES), A.know(A.spec('priors.inverse_square'))
  A.same('rate', 'simple_canonical_rate_function', of(r.it.closed(r.result)), of(s.it.closed(s.result)), r.where)
  r, s = A.func('graphene.single_silicon_prior_rates', names=['context', 'mean', 'cov', 'max_rate']), A.know(A.spec('priors.prior'))
  A.same('rate', 'single_silicon_prior_rates', of(r.it.closed(r.result)), of(s.it.closed(s.result)), r.where)
  H = 'graphene.HumanPriorRatePredictor'
  r, s = A.method(H, 'predict', names=NAMES), A.know(A.spec('rotations.prior_rates', cls=H))
  A.same('rate', 'HumanPriorRatePredictor.predict', of(r.it.closed(r.result)), of(s.it.closed(s.result)), r.where)
  for c, ref in (('graphene.PristineSingleSiGrRatePredictor', 'paired'), (G, 'mixture')):
    r, s = A.method(c, '__call__', names=['grid', 'beam_position']), A.know(A.spec('priors.' + ref, cls=c))
    ss = field(r.result, 'successor_states')
    got = map_field(ss, 'rate') if ss is not None else None
    if got is None:
      A.ob('successor rates', c.split('.')[-1], None, T.show(r.result, 4), r.where)
    else:
      want = of(s.it.closed(s.result))
      A.same('successor rates', c.split('.')[-1], zip_domain(of(r.it.closed(got)), want), want, r.where)
  sampled(A)
  nearest(A)


def one_row(t):
  """The single row of a one-row table, however it is taken; one spelling of the metric, of a column range and of a one-row query."""
  none = lambda q: q is T.NONE or q is None
  row = lambda x: mk('mcall', 'reshape', x, (const(-1),), (), None)
  def f(x):
    if x.op == 'item' and x.args[1] in (T.ZERO, const(0)) and table(x.args[0]):
      return row(x.args[0])
    if x.op == 'mcall' and x.args[0] in ('ravel', 'flatten', 'squeeze') and table(x.args[1]):
      return row(x.args[1])
    if x.op == 'call' and is_glob(x.args[0], 'numpy.ravel', 'numpy.squeeze', 'numpy.reshape'):
      v = x.args[1][0] if x.args[1] else dict(x.args[2]).get('a')
      return row(v) if v is not None and table(v) else None
    if x.op == 'call' and is_glob(x.args[0], 'numpy.atleast_2d') and len(x.args[1]) == 1:
      return mk('mcall', 'reshape', x.args[1][0], (const(-1), const(2)), (), None)
    if x.op == 'const' and x.args[0] in ('euclidean', 'minkowski'):
      return const('l2')
    if x.op == 'slice' and len(x.args) == 3:
      a, b, c = x.args
      return mk('slice', T.NONE if a in (T.ZERO, const(0)) else a, T.NONE if b is const(4) else b, T.NONE if c is const(1) else c)
    if x.op == 'item' and x.args[1].op == 'tuple' and table(x.args[0]) and len(x.args[1].args) == 2:
      whole = mk('slice', T.NONE, T.NONE, T.NONE)
      a, b = [whole if q is const(Ellipsis) else q for q in x.args[1].args]
      return x.args[0] if a is whole and b is whole else mk('item', x.args[0], mk('tuple', a, b))
    return None
  for _ in range(4):
    n = T.rewrite(t, f)
    if n is t:
      break
    t = n
  return t


def table(t):
  while t.op == 'item':
    t = t.args[0]
  return t.op == 'call' and is_glob(t.args[0], 'numpy.neighbour_distances', 'numpy.neighbour_indices')


def nearest(A):
  """The neighbours the rates are offered for."""
  A.known |= {'numpy.neighbour_distances', 'numpy.neighbour_indices'}
  for flag, name in ((T.TRUE, 'with itself'), (T.FALSE, 'without itself')):
    kw = dict(names=['atom_positions', 'query'], params={'include_self': flag})
    r, s = A.func('geometry.nearest_neighbors3', **kw), A.know(A.spec('priors.nearest', **kw))
    for f in ('neighbor_distances', 'neighbor_indices'):
      a, b = (field(q.it.closed(q.result), f) for q in (r, s))
      if a is None:
        A.ob('nearest neighbours', f'{name}: {f}', None, T.show(r.result, 4), r.where)
      else:
        A.same('nearest neighbours', f'{name}: {f}', one_row(libnf.nf(plain(a))), one_row(libnf.nf(plain(b))), r.where)


def sampled(A):
  """A sampled mixture is a valid one, drawn from the caller's generator."""
  r = A.method(G, 'sample_new', names=['rng'])
  out = r.it.closed(r.result)
  f = {n: field(out, n) for n in ('max_rate', 'mixture_weights', 'loc_distances', 'variances')}
  if any(v is None for v in f.values()):
    A.ob('sampled', 'parameters', None, T.show(out, 4), r.where)
    return
  rng = mk('param', 'rng')
  draws = {n: [x for x in T.subterms(v) if x.op == 'mcall' and x.args[0] not in ('reshape', 'astype', 'sum', 'copy')] for n, v in f.items()}
  for n, v in f.items():
    other = T.contains(v, lambda x: x.op == 'glob' and x.args[0].startswith(('numpy.random.', 'random.', 'jax.random.')))
    A.ob('sampled generator', n, not other and all(root(x.args[1]) is rng for x in draws[n]) if draws[n] or other else None, T.show(v, 4), r.where)
  mix = f['mixture_weights']
  for n in ('max_rate', 'variances'):
    lo = lower(f[n])
    A.ob('sampled range', n, None if lo is None else lo > 0, f'{T.show(f[n], 4)} >= {lo}', r.where)
  w = normalised(mix)
  lo = lower(w) if w is not None else None
  A.ob('sampled weights', 'sum to one', w is not None or (None if odd(mix) else False), T.show(mix, 5), r.where)
  if w is not None:
    A.ob('sampled range', 'mixture_weights', None if lo is None else lo >= 0, f'{T.show(w, 4)} >= {lo}', r.where)
  shapes = {n: shape(v if n != 'mixture_weights' or w is None else w) for n, v in f.items() if n != 'max_rate'}
  if any(not s for s in shapes.values()):
    A.ob('sampled sizes', 'components', None, str({k: [T.show(x, 3) for x in v or ()] for k, v in shapes.items()})[:300], r.where)
    return
  n = shapes['mixture_weights'][0]
  A.ob('sampled sizes', 'components', [len(s) for s in shapes.values()] == [1, 1, 2] and all(s[0] is n for s in shapes.values()) and shapes['variances'][1] is const(2),
       str({k: [T.show(x, 3) for x in v] for k, v in shapes.items()})[:300], r.where)
  least = interval(T.subst(n, lambda x: const(0) if x.op == 'mcall' and x.args[0] == 'poisson' else None))
  A.ob('sampled sizes', 'at least one component', None if least is None else least[0] >= 1, T.show(n, 4), r.where)
  big = list(f.values())
  A.ob('sampled independently', 'parameters', all(not (set(a) & set(b)) for i, a in enumerate([own(x) for x in big]) for b in [own(y) for y in big][i + 1:]), 'no draw used for two parameters', r.where)


def own(t):
  """The draws of a value, not those of its size."""
  out = []
  for x in T.subterms(t):
    if x.op == 'mcall' and x.args[0] in ('uniform', 'normal', 'gamma', 'dirichlet', 'random', 'exponential', 'lognormal', 'beta'):
      out.append(x)
  return out


def root(t):
  while t.op in ('at', 'post'):
    t = t.args[0]
  return t


def odd(t):
  return T.contains(t, lambda x: x.op == 'mcall' and x.args[0] not in ('uniform', 'poisson', 'normal', 'random', 'exponential', 'gamma', 'integers'))


def normalised(t):
  """w for a value w / sum(w)."""
  if t.op == 'mcall' and t.args[0] == 'astype':
    t = t.args[1]
  if t.op == 'poly':
    ts = T.poly_terms(t)
    if len(ts) == 1 and len(ts[0][1]) == 2 and ts[0][0] == 1:
      (a, ea), (b, eb) = ts[0][1]
      for x, e, y, g in ((a, ea, b, eb), (b, eb, a, ea)):
        if e == 1 and g == -1 and sum_of(y) is x:
          return x
  if t.op == 'mcall' and t.args[0] == 'dirichlet':
    return None
  return None


def sum_of(t):
  if t.op == 'mcall' and t.args[0] == 'sum' and not t.args[2] and not dict(t.args[3]):
    return t.args[1]
  if t.op == 'call' and is_glob(t.args[0], 'numpy.sum', 'sum'):
    kw = dict(t.args[2])
    if set(kw) <= {'a', 'axis', 'keepdims'} and kw.get('axis') in (None, T.NONE, const(0), const(-1)):
      return t.args[1][0] if t.args[1] else kw.get('a')
  return None


def shape(t):
  while t.op == 'mcall' and t.args[0] == 'astype' or t.op == 'cast':
    t = t.args[1] if t.op == 'mcall' else t.args[0]
  if t.op == 'mcall' and t.args[0] in ('uniform', 'normal', 'gamma'):
    s = dict(t.args[3]).get('size') or (t.args[2][2] if len(t.args[2]) > 2 else None)
    if s is None:
      return ()
    if s.op in ('tuple', 'list'):
      return s.args
    return (s,)
  return None
