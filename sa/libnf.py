"""Canonical spellings of numpy/scipy calls: positional/keyword/default arguments, methods for functions, flips, pixel grids."""
from fractions import Fraction

from . import terms as T
from .terms import mk, const

NONE = T.NONE
SIG = {
    'numpy.linspace': ('start stop num endpoint retstep dtype axis', {'num': 50, 'endpoint': True, 'retstep': False, 'dtype': None, 'axis': 0}),
    'numpy.histogram2d': ('x y bins range density weights', {'bins': 10, 'range': None, 'density': False, 'weights': None}),
    'numpy.zeros': ('shape dtype order', {'dtype': 'float64', 'order': 'C'}),
    'numpy.ones': ('shape dtype order', {'dtype': 'float64', 'order': 'C'}),
    'numpy.empty': ('shape dtype order', {'dtype': 'float64', 'order': 'C'}),
    'numpy.full': ('shape fill_value dtype order', {'dtype': None, 'order': 'C'}),
    'numpy.max': ('a axis', {'axis': None}), 'numpy.min': ('a axis', {'axis': None}), 'numpy.sum': ('a axis', {'axis': None}),
    'numpy.mean': ('a axis', {'axis': None}), 'numpy.any': ('a axis', {'axis': None}), 'numpy.all': ('a axis', {'axis': None}),
    'numpy.median': ('a axis', {'axis': None}), 'numpy.prod': ('a axis', {'axis': None}), 'numpy.argmin': ('a axis', {'axis': None}),
    'numpy.argmax': ('a axis', {'axis': None}), 'numpy.std': ('a axis', {'axis': None}), 'numpy.argsort': ('a axis', {'axis': -1}),
    'numpy.stack': ('arrays axis', {'axis': 0}), 'numpy.concatenate': ('arrays axis', {'axis': 0}),
    'numpy.roll': ('a shift axis', {'axis': None}), 'numpy.flip': ('m axis', {'axis': None}),
    'numpy.meshgrid': (None, {'indexing': 'xy', 'sparse': False, 'copy': True}),
    'numpy.asarray': ('a dtype', {'dtype': None}), 'numpy.array': ('a dtype', {'dtype': None, 'copy': True}),
    'numpy.expand_dims': ('a axis', {}),
    'numpy.clip': ('a a_min a_max', {}), 'numpy.where': ('condition x y', {}), 'numpy.transpose': ('a axes', {'axes': None}),
    'scipy.ndimage.gaussian_filter': ('input sigma order output mode cval truncate', {'order': 0, 'output': None, 'mode': 'reflect', 'cval': 0, 'truncate': 4}),
    'scipy.ndimage.shift': ('input shift output order mode cval prefilter', {'output': None, 'order': 3, 'mode': 'constant', 'cval': 0, 'prefilter': True}),
    'skimage.util.random_noise': ('image mode seed clip', {'mode': 'gaussian', 'clip': True}),
    'skimage.exposure.adjust_gamma': ('image gamma gain', {'gamma': 1, 'gain': 1}),
    'skimage.exposure.equalize_adapthist': ('image kernel_size clip_limit nbins', {'kernel_size': None, 'clip_limit': Fraction(1, 100), 'nbins': 256}),
    'jax.random.uniform': ('key shape dtype minval maxval', {'shape': (), 'dtype': 'float', 'minval': 0, 'maxval': 1}),
    'jax.random.normal': ('key shape dtype', {'shape': (), 'dtype': 'float'}), 'jax.random.split': ('key num', {'num': 2}),
    'jax.random.choice': ('key a shape replace p axis', {'shape': (), 'replace': True, 'p': None, 'axis': 0}),
    'jax.random.randint': ('key shape minval maxval dtype', {'dtype': 'int'}),
    'jax.random.permutation': ('key x axis independent', {'axis': 0, 'independent': False}),
    'jax.random.multivariate_normal': ('key mean cov shape dtype method', {'shape': None, 'dtype': 'float', 'method': 'cholesky'}),
    'optax.softmax_cross_entropy': ('logits labels', {}), 'optax.sigmoid_binary_cross_entropy': ('logits labels', {}),
    'jax.nn.softmax': ('x axis', {'axis': -1}), 'jax.nn.log_softmax': ('x axis', {'axis': -1}),
    'numpy.repeat': ('a repeats axis', {'axis': None}), 'numpy.tile': ('A reps', {}), 'numpy.take': ('a indices axis', {'axis': None}),
    'numpy.var': ('a axis', {'axis': None}), 'numpy.cumsum': ('a axis', {'axis': None}), 'numpy.cumprod': ('a axis', {'axis': None}), 'numpy.diff': ('a n axis', {'n': 1, 'axis': -1}),
    'numpy.sort': ('a axis', {'axis': -1}), 'numpy.squeeze': ('a axis', {'axis': None}), 'numpy.broadcast_to': ('array shape', {}), 'numpy.pad': ('array pad_width mode', {}),
    'numpy.delete': ('arr obj axis', {'axis': None}), 'numpy.append': ('arr values axis', {'axis': None}), 'numpy.isclose': ('a b rtol atol', {}),
    'numpy.percentile': ('a q axis', {'axis': None}), 'numpy.quantile': ('a q axis', {'axis': None}), 'numpy.average': ('a axis weights', {'axis': None, 'weights': None}),
    'numpy.linalg.norm': ('x ord axis keepdims', {'ord': None, 'axis': None, 'keepdims': False}),
}
ALIAS = {'numpy.amax': 'numpy.max', 'numpy.amin': 'numpy.min', 'numpy.absolute': 'numpy.abs', 'abs': 'numpy.abs',
         'skimage.random_noise': 'skimage.util.random_noise', 'numpy.vstack': 'numpy.vstack', 'numpy.round_': 'numpy.round',
         'numpy.multiply': 'numpy.multiply'}
METHODS = {'max', 'min', 'sum', 'mean', 'any', 'all', 'prod', 'argmin', 'argmax', 'std', 'argsort', 'clip', 'squeeze', 'flatten', 'ravel', 'round', 'copy', 'transpose'}
REDUCE = {'max', 'min', 'sum', 'mean', 'any', 'all', 'prod', 'argmin', 'argmax', 'std', 'argsort', 'median', 'var', 'cumsum', 'cumprod', 'diff', 'sort', 'repeat', 'tile'}
CLIP = ('a a_min a_max', {'a_min': None, 'a_max': None})
RNG = {'uniform': ('low high size', {'low': 0, 'high': 1, 'size': None}), 'normal': ('loc scale size', {'loc': 0, 'scale': 1, 'size': None}),
       'exponential': ('scale size', {'scale': 1, 'size': None}), 'poisson': ('lam size', {'lam': 1, 'size': None}),
       'choice': ('a size replace p', {'size': None, 'replace': True, 'p': None}), 'integers': ('low high size', {'high': None, 'size': None})}


def k(v):
  return const(v) if not isinstance(v, str) else const(v)


def default(name, v):
  if name == 'dtype' and v == 'float64':
    return {NONE, mk('glob', 'numpy.float64'), mk('glob', 'float')}
  if v == ():
    return {mk('tuple'), mk('list')}
  if name == 'dtype' and v in ('float', 'int'):
    return {mk('glob', v), mk('glob', f'jax.numpy.{v}32'), NONE}
  return {const(v)}


def bind(args, kw, sig):
  names, dflt = sig
  kw = dict(kw)
  if names is not None:
    ns = names.split()
    if any(a.op == 'star' for a in args) or len(args) > len(ns):
      return None
    for a, n in zip(args, ns):
      if n in kw:
        return None
      kw[n] = a
    args = ()
  kw = {n: v for n, v in kw.items() if not (n in dflt and v in default(n, dflt[n]))}
  return args, tuple(sorted(kw.items()))


def full(s):
  return s.op == 'slice' and all(x is NONE for x in s.args)


REV = mk('slice', NONE, NONE, const(-1))


def length(t):
  return mk('call', mk('glob', 'len'), (t,), (), None)


def one(t):
  if t.op == 'matmul':
    m = matrix(t.args[1])
    a = rotation(m) if m else None
    if a is not None:
      return mk('rot', t.args[0], a)
  if t.op == 'fill' and len(t.args) == 4 and isinstance(t.args[3], tuple) and len(t.args[3]) == 1 and fresh(t.args[2]):
    (ix, v), = t.args[3]
    if ix.op == 'bv' and ix.args[0] == t.args[0]:
      return mk('mapa', t.args[0], t.args[1], bare(v))
  if t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] in MATRIX:
    x = t.args[1][0] if len(t.args[1]) == 1 else dict(t.args[2]).get('a')
    if x is not None and x.op in ('mapl', 'mapf') and len(x.args) == 3:
      return mk('mapa', x.args[0], x.args[1], bare(x.args[2]))
  if t.op == 'mutated' and t.args[1] == 'fill' and len(t.args[2]) == 1 and t.args[0].op == 'call' and t.args[0].args[0].op == 'glob' and t.args[0].args[0].args[0] in (
      'numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.full'):
    kw = dict(t.args[0].args[2])
    if not t.args[0].args[1]:
      kw['fill_value'] = t.args[2][0]
      return mk('call', mk('glob', 'numpy.full'), (), tuple(sorted(kw.items())), t.args[0].args[3])
  if t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] == 'len' and len(t.args[1]) == 1 and t.args[1][0].op == 'mcall' and t.args[1][0].args[0] == 'reshape':
    x, a = t.args[1][0].args[1], t.args[1][0].args[2]
    if x.op in ('mapa', 'mapl') and x.args[2].op in ('tuple', 'list') and len(a) == 2 and a[0] is const(-1) and a[1] is const(len(x.args[2].args)):
      return x.args[1]
  if t.op == 'phi' and t.args[1].op == 'mapa' and t.args[1].args[2].op in ('tuple', 'list'):
    # an empty list made an empty table
    z, k = t.args[2], len(t.args[1].args[2].args)
    if z.op == 'call' and z.args[0].op == 'glob' and z.args[0].args[0] in ('numpy.zeros', 'numpy.empty') and t.args[0] in (
        mk('attr', t.args[1], 'size'), t.args[1].args[1], T.truth(mk('attr', t.args[1], 'size')), T.truth(t.args[1].args[1])):
      s = dict(z.args[2]).get('shape') or (z.args[1][0] if z.args[1] else None)
      if s is not None and s.op in ('tuple', 'list') and s.args == (const(0), const(k)):
        return mk('mcall', 'reshape', t.args[1], (const(-1), const(k)), (), None)
  if t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] in ('numpy.array', 'numpy.asarray') and len(t.args[1]) + len(t.args[2]) == 1:
    x = t.args[1][0] if t.args[1] else t.args[2][0][1]
    if x.op == 'repeat' and len(x.args) == 2:
      n, v = x.args if x.args[1].op in ('list', 'tuple') else x.args[::-1]
      if v.op in ('list', 'tuple') and len(v.args) == 1 and n.op not in ('list', 'tuple'):
        return mk('call', mk('glob', 'numpy.full'), (), (('fill_value', v.args[0]), ('shape', n)), t.args[3])
  if t.op == 'popd' and len(t.args[1]) == 1 and t.args[0].op in ('dset', 'dictmap', 'dict', 'deleted'):
    return mk('deleted', t.args[0], t.args[1][0])
  if t.op == 'attr' and t.args[1] in ('x', 'y') and t.args[0].op == 'call' and t.args[0].args[0].op == 'glob' and t.args[0].args[0].args[0] == 'shapely.geometry.Point':
    a = t.args[0].args[1]
    if len(a) == 2:
      return a[t.args[1] == 'y']
    if len(a) == 1:
      return mk('item', a[0], const(int(t.args[1] == 'y')))
  if t.op == 'item' and t.args[1] is T.ZERO and t.args[0].op == 'attr' and t.args[0].args[1] == 'shape':
    return length(t.args[0].args[0])
  if t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] == 'len' and len(t.args[1]) == 1:
    x = t.args[1][0]
    if x.op == 'poly':
      ix = {b for m, _ in x.args for b, _e in m if is_range(b)}
      rest = [b for m, _ in x.args for b, _e in m if b not in ix]
      if len(ix) == 1 and all(scalar(b) for b in rest):
        return ix.pop().args[1][0]
    if is_range(x):
      return x.args[1][0]
    if x.op == 'mapa':
      return x.args[1]
    if x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0].split('.')[-1] in ELEMENTWISE and x.args[1]:
      return length(x.args[1][0])
    if x.op == 'item' and x.args[1].op == 'tuple' and full(x.args[1].args[0]):
      return length(x.args[0])
    if x.op == 'item' and x.args[1].op == 'tuple' and len(x.args[1].args) == 2 and full(x.args[1].args[1]) and x.args[1].args[0].op not in ('const', 'slice'):
      return length(x.args[1].args[0])
    if x.op == 'item' and x.args[0].op == 'attr' and x.args[0].args[1] == 'atom_positions' and x.args[1].op in ('param', 'attr'):
      return length(x.args[1])
    if x.op == 'poly':
      # rows of a selection minus one position
      rows = {b for m, _ in x.args for b, e in m if b.op == 'item' and b.args[0].op == 'attr' and b.args[0].args[1] == 'atom_positions'}
      if len(rows) == 1:
        return length(rows.pop())
    if x.op == 'attr' and x.args[1] == 'atom_positions':
      return length(mk('attr', x.args[0], 'atomic_numbers'))
    if x.op == 'mcall' and x.args[0] in RNG:
      n = dict(x.args[3]).get('size')
      if n is not None and n is not NONE:
        return n.args[0] if n.op == 'tuple' and n.args else n if n.op != 'attr' else mk('item', n, T.ZERO)
    return None
  if t.op == 'minlen':
    u = tuple(sorted(set(t.args)))
    return u[0] if len(u) == 1 else mk('minlen', *u)
  if t.op == 'call' and t.args[0].op == 'glob':
    g = t.args[0].args[0]
    args, kw = t.args[1], t.args[2]
    g = ALIAS.get(g, g)
    if g.startswith('jax.numpy.') and g[10:] in REDUCE:
      g = g[4:]
    if g in ('numpy.clip', 'jax.numpy.clip') and args + tuple(v for _, v in kw):
      b = bind(args, kw, CLIP)
      if b:
        d = dict(b[1])
        if set(d) == {'a', 'a_max'} or set(d) == {'a', 'a_min'}:
          return mk('call', mk('glob', g[:-4] + ('minimum' if 'a_max' in d else 'maximum')), (d['a'], d.get('a_max') or d['a_min']), (), t.args[3])
    if g == 'jax.numpy.square' and len(args) == 1 and not kw:
      return T.power(args[0], const(2))
    if g == 'numpy.flip':
      b = bind(args, kw, SIG[g])
      if b and 'm' in dict(b[1]):
        d = dict(b[1])
        if d.get('axis') is const(0):
          return mk('item', d['m'], REV)
        if d.get('axis') is const(1):
          return mk('item', d['m'], mk('tuple', mk('slice', NONE, NONE, NONE), REV))
    if g == 'numpy.flipud' and len(args) == 1:
      return mk('item', args[0], REV)
    if g == 'numpy.fliplr' and len(args) == 1:
      return mk('item', args[0], mk('tuple', mk('slice', NONE, NONE, NONE), REV))
    if g == 'numpy.unique' and len(args) == 1 and not kw:
      return mk('setof', args[0])
    if g in ('sorted', 'list', 'tuple') and len(args) == 1 and args[0].op == 'setof' and not kw:
      return args[0]
    if g == 'numpy.transpose' and len(args) == 1 and not kw:
      return mk('attr', args[0], 'T')
    if g in ('numpy.squeeze', 'numpy.ravel', 'numpy.copy', 'numpy.round', 'numpy.around') and args:
      return None if g != 'numpy.around' else mk('call', mk('glob', 'numpy.round'), args, kw, t.args[3])
    sig = SIG.get(g) or (SIG.get(g[4:]) if g.startswith('jax.numpy.') and not g.endswith(('.zeros', '.ones', '.empty', '.full')) else None)
    if sig is not None:
      b = bind(args, kw, sig)
      if b is None:
        return None
      n = mk('call', mk('glob', g), b[0], b[1], t.args[3])
      if g == 'numpy.linspace':
        n = linspace(n) or n
      return n if n is not t else None
    if g != t.args[0].args[0]:
      return mk('call', mk('glob', g), args, kw, t.args[3])
    return None
  if t.op == 'mcall':
    name, recv, args, kw = t.args[:4]
    if name == 'difference' and len(args) == 1 and not kw and recv.op in ('seqcopy', 'call', 'set', 'setof'):
      return T.sub(recv, args[0])
    if name in RNG and (len(t.args) > 4):
      b = bind(args, kw, RNG[name])
      if b:
        n = mk('mcall', name, recv, b[0], b[1], *t.args[4:])
        return n if n is not t else None
    return None
  if t.op == 'item':
    b, i = t.args
    if b.op == 'call' and b.args[0].op == 'glob' and b.args[0].args[0] == 'numpy.meshgrid' and len(b.args[1]) == 2 and not b.args[2] and i.op == 'const':
      sl = mk('slice', NONE, NONE, NONE)
      if T.cval(i) == 0:
        return mk('item', b.args[1][0], mk('tuple', NONE, sl))
      if T.cval(i) == 1:
        return mk('item', b.args[1][1], mk('tuple', sl, NONE))
    if i.op == 'tuple' and len(i.args) > 1 and full(i.args[-1]) and not any(x.op == 'const' and (x is NONE or x.args[0] == '...#ellipsis') for x in i.args):
      r = i.args[:-1]
      return mk('item', b, r[0] if len(r) == 1 else mk('tuple', *r))
    if i.op == 'tuple' and len(i.args) == 1:
      return mk('item', b, i.args[0])
    if full(i):
      return b
    if i.op == 'item' and is_range(i.args[0]) and i.args[0].args[1][0] is nf(length(b)) and i.args[1].op != 'tuple':
      return mk('item', b, i.args[1])
    if i.op == 'slice' and b.op == 'poly':
      r = shifted(b, i)
      if r is not None:
        return r
  return None


ELEMENTWISE = {'arctan2', 'sin', 'cos', 'exp', 'log', 'sqrt', 'abs', 'square', 'absolute', 'rint', 'round', 'floor', 'ceil', 'asarray', 'array'}
MATRIX = {'numpy.asarray', 'numpy.array', 'jax.numpy.asarray', 'jax.numpy.array'}


def trig(t):
  """(name, angle, sign) of a sine or cosine, the angle's sign normalised."""
  sg = 1
  if t.op == 'poly' and len(t.args) == 1 and abs(t.args[0][1]) == 1 and len(t.args[0][0]) == 1 and t.args[0][0][0][1] == 1:
    sg, t = int(t.args[0][1]), t.args[0][0][0][0]
  if t.op != 'call' or t.args[0].op != 'glob' or len(t.args[1]) != 1 or t.args[2]:
    return None
  n = t.args[0].args[0].split('.')[-1]
  if n not in ('sin', 'cos'):
    return None
  a = t.args[1][0]
  m = T.neg(a)
  if T.skey(m) < T.skey(a):
    a, sg = m, sg * (-1 if n == 'sin' else 1)
  return n, a, sg


def matrix(t):
  flip = False
  while True:
    if t.op == 'attr' and t.args[1] == 'T':
      t, flip = t.args[0], not flip
    elif t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] in MATRIX and len(t.args[1]) == 1:
      t = t.args[1][0]
    elif t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] in MATRIX and not t.args[1] and 'a' in dict(t.args[2]):
      t = dict(t.args[2])['a']
    else:
      break
  if t.op not in ('list', 'tuple') or len(t.args) != 2 or any(r.op not in ('list', 'tuple') or len(r.args) != 2 for r in t.args):
    return None
  m = [list(r.args) for r in t.args]
  return [[m[0][0], m[1][0]], [m[0][1], m[1][1]]] if flip else m


def rotation(m):
  """The angle by which multiplying rows with m from the right turns counter-clockwise."""
  e = [[trig(x) for x in r] for r in m]
  if any(x is None for r in e for x in r):
    return None
  if {x[1] for r in e for x in r} != {e[0][0][1]} or [[x[0] for x in r] for r in e] != [['cos', 'sin'], ['sin', 'cos']]:
    return None
  if e[0][0][2] != 1 or e[1][1][2] != 1 or e[0][1][2] != -e[1][0][2]:
    return None
  a = e[0][0][1]
  return a if e[0][1][2] == 1 else T.neg(a)


def scalar(t):
  if t.op == 'poly':
    return all(scalar(b) for m, _ in t.args for b, _e in m)
  return t.op in ('param', 'attr') or (t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] == 'len')


def fresh(t):
  return t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] in ('numpy.zeros', 'numpy.empty', 'numpy.zeros_like', 'numpy.empty_like', 'numpy.ones', 'numpy.full')


def bare(v):
  while v.op == 'call' and v.args[0].op == 'glob' and v.args[0].args[0] in ('numpy.asarray', 'numpy.array', 'float') and (len(v.args[1]) == 1 or 'a' in dict(v.args[2])):
    v = v.args[1][0] if v.args[1] else dict(v.args[2])['a']
  return v


def is_range(t):
  return t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] == 'numpy.arange' and len(t.args[1]) == 1 and not t.args[2]


def linspace(n):
  """linspace(a, b, m) as a polynomial in the index vector 0..m-1."""
  d = dict(n.args[2])
  if set(d) - {'start', 'stop', 'num', 'endpoint'} or not {'start', 'stop', 'num'} <= set(d) or d.get('endpoint', T.TRUE) not in (T.TRUE, T.FALSE):
    return None
  m = d['num'] if d.get('endpoint') is T.FALSE else T.sub(d['num'], T.ONE)
  ix = mk('call', mk('glob', 'numpy.arange'), (d['num'],), (), None)
  return T.add(d['start'], T.mul(T.sub(d['stop'], d['start']), T.div(ix, m)))


def shifted(p, s):
  """A slice of a polynomial in one index vector."""
  ix = {b for m, _ in p.args for b, _e in m if b.op == 'call' and b.args[0].op == 'glob' and b.args[0].args[0] == 'numpy.arange' and len(b.args[1]) == 1 and not b.args[2]}
  if len(ix) != 1:
    return None
  v, = ix
  n = v.args[1][0]
  lo, hi, st = s.args
  if st is not NONE and st is not T.ONE:
    return None
  lo = T.ZERO if lo is NONE else lo
  if not T.is_num(lo) or T.cval(lo) < 0:
    return None
  if hi is NONE:
    size = T.sub(n, lo)
  elif T.is_num(hi) and T.cval(hi) < 0:
    size = T.sub(T.add(n, hi), lo)
  else:
    return None
  new = T.add(mk('call', mk('glob', 'numpy.arange'), (size,), (), v.args[3]), lo)
  return subst(p, v, new)


def subst(p, v, new):
  out = T.ZERO
  for c, m in T.poly_terms(p):
    t = const(c)
    for b, e in m:
      t = T.mul(t, T.power(new if b is v else b, const(e)))
    out = T.add(out, t)
  return out


def nf(t):
  for _ in range(6):
    n = T.rewrite(t, one)
    if n is t:
      return t
    t = n
  return t


KNOWN = {'numpy.' + n for n in ('max min sum mean any all prod argmin argmax std median clip round around fmin fmax trunc nan_to_num rint floor ceil sqrt exp log abs minimum maximum rot90 roll '
                                'zeros ones full zeros_like ones_like full_like stack concatenate transpose flip flipud fliplr sin cos arctan2 deg2rad rad2deg '
                                'linalg.norm sort argsort power square diff where').split()} | {
    'min', 'max', 'abs', 'sum', 'len', 'int', 'float', 'round', 'sorted', 'reversed', 'numpy.float32', 'numpy.float64', 'numpy.uint8'}
KNOWN_M = {'max', 'min', 'sum', 'mean', 'astype', 'reshape', 'copy', 'clip', 'squeeze', 'T', 'transpose', 'round', 'uniform', 'normal', 'exponential', 'poisson', 'choice', 'append'}


def vocabulary(t):
  out = set()
  for x in T.subterms(t):
    if x.op == 'glob':
      n = x.args[0]
      out.add(n[4:] if n.startswith('jax.numpy.') else n)
    elif x.op == 'mcall':
      out.add('.' + x.args[0])
  return out


def foreign(a, b):
  """Names in a that neither the reference b nor the elementary vocabulary contains."""
  return {n for n in vocabulary(a) - vocabulary(b) if n not in KNOWN and not (n[0] == '.' and n[1:] in KNOWN_M)}

