"""Element-wise normal form of array expressions of known shape.

canon(t) rewrites every array expression whose shape can be derived into `arr(shape, elements)`: the expression of an element
at symbolic indices, so that broadcasting, reshaping, norms and sums over short axes, and the spelling of a selection do not
matter.  Expressions whose shape is not known are left as they are.
"""
from fractions import Fraction

from . import terms as T
from .terms import mk, const, ZERO, ONE

# shapes of opaque attributes / calls, as functions of the term
ATTR = {
    'atom_positions': lambda t: (mk('dim', t.args[0]), 2),
    'atomic_numbers': lambda t: (mk('dim', t.args[0]),),
    'goal_position_material_frame': lambda t: (2,), 'goal_range_angstroms': lambda t: (2,),
    'width': lambda t: (), 'height': lambda t: (), 'x': lambda t: (), 'y': lambda t: (), 'size': lambda t: (), 'ndim': lambda t: (),
    'coords': lambda t: (1, 2),
}
CALLS = {
    'putting_dune.graphene.get_single_silicon_position': lambda t: (2,),
    'putting_dune.graphene.get_silicon_positions': lambda t: (mk('count', t), 2),
}
ELEMENTWISE = {'numpy.' + n for n in ('exp', 'log', 'sin', 'cos', 'tan', 'abs', 'absolute', 'floor', 'ceil', 'round', 'rint', 'sign',
                                      'arctan2', 'maximum', 'minimum', 'clip', 'where', 'float32', 'float64', 'nan_to_num')}
SAME = {'numpy.asarray', 'numpy.array', 'numpy.copy', 'numpy.ascontiguousarray', 'seqcopy', 'tuple', 'list'}
REDUCE = {'numpy.sum', 'numpy.linalg.norm', 'numpy.prod'}
MAXDIM = 12


class NoShape(Exception):
  pass


class Mismatch(NoShape):
  pass


class Canon:
  def __init__(self, shapes=None):
    self.extra = shapes or {}
    self.memo = {}
    self.smemo = {}
    self.mismatch = []
    self.n = 0

  # ---------------------------------------------------------------- shape
  def shape(self, t):
    r = self.smemo.get(t)
    if r is None:
      try:
        r = self.shape0(t)
      except Mismatch as e:
        if not self.mismatch:
          self.mismatch.append(T.show(t, 5)[:200])
        r = e
      except NoShape as e:
        r = e
      except (IndexError, TypeError, ValueError, KeyError) as e:
        r = NoShape(repr(e))
      self.smemo[t] = r
    if isinstance(r, NoShape):
      raise r
    return r

  def known(self, t):
    try:
      return self.shape(t)
    except NoShape:
      return None

  def shape0(self, t):
    if t in self.extra:
      return self.extra[t]
    op = t.op
    if op == 'const':
      return ()
    if op == 'arr':
      return t.args[0]
    if op == 'poly':
      out = ()
      for m, _c in t.args:
        for b, _e in m:
          out = broadcast(out, self.shape(b))
      return out
    if op in ('lt0', 'not', 'eq', 'and', 'pow', 'phi', 'mod', 'floordiv'):
      out = ()
      for b in t.args:
        out = broadcast(out, self.shape(b))
      return out
    if op in ('list', 'tuple'):
      if not t.args or any(x.op == 'star' for x in t.args):
        raise NoShape(t)
      ss = [self.shape(x) for x in t.args]
      if any(s != ss[0] for s in ss):
        raise NoShape(t)
      return (len(t.args),) + ss[0]
    if op == 'attr':
      if t.args[1] == 'T':
        return tuple(reversed(self.shape(t.args[0])))
      if t.args[1] in ATTR:
        return ATTR[t.args[1]](t)
      raise NoShape(t)
    if op in ('dim', 'count', 'el', 'aix'):
      return ()
    if op == 'call' and t.args[0].op == 'glob':
      return self.call_shape(t, t.args[0].args[0], t.args[1], dict(t.args[2]))
    if op == 'mcall':
      return self.mcall_shape(t)
    if op == 'item':
      return self.item_shape(t)
    if op == 'matmul':
      a, b = self.shape(t.args[0]), self.shape(t.args[1])
      if len(a) == 2 and len(b) == 2 and same_dim(a[1], b[0]):
        return (a[0], b[1])
      if len(a) == 2 and len(b) == 1 and same_dim(a[1], b[0]):
        return (a[0],)
      if len(a) == 1 and len(b) == 2 and same_dim(a[0], b[0]):
        return (b[1],)
      raise NoShape(t)
    raise NoShape(t)

  def call_shape(self, t, g, args, kw):
    if g in CALLS:
      return CALLS[g](t)
    if g in SAME and args:
      return self.shape(args[0])
    if g in ELEMENTWISE:
      out = ()
      for b in tuple(args) + tuple(kw.values()):
        out = broadcast(out, self.shape(b))
      return out
    if g in REDUCE:
      if not set(kw) <= {'axis', 'keepdims', 'ord'}:
        raise NoShape(t)
      s = self.shape(args[0])
      ax = kw.get('axis')
      if ax is None and len(args) > 1 and g != 'numpy.linalg.norm':
        ax = args[1]
      if ax is None or ax is T.NONE:
        if len(s) != 1 and g == 'numpy.linalg.norm':
          raise NoShape(t)
        if any(not isinstance(d, int) for d in s):
          raise NoShape(t)
        return ()
      a = axis(ax, len(s))
      if not isinstance(s[a], int) or s[a] > MAXDIM:
        raise NoShape(t)
      keep = kw.get('keepdims')
      if keep is T.TRUE:
        return s[:a] + (1,) + s[a + 1:]
      if keep is not None and keep is not T.FALSE:
        raise NoShape(t)
      return s[:a] + s[a + 1:]
    if g == 'numpy.reshape' and len(args) == 2 and not kw:
      return reshaped(self.shape(args[0]), args[1:])
    if g in ('numpy.dot', 'numpy.matmul') and len(args) == 2:
      return self.shape(mk('matmul', *args))
    if g in ('numpy.zeros', 'numpy.ones') and args:
      return dims(args[0])
    if g in ('numpy.expand_dims',) and (len(args) == 2 or 'axis' in kw):
      s = self.shape(args[0])
      a = T.cval(args[1] if len(args) == 2 else kw['axis'])
      a = a if a >= 0 else a + len(s) + 1
      return s[:a] + (1,) + s[a:]
    if g == 'numpy.ravel' and len(args) == 1:
      return reshaped(self.shape(args[0]), (const(-1),))
    if g == 'numpy.squeeze':
      s = self.shape(args[0])
      if 'axis' in kw or len(args) > 1:
        raise NoShape(t)
      return tuple(d for d in s if d != 1)
    if g == 'numpy.stack' and args and args[0].op in ('list', 'tuple'):
      ss = [self.shape(x) for x in args[0].args]
      if any(s != ss[0] for s in ss):
        raise NoShape(t)
      a = T.cval(kw['axis']) if 'axis' in kw else (T.cval(args[1]) if len(args) > 1 else 0)
      a = a if a >= 0 else a + len(ss[0]) + 1
      return ss[0][:a] + (len(ss),) + ss[0][a:]
    if g in ('numpy.concatenate', 'numpy.hstack') and args and args[0].op in ('list', 'tuple'):
      ss = [self.shape(x) for x in args[0].args]
      a = axis(kw.get('axis') or (args[1] if len(args) > 1 else ZERO), len(ss[0]))
      if any(len(s) != len(ss[0]) for s in ss) or any(not isinstance(s[a], int) for s in ss):
        raise NoShape(t)
      return ss[0][:a] + (sum(s[a] for s in ss),) + ss[0][a + 1:]
    if g == 'numpy.transpose' and len(args) == 1 and not kw:
      return tuple(reversed(self.shape(args[0])))
    if g in ('numpy.neighbour_indices', 'numpy.neighbour_distances'):
      n = args[2]
      if not T.is_num(n):
        raise NoShape(t)
      return (self.shape(args[0] if args[1] is T.NONE else args[1])[0], int(T.cval(n)))
    if g == 'cv2.resize' and len(args) == 2:
      return tuple(reversed(dims(args[1])))
    if g in ('numpy.hypot',):
      return broadcast(self.shape(args[0]), self.shape(args[1]))
    raise NoShape(t)

  def mcall_shape(self, t):
    name, recv, args, kw = t.args[0], t.args[1], t.args[2], dict(t.args[3])
    if name in ('reshape', 'flatten', 'ravel', 'transpose', 'astype') and kw:
      raise NoShape(t)
    if name == 'reshape':
      return reshaped(self.shape(recv), args)
    if name in ('copy', 'astype'):
      return self.shape(recv)
    if name in ('flatten', 'ravel') and not args:
      return reshaped(self.shape(recv), (const(-1),))
    if name == 'squeeze' and not args and not kw:
      return tuple(d for d in self.shape(recv) if d != 1)
    if name == 'transpose' and not args:
      return tuple(reversed(self.shape(recv)))
    if name in ('microscope_frame_to_material_frame', 'material_frame_to_microscope_frame') and len(args) == 1:
      s = self.shape(args[0])
      return (2,) if len(s) == 1 else s
    if name in ('sum', 'prod'):
      return self.call_shape(t, 'numpy.' + name, (recv,) + tuple(args), kw)
    if name in ('uniform', 'normal', 'exponential') and 'size' in kw:
      return dims(kw['size'])
    if name in ('random', 'standard_normal') and (args or 'size' in kw):
      return dims(args[0] if args else kw['size'])
    raise NoShape(t)

  def item_shape(self, t):
    base, i = t.args
    if base.op == 'attr' and base.args[1] == 'shape':
      return ()
    if base.op in ('list', 'tuple') and T.is_num(i):
      return self.shape(base.args[T.cval(i)])
    s = self.shape(base)
    if i.op == 'tuple':
      out, k = [], 0
      n_real = sum(1 for x in i.args if x is not T.NONE and not is_ellipsis(x))
      for x in i.args:
        if x is T.NONE:
          out.append(1)
        elif is_ellipsis(x):
          while k < len(s) - (n_real - sum(1 for y in i.args[:i.args.index(x)] if y is not T.NONE)):
            out.append(s[k])
            k += 1
        elif x.op == 'slice':
          if k >= len(s):
            raise NoShape(t)
          out.append(sliced(x, s[k]))
          k += 1
        else:
          if k >= len(s) or self.shape(x) != ():
            raise NoShape(t)
          k += 1
      return tuple(out) + s[k:]
    if not s:
      raise NoShape(t)
    if i is T.NONE:
      return (1,) + s
    if i.op == 'slice':
      return (sliced(i, s[0]),) + s[1:]
    if is_mask(i):
      m = self.shape(i)
      if len(m) == 1:
        return (mk('count', self.canon(i)),) + s[1:]
      raise NoShape(t)
    si = self.known(i)
    if si is None:
      # a scalar index of unknown origin (a draw, an argmin)
      if scalar_index(i):
        return s[1:]
      raise NoShape(t)
    return tuple(si) + s[1:]

  # ---------------------------------------------------------------- elements
  def elem(self, t, idx):
    """The element of t at idx (one term per dimension)."""
    op = t.op
    if op == 'const':
      return t
    if t in self.extra:
      return self.leaf(t, idx)
    if op == 'arr':
      return self.arr_elem(t, idx)
    s = self.shape(t)
    if len(s) != len(idx):
      raise NoShape(t)
    if op == 'poly':
      out = ZERO
      for m, c in t.args:
        x = const(c)
        for b, e in m:
          x = T.mul(x, T.power(self.elem(b, align(idx, self.shape(b))), const(e)))
        out = T.add(out, x)
      return out
    if op in ('lt0', 'not', 'eq', 'and', 'pow', 'phi', 'mod', 'floordiv'):
      return T.rebuild(t, tuple(self.elem(b, align(idx, self.shape(b))) for b in t.args))
    if not idx and op in ('attr', 'dim', 'count', 'el', 'aix'):
      return self.canon_args(t)
    if op in ('list', 'tuple'):
      i = idx[0]
      if T.is_num(i):
        return self.elem(t.args[int(T.cval(i))], idx[1:])
      raise NoShape(t)
    if op == 'attr':
      if t.args[1] == 'T':
        return self.elem(t.args[0], tuple(reversed(idx)))
      if t.args[1] == 'coords':
        return mk('attr', self.canon(t.args[0]), 'xy'[int(T.cval(idx[1]))]) if T.is_num(idx[1]) else self.leaf(t, idx)
      return self.leaf(t, idx)
    if op == 'call':
      return self.call_elem(t, t.args[0].args[0], t.args[1], dict(t.args[2]), idx)
    if op == 'mcall':
      name, recv, args, kw = t.args[0], t.args[1], t.args[2], dict(t.args[3])
      if name in ('reshape', 'flatten', 'ravel', 'squeeze'):
        return self.elem(recv, remap(idx, s, self.shape(recv)))
      if name == 'copy':
        return self.elem(recv, idx)
      if name == 'astype':
        return mk('cast', self.elem(recv, idx), *[self.canon(a) for a in args])
      if name == 'transpose':
        return self.elem(recv, tuple(reversed(idx)))
      if name in ('sum', 'prod'):
        return self.call_elem(t, 'numpy.' + name, (recv,) + tuple(args), kw, idx)
      return self.leaf(t, idx)
    if op == 'item':
      return self.item_elem(t, idx)
    if op == 'matmul':
      a, b = t.args
      sa, sb = self.shape(a), self.shape(b)
      n = sa[-1]
      if not isinstance(n, int):
        raise NoShape(t)
      out = ZERO
      for k in range(n):
        ia = idx[:len(sa) - 1] + (const(k),)
        ib = (const(k),) + idx[len(sa) - 1:]
        out = T.add(out, T.mul(self.elem(a, ia), self.elem(b, ib)))
      return out
    raise NoShape(t)

  def leaf(self, t, idx):
    return mk('el', self.canon_args(t), *idx)

  def arr_elem(self, t, idx):
    shape, comps, h = t.args
    flat, sub = 0, {}
    for d, (n, i) in enumerate(zip(shape, idx)):
      if isinstance(n, int):
        if not T.is_num(i):
          raise NoShape(t)
        flat = flat * n + int(T.cval(i))
      else:
        sub[mk('aix', h, d)] = i
    return T.subst(comps[flat], lambda x: sub.get(x))

  def call_elem(self, t, g, args, kw, idx):
    if g in CALLS or g in ('numpy.neighbour_indices', 'numpy.neighbour_distances'):
      return self.leaf(t, idx)
    if g in SAME:
      e = self.elem(args[0], idx)
      d = kw.get('dtype') or (args[1] if len(args) > 1 else None)
      return mk('cast', e, self.canon(d)) if d is not None else e
    if g in ELEMENTWISE:
      es = [self.elem(a, align(idx, self.shape(a))) for a in args]
      if g == 'numpy.where' and len(es) == 3:
        return T.phi(es[0], es[1], es[2])
      return mk('call', t.args[0], tuple(es), tuple((k, self.elem(a, align(idx, self.shape(a)))) for k, a in t.args[2]), None)
    if g == 'numpy.hypot':
      es = [self.elem(a, align(idx, self.shape(a))) for a in args]
      return T.power(T.add(T.power(es[0], const(2)), T.power(es[1], const(2))), const(Fraction(1, 2)))
    if g in REDUCE:
      s = self.shape(args[0])
      ax = kw.get('axis')
      if ax is None and len(args) > 1 and g != 'numpy.linalg.norm':
        ax = args[1]
      o = kw.get('ord') or (args[1] if g == 'numpy.linalg.norm' and len(args) > 1 else None)
      how = 2
      if o is not None and o is not T.NONE and o is not const(2):
        how = 1 if o is ONE else 'inf' if o.op == 'glob' and o.args[0] in ('numpy.inf', 'math.inf') else None
        if how is None or len(s) != 1 and (ax is None or ax is T.NONE):
          raise NoShape(t)
      if ax is None or ax is T.NONE:
        es = [self.elem(args[0], i) for i in indices(s)]
      else:
        a = axis(ax, len(s))
        rest = list(idx)
        if kw.get('keepdims') is T.TRUE:
          del rest[a]
        es = [self.elem(args[0], tuple(rest[:a]) + (const(k),) + tuple(rest[a:])) for k in range(s[a])]
      if g == 'numpy.prod':
        out = ONE
        for e in es:
          out = T.mul(out, e)
        return out
      if how != 2:
        es = [mk('call', mk('glob', 'numpy.abs'), (e,), (), None) for e in es]
        out = es[0]
        for e in es[1:]:
          out = T.add(out, e) if how == 1 else mk('call', mk('glob', 'numpy.maximum'), (out, e), (), None)
        return out
      out = ZERO
      for e in es:
        out = T.add(out, e if g == 'numpy.sum' else T.mul(e, e))
      return out if g == 'numpy.sum' else T.power(out, const(Fraction(1, 2)))
    if g in ('numpy.reshape', 'numpy.squeeze', 'numpy.expand_dims', 'numpy.ravel'):
      return self.elem(args[0], remap(idx, self.shape(t), self.shape(args[0])))
    if g in ('numpy.dot', 'numpy.matmul'):
      return self.elem(mk('matmul', *args), idx)
    if g == 'numpy.zeros':
      return ZERO
    if g == 'numpy.ones':
      return ONE
    if g == 'numpy.transpose':
      return self.elem(args[0], tuple(reversed(idx)))
    if g == 'numpy.stack':
      n = len(idx) - 1
      a = T.cval(kw['axis']) if 'axis' in kw else (T.cval(args[1]) if len(args) > 1 else 0)
      a = a if a >= 0 else a + n + 1
      if not T.is_num(idx[a]):
        raise NoShape(t)
      return self.elem(args[0].args[int(T.cval(idx[a]))], idx[:a] + idx[a + 1:])
    if g in ('numpy.concatenate', 'numpy.hstack'):
      xs = args[0].args
      s0 = self.shape(xs[0])
      a = axis(kw.get('axis') or (args[1] if len(args) > 1 else ZERO), len(s0))
      if not T.is_num(idx[a]):
        raise NoShape(t)
      k = int(T.cval(idx[a]))
      for x in xs:
        n = self.shape(x)[a]
        if k < n:
          return self.elem(x, idx[:a] + (const(k),) + idx[a + 1:])
        k -= n
    raise NoShape(t)

  def item_elem(self, t, idx):
    base, i = t.args
    if base.op == 'attr' and base.args[1] == 'shape':
      return self.canon_args(t)
    if base.op in ('list', 'tuple') and T.is_num(i):
      return self.elem(base.args[T.cval(i)], idx)
    s = self.shape(base)
    if i.op == 'tuple':
      out, k = [], 0
      rest = list(idx)
      n_real = sum(1 for x in i.args if x is not T.NONE and not is_ellipsis(x))
      for x in i.args:
        if x is T.NONE:
          rest.pop(0)
        elif is_ellipsis(x):
          while k < len(s) - (n_real - sum(1 for y in i.args[:i.args.index(x)] if y is not T.NONE)):
            out.append(rest.pop(0))
            k += 1
        elif x.op == 'slice':
          out.append(unslice(x, rest.pop(0), s[k]))
          k += 1
        else:
          out.append(self.index(x, s[k]))
          k += 1
      return self.elem(base, tuple(out) + tuple(rest))
    if i is T.NONE:
      return self.elem(base, idx[1:])
    if i.op == 'slice':
      return self.elem(base, (unslice(i, idx[0], s[0]),) + idx[1:])
    if is_mask(i):
      return self.elem(base, (mk('nth', self.canon(i), idx[0]),) + idx[1:])
    si = self.known(i)
    if si is None or si == ():
      return self.elem(base, (self.index(i, s[0]),) + idx)
    return self.elem(base, (self.elem(i, idx[:len(si)]),) + idx[len(si):])

  def index(self, i, n):
    i = self.canon(i)
    if T.is_num(i) and T.cval(i) < 0:
      i = T.add(i, const(n) if isinstance(n, int) else n)
    return i

  # ---------------------------------------------------------------- normal form
  def canon(self, t):
    r = self.memo.get(t)
    if r is None:
      self.n += 1
      if self.n > 20000:
        raise NoShape(t)
      r = self.memo[t] = self.canon0(t)
    return r

  def canon0(self, t):
    if t.op in ('const', 'param', 'glob', 'arr'):
      return t
    # sizes
    if t.op == 'item' and t.args[0].op == 'attr' and t.args[0].args[1] == 'shape' and T.is_num(t.args[1]):
      s = self.known(t.args[0].args[0])
      k = T.cval(t.args[1])
      if s is not None and -len(s) <= k < len(s):
        return dimterm(s[k])
    if t.op == 'attr' and t.args[1] == 'size':
      s = self.known(t.args[0])
      if s is not None:
        out = ONE
        for d in s:
          out = T.mul(out, dimterm(d))
        return out
    if t.op == 'attr' and t.args[1] == 'ndim':
      s = self.known(t.args[0])
      if s is not None:
        return const(len(s))
    if t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] == 'len' and len(t.args[1]) == 1:
      s = self.known(t.args[1][0])
      if s:
        return dimterm(s[0])
    if t.op in ('not', 'and', 'phi'):
      return self.bools(t)
    s = self.known(t)
    if s is not None and (s or t.op not in ('attr', 'dim', 'count', 'el', 'aix', 'param')) and not (t.op in ('tuple', 'list') and not numeric_list(t)):
      try:
        return self.build(t, s)
      except (NoShape, IndexError):
        pass
    return self.canon_args(t)

  def bools(self, t):
    def c(x):
      if x.op not in ('not', 'and', 'phi', 'lt0', 'eq') and not T._bool_like(x):
        s = self.known(x)
        if s:
          return T.truth(dimterm(s[0]))
      return self.canon(x)
    s = self.known(t)
    if t.op == 'not' and t.args[0].op == 'item' and s:
      return T.not_(c(t.args[0]))
    if s:
      try:
        return self.build(t, s)
      except (NoShape, IndexError):
        pass
    if t.op == 'phi':
      return T.phi(c(t.args[0]), self.canon(t.args[1]), self.canon(t.args[2]))
    return T.rebuild(t, tuple(c(x) for x in t.args))

  def build(self, t, s):
    if any(isinstance(d, int) and d > MAXDIM for d in s):
      raise NoShape(t)
    ph = tuple(d if isinstance(d, int) else mk('aixtmp', id(self), len(s), k) for k, d in enumerate(s))
    comps = []
    for i in indices(tuple(d if isinstance(d, int) else p for d, p in zip(s, ph))):
      comps.append(self.elem(t, i))
    if not s:
      return comps[0]
    h = 1 + max([height(c) for c in comps] + [0])
    sub = {p: mk('aix', h, k) for k, p in enumerate(ph) if not isinstance(p, int)}
    comps = tuple(T.subst(c, lambda x: sub.get(x)) for c in comps)
    return mk('arr', tuple(s), comps, h)

  def canon_args(self, t):
    na = tuple(self.args(a) for a in t.args)
    return T.rebuild(t, na) if na != t.args else t

  def args(self, a):
    if isinstance(a, T.Term):
      return self.canon(a)
    if isinstance(a, tuple):
      return tuple(self.args(x) for x in a)
    return a


_h = {}


def height(t):
  r = _h.get(t)
  if r is None:
    r = max([height(c) for c in T.children(t)] + [0])
    if t.op == 'arr':
      r = max(r, t.args[2])
    _h[t] = r
  return r


def numeric_list(t):
  return all(x.op not in ('tuple', 'list', 'dict', 'new', 'obj', 'glob', 'fn', 'param') or (x.op in ('tuple', 'list') and numeric_list(x)) for x in t.args)


def is_ellipsis(x):
  return x.op == 'const' and x.args[0] is Ellipsis or (x.op == 'glob' and x.args[0] in ('Ellipsis', '...'))


def is_mask(i):
  return i.op in ('lt0', 'eq', 'not', 'and', 'in')


def scalar_index(i):
  return (i.op in ('call', 'mcall') and (i.args[0] if i.op == 'mcall' else (i.args[0].args[0] if i.args[0].op == 'glob' else '')).split('.')[-1] in (
      'choice', 'integers', 'randint', 'argmin', 'argmax')) or i.op in ('bv', 'ix', 'ixc')


def dimterm(d):
  return const(d) if isinstance(d, int) else d


def same_dim(a, b):
  return a == b if isinstance(a, int) or isinstance(b, int) else a is b


def broadcast(a, b):
  if len(a) < len(b):
    a, b = b, a
  out = list(a)
  off = len(a) - len(b)
  for k, d in enumerate(b):
    e = out[off + k]
    if e == 1:
      out[off + k] = d
    elif d == 1 or same_dim(d, e):
      pass
    elif isinstance(d, int) and isinstance(e, int):
      raise Mismatch(None)
    else:
      raise NoShape(None)
  return tuple(out)


def align(idx, s):
  """Indices into an operand of shape s broadcast to the result."""
  idx = tuple(idx)[len(idx) - len(s):]
  return tuple(ZERO if d == 1 else i for i, d in zip(idx, s))


def axis(t, n):
  if not T.is_num(t):
    raise NoShape(t)
  a = int(T.cval(t))
  a = a if a >= 0 else a + n
  if not 0 <= a < n:
    raise NoShape(t)
  return a


def dims(t):
  xs = t.args if t.op in ('tuple', 'list') else (t,)
  out = []
  for x in xs:
    if not T.is_num(x):
      raise NoShape(t)
    out.append(int(T.cval(x)))
  return tuple(out)


def reshaped(s, args):
  if len(args) == 1 and args[0].op in ('tuple', 'list'):
    args = args[0].args
  want = []
  for a in args:
    if T.is_num(a):
      want.append(int(T.cval(a)))
    elif a.op in ('count', 'dim'):
      want.append(a)
    else:
      raise NoShape(a)
  sym = [d for d in s if not isinstance(d, int)]
  n = 1
  for d in s:
    n *= d if isinstance(d, int) else 1
  if -1 in want:
    k = want.index(-1)
    m = 1
    for j, d in enumerate(want):
      if j != k and isinstance(d, int):
        m *= d
    wsym = [d for d in want if not isinstance(d, int)]
    rest = [d for d in sym if d not in wsym]
    if len(rest) == 0:
      if n % m:
        raise Mismatch(None)
      want[k] = n // m
    elif len(rest) == 1 and n == m:
      want[k] = rest[0]
    elif len(rest) == 1 and n % m == 0 and len(sym) == 1:
      want[k] = mk('dimprod', rest[0], n // m)
    else:
      raise NoShape(None)
  elif sym and not all(d in want for d in sym):
    # a symbolic count forced to a number (one silicon): accepted when only one symbol is involved
    if len(sym) == 1:
      return tuple(want)
    raise NoShape(None)
  if not sym and all(isinstance(d, int) for d in want):
    m = 1
    for d in want:
      m *= d
    if m != n:
      raise Mismatch(None)
  return tuple(want)


def indices(s):
  out = [()]
  for d in s:
    out = [i + (const(k),) for i in out for k in range(d)] if isinstance(d, int) else [i + (d,) for i in out]
  return out


def remap(idx, s, src):
  """Index into an array of shape src for index idx into its reshape of shape s."""
  s1 = [(i, d) for i, d in zip(idx, s) if d != 1]
  d1 = [d for d in src if d != 1]
  if len(s1) == len(d1) and all(same_dim(d, e) for (_, d), e in zip(s1, d1)):
    it = iter(i for i, _ in s1)
    return tuple(ZERO if d == 1 else next(it) for d in src)
  if all(isinstance(d, int) for d in s) and all(T.is_num(i) for i in idx):
    flat = 0
    for i, d in zip(idx, s):
      flat = flat * d + int(T.cval(i))
    if all(isinstance(d, int) for d in src):
      out = []
      for d in reversed(src):
        out.append(const(flat % d))
        flat //= d
      return tuple(reversed(out))
    # forced symbolic leading dimension
    tail = 1
    for d in src[1:]:
      if not isinstance(d, int):
        raise NoShape(None)
      tail *= d
    out = []
    lead, rem = flat // tail, flat % tail
    for d in reversed(src[1:]):
      out.append(const(rem % d))
      rem //= d
    return (const(lead),) + tuple(reversed(out))
  raise NoShape(None)


def sliced(x, n):
  a, b, c = (list(x.args) + [T.NONE] * 3)[:3]
  if a is T.NONE and b is T.NONE and (c is T.NONE or c is const(-1)):
    return n
  if not isinstance(n, int) or any(v is not T.NONE and not T.is_num(v) for v in (a, b, c)):
    if (a is T.NONE or a is ZERO) and T.is_num(b) and T.cval(b) > 0 and c is T.NONE and isinstance(n, int):
      return min(int(T.cval(b)), n)
    raise NoShape(x)
  v = lambda t: None if t is T.NONE else int(T.cval(t))
  return len(range(*slice(v(a), v(b), v(c)).indices(n)))


def unslice(x, i, n):
  a, b, c = (list(x.args) + [T.NONE] * 3)[:3]
  if a is T.NONE and b is T.NONE and c is T.NONE:
    return i
  if not isinstance(n, int):
    if a is T.NONE and b is T.NONE and c is const(-1):
      return T.sub(T.sub(n, ONE), i)
    raise NoShape(x)
  v = lambda t: None if t is T.NONE else int(T.cval(t))
  st, _, step = slice(v(a), v(b), v(c)).indices(n)
  return T.add(const(st), T.mul(const(step), i))


def canon(t, shapes=None):
  try:
    return Canon(shapes).canon(t)
  except (NoShape, RecursionError):
    return t
