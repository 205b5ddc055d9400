"""Bounds of scalar value terms: numeric intervals, and ends of terms affine in clipped quantities."""
import math

from . import terms as T
from .terms import mk, const

INF = (-math.inf, math.inf)
UNKNOWN = None
RANGES = {'numpy.tanh': (-1, 1), 'numpy.sin': (-1, 1), 'numpy.cos': (-1, 1), 'math.tanh': (-1, 1), 'math.sin': (-1, 1), 'math.cos': (-1, 1)}
KNOWN_LEAVES = {'el', 'attr', 'param', 'item', 'dim', 'count'}


def as_clip(t):
  """(x, lo, hi) of a clipping operation in any spelling, lo/hi None when one-sided."""
  if t.op == 'call' and t.args[0].op == 'glob':
    g, a, kw = t.args[0].args[0], t.args[1], dict(t.args[2])
    if g == 'numpy.clip':
      ends = list(a[1:]) + [kw[k] for k in ('a_min', 'a_max', 'min', 'max') if k in kw]
      if len(ends) == 2:
        return a[0], ends[0], ends[1]
    if g in ('numpy.minimum', 'min', 'numpy.fmin') and len(a) == 2:
      for x, c in (a, a[::-1]):
        if T.is_num(c):
          i = as_clip(x)
          if i is not None and i[2] is None:
            return i[0], i[1], c
          return x, None, c
    if g in ('numpy.maximum', 'max', 'numpy.fmax') and len(a) == 2:
      for x, c in (a, a[::-1]):
        if T.is_num(c):
          i = as_clip(x)
          if i is not None and i[1] is None:
            return i[0], c, i[2]
          return x, c, None
  if t.op == 'mcall' and t.args[0] == 'clip' and len(t.args[2]) == 2:
    return t.args[1], t.args[2][0], t.args[2][1]
  if t.op == 'cast':
    return as_clip(t.args[0])
  return None


def num(t):
  return float(T.cval(t)) if t is not None and T.is_num(t) else None


def interval(t, facts=()):
  """(lo, hi) of a scalar term, or None when an operation is not modelled."""
  if T.is_num(t):
    v = float(T.cval(t))
    return (v, v)
  c = as_clip(t)
  if c is not None:
    x, lo, hi = c
    i = interval(x, facts)
    l = interval(lo, facts) if lo is not None else (-math.inf, -math.inf)
    h = interval(hi, facts) if hi is not None else (math.inf, math.inf)
    if l is None or h is None:
      return None
    if i is None:
      i = INF
    # minimum(maximum(x, lo), hi)
    a = (max(i[0], l[0]), max(i[1], l[1]))
    return (min(a[0], h[0]), min(a[1], h[1]))
  r = by_facts(t, facts)
  op = t.op
  if op == 'cast':
    return meet(r, interval(t.args[0], facts))
  if op == 'poly':
    out = (0.0, 0.0)
    for m, k in t.args:
      p = (float(k), float(k))
      for b, e in m:
        i = interval(b, facts)
        if i is None:
          return r if r != INF else None
        p = times(p, power(i, e))
      out = (out[0] + p[0], out[1] + p[1])
    return meet(r, out)
  if op == 'phi':
    a = interval(t.args[1], facts + ((t.args[0], True),))
    b = interval(t.args[2], facts + ((t.args[0], False),))
    if a is None or b is None:
      return None
    return meet(r, (min(a[0], b[0]), max(a[1], b[1])))
  if op == 'call' and t.args[0].op == 'glob':
    g = t.args[0].args[0]
    if g in RANGES:
      return RANGES[g]
    if g in ('numpy.abs', 'abs', 'numpy.absolute'):
      i = interval(t.args[1][0], facts)
      return None if i is None else meet(r, (0.0 if i[0] <= 0 <= i[1] else min(abs(i[0]), abs(i[1])), max(abs(i[0]), abs(i[1]))))
    if g.startswith('putting_dune.'):
      return r
    return r if r != INF else None
  if op in KNOWN_LEAVES:
    return r
  if op == 'mcall' and t.args[1].op in ('attr', 'param', 'at'):
    return r
  return r if r != INF else None


def meet(a, b):
  if a is None or b is None:
    return b if a is None else a
  return (max(a[0], b[0]), min(a[1], b[1]))


def times(a, b):
  ps = [0.0 if x == 0 or y == 0 else x * y for x in a for y in b]
  return (min(ps), max(ps))


def power(i, e):
  try:
    if e == int(e) and e > 0:
      out = (1.0, 1.0)
      if int(e) % 2 == 0:
        m = max(abs(i[0]), abs(i[1]))
        lo = 0.0 if i[0] <= 0 <= i[1] else min(abs(i[0]), abs(i[1])) ** e
        return (lo, m ** e)
      for _ in range(int(e)):
        out = times(out, i)
      return out
    if e < 0 and (i[0] > 0 or i[1] < 0):
      p = power(i, -e)
      return tuple(sorted((1 / p[0] if p[0] else math.inf, 1 / p[1] if p[1] else math.inf)))
    if i[0] >= 0:
      return (i[0] ** float(e), i[1] ** float(e)) if e > 0 else INF
  except (OverflowError, ValueError):
    pass
  return INF


def by_facts(t, facts):
  """Bounds following from the branch conditions in force (each lt0(p) or its negation)."""
  lo, hi = INF
  todo = [(c, v) for c, v in facts]
  while todo:
    c, v = todo.pop()
    if c.op == 'not':
      todo.append((c.args[0], not v))
    elif c.op == 'and' and v:
      todo += [(x, True) for x in c.args]
    elif c.op == 'lt0':
      p = c.args[0]
      d = T.sub(p, t)          # p = t + d
      if T.is_num(d):
        k = float(T.cval(d))
        if v:
          hi = min(hi, -k)     # t + k < 0
        else:
          lo = max(lo, -k)
      s = T.add(p, t)          # p = s - t
      if T.is_num(s):
        k = float(T.cval(s))
        if v:
          lo = max(lo, k)      # k - t < 0
        else:
          hi = min(hi, k)
  return (lo, hi)


def ends(t, limit=8):
  """The values of t at the ends of every clipped quantity it is affine in; None when it is not of that form."""
  out = [t]
  for _ in range(6):
    nxt, changed = [], False
    for x in out:
      c = outer_clip(x)
      if c is None:
        nxt.append(x)
        continue
      changed = True
      _, lo, hi = as_clip(c)
      if lo is None or hi is None:
        return None
      if c is not x and not affine(x, c):
        return None
      for e in (lo, hi):
        nxt.append(T.subst(x, lambda y: e if y is c else None))
    out = nxt
    if not changed:
      return out
    if len(out) > limit * 8:
      return None
  return None


def outer_clip(t):
  best = None
  stack = [t]
  while stack:
    x = stack.pop()
    if as_clip(x) is not None:
      return x
    stack.extend(T.children(x))
  return best


def affine(t, c):
  """t = a + b*c with a, b free of c."""
  if t is c:
    return True
  if t.op != 'poly':
    return not T.contains_term(t, c)
  for m, _ in t.args:
    n = 0
    for b, e in m:
      if b is c:
        n += e
      elif T.contains_term(b, c):
        return False
    if n not in (0, 1):
      return False
  return True
