"""Equality of value terms up to the arrangement of their case distinctions.

Two terms are equal if they are equal under every consistent valuation of the conditions their case distinctions test.
"""
from . import terms as T
from .terms import mk, TRUE, FALSE, ZERO, ONE

BINDERS = {'mapl', 'mapf', 'sum', 'flatmap', 'fold', 'prod', 'anyl', 'alll', 'fill', 'dictmap', 'last', 'atbreak', 'lam'}


class Out(Exception):
  pass


_fv = {}


def free_vars(t):
  """Bound-variable heights occurring free."""
  r = _fv.get(t)
  if r is None:
    if t.op == 'bv':
      r = frozenset(t.args[:1])
    else:
      r = frozenset().union(*[free_vars(x) for x in _flat(t.args)])
      if t.args and isinstance(t.args[0], int) and t.op in BINDERS:
        r = r - {t.args[0]}
    _fv[t] = r
  return r


def closed(c, free):
  return free_vars(c) <= free


def split_cond(c, out):
  if c.op == 'and':
    for x in c.args:
      split_cond(x, out)
  elif c.op == 'not':
    split_cond(c.args[0], out)
  elif c.op == 'phi':
    split_cond(c.args[0], out)
    split_cond(T.truth(c.args[1]), out)
    split_cond(T.truth(c.args[2]), out)
  elif c.op == 'in' and c.args[1].op in ('list', 'tuple', 'set') and len(c.args[1].args) <= 6 and all(x.op == 'const' for x in c.args[1].args):
    out.append(c)
  elif c.op != 'const':
    out.append(c)


def first_atoms(t, free, out, seen):
  """Condition atoms, outermost first."""
  stack = [t]
  while stack:
    x = stack.pop()
    if not isinstance(x, T.Term) or x in seen:
      continue
    seen.add(x)
    if x.op == 'phi':
      split_cond(x.args[0], out)
    elif x.op in ('and', 'not'):
      split_cond(x, out)
    elif x.op in ('mapf',) and len(x.args) > 3 and isinstance(x.args[3], T.Term):
      pass
    args = []
    for a in x.args:
      if isinstance(a, tuple):
        args += _flat(a)
      elif isinstance(a, T.Term):
        args.append(a)
    stack.extend(reversed(args))


def _flat(a):
  o = []
  for y in a:
    if isinstance(y, tuple):
      o += _flat(y)
    elif isinstance(y, T.Term):
      o.append(y)
  return o


def atoms(t, free):
  out = []
  first_atoms(t, free, out, set())
  r = []
  for c in out:
    if c not in r and closed(c, free):
      r.append(c)
  return r


def assume(t, c, v, memo=None):
  """t under condition atom c having truth value v."""
  r = TRUE if v else FALSE
  extra = {}
  if v and c.op == 'eq':
    x, y = c.args
    if y.op == 'const' and x.op not in ('poly', 'const'):
      extra[x] = y
    elif x.op == 'const' and y.op not in ('poly', 'const'):
      extra[y] = x
    elif x.op == 'poly' and y is ZERO:
      # linear in one atom with unit coefficient and a constant
      items = dict(x.args)
      lin = [(m, k) for m, k in items.items() if m]
      if len(lin) == 1 and len(lin[0][0]) == 1 and lin[0][0][0][1] == 1 and set(items) <= {lin[0][0], ()}:
        extra[lin[0][0][0][0]] = T.const(-items.get((), 0) / lin[0][1])
  if v and c.op == 'is':
    x, y = c.args
    if y is T.NONE:
      extra[x] = y
    elif x is T.NONE:
      extra[y] = x
  if not v and T._is_size(c):
    extra[c] = ZERO

  whole = boolish(c)
  size0 = not v and T._is_size(c)
  vmemo, bmemo = {}, {}

  def val(x):
    """x in a value position."""
    m = vmemo.get(x)
    if m is None:
      m = vmemo[x] = val0(x)
    return m

  def val0(x):
    if x is c:
      if size0:
        return ZERO
      return r if whole else c
    if x.op == 'poly' and extra:
      for m, _k in x.args:
        for y, e in m:
          if e < 0 and extra.get(y) is ZERO:
            return mk('divzero')
    if x in extra:
      return extra[x]
    if x.op == 'sum' and not v and T.is_count(c) and x.args[:2] == c.args[:2] and x.args[2].op == 'phi':
      k, p, q = x.args[2].args
      k0, p0, q0 = c.args[2].args
      if k is k0 and ((p0 is ONE and q is ZERO) or (q0 is ONE and p is ZERO)):
        return ZERO
    if x.op == 'phi':
      return T.phi(cond(x.args[0]), val(x.args[1]), val(x.args[2]))
    if x.op in ('and', 'not'):
      return cond(x)
    na = tuple(sub(a) for a in x.args)
    return T.rebuild(x, na) if na != x.args else x

  def sub(a):
    if isinstance(a, T.Term):
      return val(a)
    if isinstance(a, tuple):
      return tuple(sub(y) for y in a)
    return a

  def cond(x):
    """x in a condition position."""
    m = bmemo.get(x)
    if m is None:
      if x is c:
        m = r
      elif x.op == 'and':
        m = T.and_(*[cond(y) for y in x.args])
      elif x.op == 'not':
        m = T.not_(cond(x.args[0]))
      elif x.op == 'phi':
        m = T.truth(T.phi(cond(x.args[0]), cond(x.args[1]), cond(x.args[2])))
      else:
        m = T.truth(val(x))
      bmemo[x] = m
    return m
  return cond(t) if boolish(t) else val(t)


def boolish(c):
  return T._bool_like(c) or c.op == 'raised' or (c.op == 'attr' and c.args[1].lstrip('_').startswith(('is_', 'has_', 'requires_'))) or (
      c.op == 'mcall' and c.args[0] in ('first', 'mid', 'last', 'startswith', 'endswith', 'exists', 'is_dir'))


def consistent(val):
  """Quick refutation of impossible combinations of conditions."""
  sign = {}
  consts = {}
  for c, v in val:
    if c.op == 'eq' and c.args[1].op == 'const' and c.args[0].op != 'poly' and not isinstance(c.args[1].args[0], bool):
      if v:
        k = consts.setdefault(c.args[0], c.args[1])
        if k is not c.args[1]:
          return False
    if c.op == 'lt0':
      d = c.args[0]
      sign.setdefault(d, []).append(('lt', v))
      sign.setdefault(T.neg(d) if hasattr(T, 'neg') else T.mul(T.const(-1), d), []).append(('gt', v))
    if c.op == 'eq' and c.args[1] is ZERO:
      d = c.args[0]
      for e in (d, T.mul(T.const(-1), d)):
        sign.setdefault(e, []).append(('eq', v))
    elif c.op == 'eq':
      d = T.sub(c.args[0], c.args[1])
      for e in (d, T.mul(T.const(-1), d)):
        sign.setdefault(e, []).append(('eq', v))
  for d, fs in sign.items():
    ok = False
    for s in ('lt', 'eq', 'gt'):
      if all((k == s) == v for k, v in fs):
        ok = True
        break
    if not ok:
      return False
  # interval consistency of lt0 facts over the same linear form
  forms = {}
  for c, v in val:
    if c.op == 'lt0' and c.args[0].op == 'poly':
      items = dict(c.args[0].args)
      k = items.pop((), 0)
      neg = {m: -x for m, x in items.items()}
      key = tuple(sorted(((T.skey(mk('m', m)), x) for m, x in items.items())))
      nkey = tuple(sorted(((T.skey(mk('m', m)), x) for m, x in neg.items())))
      if key <= nkey:
        # f + k < 0 : f < -k ; else f >= -k
        lo, hi = forms.setdefault(key, [None, None])
        if v:
          forms[key][1] = -k if hi is None else min(hi, -k)
        else:
          forms[key][0] = -k if lo is None else max(lo, -k)
      else:
        # -f + k < 0 : f > k ; else f <= k
        lo, hi = forms.setdefault(nkey, [None, None])
        if v:
          forms[nkey][0] = k if lo is None else max(lo, k)
        else:
          forms[nkey][1] = k if hi is None else min(hi, k)
  return all(lo is None or hi is None or lo <= hi for lo, hi in forms.values())


class Cmp:
  def __init__(self, budget=3000):
    self.budget = budget
    self.fail = None

  def eq(self, a, b, free=frozenset(), val=()):
    if a is b:
      return True
    self.budget -= 1
    if self.budget < 0:
      raise Out()
    if a.op == 'poly' or b.op == 'poly':
      try:
        if T.rat_equal(a, b):
          return True
      except RecursionError:
        pass
    cond = atoms(mk('pair', a, b), free)
    cond = [c for c in cond if (a is not c and b is not c)]
    if a.op == b.op and len(a.args) == len(b.args) and a.op not in ('poly', 'const', 'phi', 'and', 'not'):
      fr = free
      if a.op in BINDERS and a.args and a.args[0] == b.args[0] and isinstance(a.args[0], int):
        fr = free | {a.args[0]}
      # a failure below may still be an equality above when split on an outer condition
      saved = self.fail
      if self.args(a.args, b.args, fr, val):
        return True
      if cond:
        self.fail = saved
    for c in cond[:1]:
      while True:
        # conditions deciding what c itself speaks of come first
        inner = [x for x in atoms(mk('pair', *[y for y in c.args if isinstance(y, T.Term)]), free) if x is not c]
        if not inner:
          break
        c = inner[0]
      for v in (True, False):
        w = val + ((c, v),)
        if not consistent(w):
          continue
        if not self.eq(assume(a, c, v), assume(b, c, v), free, w):
          return False
      return True
    if a.op == b.op == 'poly' and self.poly(a, b, free, val):
      return True
    if self.fail is None:
      self.fail = (a, b, val)
    return False

  def poly(self, a, b, free, val):
    """Polynomials whose atoms correspond one to one up to case arrangement."""
    if len(a.args) != len(b.args):
      return False
    for (m, c), (n, d) in zip(a.args, b.args):
      if c != d or len(m) != len(n):
        return False
      for (x, e), (y, f) in zip(m, n):
        if e != f or not self.eq(x, y, free, val):
          return False
    return True

  def args(self, x, y, free, val):
    if isinstance(x, T.Term) and isinstance(y, T.Term):
      return self.eq(x, y, free, val)
    if isinstance(x, tuple) and isinstance(y, tuple):
      return len(x) == len(y) and all(self.args(p, q, free, val) for p, q in zip(x, y))
    return type(x) is type(y) and x == y


def probe(a, b):
  """A fully decided case in which the two differ, looked for along a few fixed decision sequences."""
  for k in range(6):
    x, y, val = a, b, ()
    for n in range(40):
      cond = atoms(mk('pair', x, y), frozenset())
      if not cond:
        c = Cmp(300)
        try:
          if not c.eq(x, y, frozenset(), val) and c.fail is not None:
            return c.fail[0], c.fail[1], val
        except (Out, RecursionError):
          pass
        break
      c = cond[0]
      while True:
        inner = [z for z in atoms(mk('pair', *[w for w in c.args if isinstance(w, T.Term)]), frozenset()) if z is not c]
        if not inner:
          break
        c = inner[0]
      v = (True, False, n % 2 == 0, n % 2 == 1, n % 3 == 0, n % 3 != 0)[k]
      if not consistent(val + ((c, v),)):
        v = not v
      val += ((c, v),)
      x, y = assume(x, c, v), assume(y, c, v)
  return None


def equal(a, b):
  """(verdict, failing leaf) with verdict None when the comparison was given up."""
  c = Cmp()
  try:
    ok = c.eq(a, b)
  except (Out, RecursionError):
    leaf = probe(a, b)
    return (None, None) if leaf is None else (False, leaf)
  return ok, c.fail
