"""Hash-consed terms (value numbers) and their algebraic normal forms."""
from fractions import Fraction

_table = {}


class Term:
  __slots__ = ('op', 'args', 'uid', '_h')

  def __init__(self, op, args, uid):
    self.op, self.args, self.uid = op, args, uid
    self._h = None

  def __repr__(self):
    return show(self)

  def __hash__(self):
    return self.uid

  def __eq__(self, other):
    return self is other

  def __lt__(self, other):
    return skey(self) < skey(other)


def _argkey(a):
  if isinstance(a, Term):
    return ('T', a.uid)
  if isinstance(a, tuple):
    return tuple(_argkey(x) for x in a)
  return (type(a).__name__, a)


def mk(op, *args):
  k = (op,) + tuple(_argkey(a) for a in args)
  t = _table.get(k)
  if t is None:
    t = Term(op, args, len(_table))
    _table[k] = t
  return t


_skeys = {}


def skey(t):
  """A structural sort key (stable across runs)."""
  k = _skeys.get(t)
  if k is None:
    def a(x):
      if isinstance(x, Term):
        return skey(x)
      if isinstance(x, tuple):
        return '(' + ','.join(a(y) for y in x) + ')'
      return type(x).__name__ + ':' + str(x)
    k = t.op + '[' + ','.join(a(x) for x in t.args) + ']'
    if len(k) > 400:
      import hashlib
      k = k[:160] + hashlib.sha1(k.encode()).hexdigest()
    _skeys[t] = k
  return k


# ---------------------------------------------------------------- constants
NONE = mk('const', None)
TRUE = mk('const', True)
FALSE = mk('const', False)
UNDEF = mk('undef')


def const(v):
  if isinstance(v, bool) or v is None:
    return mk('const', v)
  if isinstance(v, int):
    return mk('const', Fraction(v))
  if isinstance(v, float):
    if v != v or v in (float('inf'), float('-inf')):
      return mk('const', repr(v) + '#float')
    return mk('const', Fraction(str(v)))
  if isinstance(v, Fraction):
    return mk('const', v)
  if isinstance(v, complex):
    return mk('const', repr(v))
  if isinstance(v, bytes):
    return mk('const', v)
  if v is Ellipsis:
    return mk('const', '...#ellipsis')
  return mk('const', v)


ZERO = const(0)
ONE = const(1)


def is_const(t):
  return t.op == 'const'


def cval(t):
  """Python value of a const term; numbers as int when integral."""
  v = t.args[0]
  if isinstance(v, Fraction) and v.denominator == 1:
    return int(v)
  return v


def is_num(t):
  return t.op == 'const' and isinstance(t.args[0], Fraction)


# ---------------------------------------------------------------- polynomials
# poly args: tuple of (monomial, coef); monomial: tuple of (atom, exp Fraction)

def _poly_items(t):
  if t.op == 'poly':
    return dict(t.args)
  if is_num(t):
    return {(): t.args[0]} if t.args[0] != 0 else {}
  if t.op == 'const' and isinstance(t.args[0], bool):
    return {(): Fraction(int(t.args[0]))} if t.args[0] else {}
  return {((t, Fraction(1)),): Fraction(1)}


def _from_items(d):
  d = {m: c for m, c in d.items() if c != 0}
  if not d:
    return ZERO
  if len(d) == 1:
    (m, c), = d.items()
    if m == ():
      return const(c)
    if c == 1 and len(m) == 1 and m[0][1] == 1:
      return m[0][0]
  items = tuple(sorted(d.items(), key=lambda mc: (
      [(skey(a), e) for a, e in mc[0]])))
  return mk('poly', *items)


def _mono_mul(m1, m2):
  d = {}
  for a, e in m1 + m2:
    d[a] = d.get(a, Fraction(0)) + e
  return tuple(sorted(((a, e) for a, e in d.items() if e != 0),
                      key=lambda ae: (skey(ae[0]), ae[1])))


def add(a, b):
  d = dict(_poly_items(a))
  for m, c in _poly_items(b).items():
    d[m] = d.get(m, Fraction(0)) + c
  return _from_items(d)


def neg(a):
  return _from_items({m: -c for m, c in _poly_items(a).items()})


def sub(a, b):
  return add(a, neg(b))


def mul(a, b):
  pa, pb = _poly_items(a), _poly_items(b)
  if len(pa) * len(pb) > 400:
    return mk('mulbig', *sorted((a, b)))
  d = {}
  redo = []
  for m1, c1 in pa.items():
    for m2, c2 in pb.items():
      m = _mono_mul(m1, m2)
      # poly atoms with positive integer exponent get re-expanded
      big = [(x, e) for x, e in m if x.op == 'poly' and e > 0 and e.denominator == 1]
      if big:
        redo.append((m, c1 * c2))
        continue
      d[m] = d.get(m, Fraction(0)) + c1 * c2
  out = _from_items(d)
  for m, c in redo:
    t = const(c)
    for x, e in m:
      t = mul(t, power(x, const(e))) if not (x.op == 'poly') else t
    for x, e in m:
      if x.op == 'poly':
        if e > 0 and e.denominator == 1:
          for _ in range(int(e)):
            t = mul(t, x)
        else:
          t = _from_items({_mono_mul(mm, ((x, e),)): cc
                           for mm, cc in _poly_items(t).items()})
    out = add(out, t)
  return out


def power(a, b):
  if is_num(b):
    e = b.args[0]
    if e == 0:
      return ONE
    if e == 1:
      return a
    if is_num(a) and e.denominator == 1 and (a.args[0] != 0 or e > 0) and abs(e) < 64:
      return const(a.args[0] ** int(e))
    p = _poly_items(a)
    if len(p) == 1:
      (m, c), = p.items()
      if e.denominator == 1:
        mm = tuple((x, ee * e) for x, ee in m)
        return mul(const(c ** int(e)) if abs(e) < 64 else power(const(c), b),
                   _from_items({mm: Fraction(1)}))
      if m and c == 1 and len(m) == 1:
        return _from_items({((m[0][0], m[0][1] * e),): Fraction(1)})
    if e.denominator == 1 and e > 0 and len(p) ** int(e) <= 200:
      r = a
      for _ in range(int(e) - 1):
        r = mul(r, a)
      return r
    if len(p) > 1:
      # normalise leading coefficient to one
      lead = a.args[0][1]
      base = _from_items({m: c / lead for m, c in p.items()})
      if e.denominator == 1:
        return mul(const(lead ** int(e)), _from_items({((base, e),): Fraction(1)}))
    return _from_items({((a, e),): Fraction(1)})
  return mk('pow', a, b)


def div(a, b):
  return mul(a, power(b, const(-1)))


def clear_denoms(t):
  """Multiplies a polynomial by all its (poly or atom) denominators."""
  for _ in range(20):
    den = {}
    for m, _c in _poly_items(t).items():
      for a, e in m:
        if e < 0:
          den[a] = min(den.get(a, 0), e)
    if not den:
      return t
    for a, e in den.items():
      # multiply every monomial by a^-e, expanding where possible
      out = ZERO
      for m, c in _poly_items(t).items():
        have = dict(m).get(a, Fraction(0))
        rest = tuple((x, y) for x, y in m if x is not a)
        tgt = have - e
        mon = _from_items({rest: c})
        if tgt > 0 and tgt.denominator == 1:
          for _i in range(int(tgt)):
            mon = mul(mon, a)
        elif tgt != 0:
          mon = mul(mon, _from_items({((a, tgt),): Fraction(1)}))
        out = add(out, mon)
      t = out
  return t


def rat_equal(a, b):
  if a is b:
    return True
  d = sub(a, b)
  return clear_denoms(d) is ZERO


def poly_bases(t):
  return [b for m, _ in t.args for b, _ in m]


def poly_terms(t):
  """List of (coef, [(atom, exp)...])."""
  return [(c, list(m)) for m, c in _poly_items(t).items()]


# ---------------------------------------------------------------- booleans

def _bool_like(t):
  return t.op in ('lt0', 'eq', 'is', 'in', 'not', 'and', 'isinstance', 'any', 'all') or (
      t.op == 'const' and isinstance(t.args[0], bool))


def truth(t):
  """Normalises a term used as a condition."""
  if t.op == 'const':
    v = t.args[0]
    if isinstance(v, str) and v.endswith('#float'):
      return TRUE
    return TRUE if v else FALSE
  if t.op == 'phi':
    c, a, b = t.args
    a, b = truth(a), truth(b)
    if a is TRUE and b is FALSE:
      return c
    if a is FALSE and b is TRUE:
      return not_(c)
    if b is FALSE:
      return and_(c, a)
    if a is TRUE:
      return or_(c, b)
    if a is FALSE:
      return and_(not_(c), b)
    if b is TRUE:
      return or_(not_(c), a)
    return phi(c, a, b)
  if t.op in ('list', 'tuple', 'dict'):
    return TRUE if t.args else FALSE
  if class_like(t):
    return TRUE
  if t.op in ('mapf', 'mapl') and LEN:
    return truth(LEN[0](t))
  if t.op == 'call' and t.args[0] is _g('len') and len(t.args[1]) == 1:
    return truth(t.args[1][0])
  if t.op == 'call' and t.args[0] is _g('bool') and len(t.args[1]) == 1:
    return truth(t.args[1][0])
  return t


def _g(name):
  return mk('glob', name)


def not_(t):
  t = truth(t)
  if t is TRUE:
    return FALSE
  if t is FALSE:
    return TRUE
  if t.op == 'not':
    return t.args[0]
  return mk('not', t)


def and_(*ts):
  out = set()
  for t in ts:
    t = truth(t)
    if t is FALSE:
      return FALSE
    if t is TRUE:
      continue
    if t.op == 'and':
      out.update(t.args)
    else:
      out.add(t)
  # complement
  for t in out:
    if t.op == 'not' and t.args[0] in out:
      return FALSE
  # not(and(...)) whose conjuncts are partially known: a & ~(a & b) -> a & ~b
  changed = True
  while changed:
    changed = False
    for t in list(out):
      if t.op == 'not' and t.args[0].op == 'and':
        rest = [x for x in t.args[0].args if x not in out]
        if len(rest) < len(t.args[0].args):
          out.discard(t)
          n = not_(and_(*rest)) if rest else FALSE
          if n is FALSE:
            return FALSE
          out.update(n.args if n.op == 'and' else (n,))
          changed = True
  if not out:
    return TRUE
  if len(out) == 1:
    return next(iter(out))
  return mk('and', *sorted(out))


def or_(*ts):
  return not_(and_(*[not_(t) for t in ts]))


def lt(a, b):
  d = sub(a, b)
  if is_num(d):
    return TRUE if d.args[0] < 0 else FALSE
  # orientation: lt0(d).
  d2 = _scale_pos(d)
  # n > 0 for sizes:  lt0(-n)
  if d2.op == 'poly' and len(d2.args) == 1 and d2.args[0][1] < 0:
    m = d2.args[0][0]
    if len(m) == 1 and m[0][1] == 1 and _is_size(m[0][0]):
      return truth(m[0][0])
  # n < 1 for sizes
  if d2.op == 'poly':
    its = dict(d2.args)
    if len(its) == 2 and () in its and its[()] == -1:
      (m, c), = [(m, c) for m, c in its.items() if m != ()]
      if c == 1 and len(m) == 1 and m[0][1] == 1 and _is_size(m[0][0]):
        return not_(truth(m[0][0]))
  return mk('lt0', d2)


def _scale_pos(d):
  if d.op != 'poly':
    return d
  lead = abs(d.args[0][1])
  if lead == 1:
    return d
  return _from_items({m: c / lead for m, c in d.args})


def _is_size(t):
  return (t.op == 'call' and t.args[0] is _g('len')) or (
      t.op == 'attr' and t.args[1] == 'size') or (
      t.op == 'item' and t.args[0].op == 'attr' and t.args[0].args[1] == 'shape') or t.op in ('dim', 'count', 'dimprod') or is_count(t)


def is_count(t):
  """Number of elements satisfying a condition."""
  if t.op != 'sum':
    return False
  b = t.args[2]
  return b.op == 'phi' and b.args[1] in (ZERO, ONE) and b.args[2] in (ZERO, ONE)


def le(a, b):
  return not_(lt(b, a))


def eq(a, b):
  if a is b:
    return TRUE
  if a.op == 'const' and b.op == 'const':
    return FALSE
  if is_num(a):
    a, b = b, a
  if b is ZERO and _is_size(a):
    return not_(truth(a))
  for x, y in ((a, b), (b, a)):
    if y.op == 'const' and x.op == 'phi' and x.args[1].op == 'const' and x.args[2].op == 'const':
      return truth(phi(x.args[0], eq(x.args[1], y), eq(x.args[2], y)))
  if a.op == 'poly' or b.op == 'poly':
    d = sub(a, b)
    if d is ZERO:
      return TRUE
    if is_num(d):
      return FALSE
    if d.op == 'poly' and d.args[0][1] != 1:
      lead = d.args[0][1]
      d = _from_items({m: c / lead for m, c in d.args})
    return mk('eq', d, ZERO)
  if b.op == 'const' and isinstance(b.args[0], bool) and _bool_like(a):
    return a if b is TRUE else not_(a)
  if a.op == 'const' and isinstance(a.args[0], bool) and _bool_like(b):
    return b if a is TRUE else not_(b)
  x, y = sorted((a, b))
  return mk('eq', x, y)


LEN = []


def class_like(t):
  if t.op != 'glob' or not t.args[0].startswith('putting_dune.'):
    return False
  n = t.args[0].rpartition('.')[2].lstrip('_')
  return n[:1].isupper() and n != n.upper()


def is_(a, b):
  if a is b:
    return TRUE
  if b is not NONE and a is NONE:
    a, b = b, a
  if b is NONE:
    if a.op == 'phi':
      c, x, y = a.args
      return truth(mk('phi', c, is_(x, NONE), is_(y, NONE)))
    if a.op in ('list', 'tuple', 'dict', 'new', 'obj', 'ref', 'fill', 'poly', 'mapl', 'concat', 'fn', 'set', 'strcat', 'store') or (
        a.op == 'const') or class_like(a):
      return FALSE
    if a.op == 'call' and a.args[0].op == 'glob' and a.args[0].args[0].split('.')[0] in (
        'numpy', 'tensorflow', 'jax', 'scipy'):
      return FALSE
  elif b.op == 'const' and isinstance(b.args[0], bool):
    return eq(a, b)
  x, y = (a, b) if b is NONE else sorted((a, b))
  return mk('is', x, y)


# ---------------------------------------------------------------- phi

def phi(c, a, b):
  c = truth(c)
  if c is TRUE:
    return a
  if c is FALSE:
    return b
  if a is b:
    return a
  if c.op == 'not':
    return phi(c.args[0], b, a)
  if a.op == 'const' and b.op == 'const' and isinstance(a.args[0], bool) and isinstance(
      b.args[0], bool):
    return c if a is TRUE else not_(c)
  a = assume(a, c, True)
  b = assume(b, c, False)
  if a is b:
    return a
  if c.op == 'is' and a is NONE and b is c.args[0] and c.args[1] is NONE:
    return b
  # phi(c, phi(d, x, y), y) -> phi(c & d, x, y)
  if a.op == 'phi' and a.args[2] is b:
    return phi(and_(c, a.args[0]), a.args[1], b)
  if a.op == 'phi' and a.args[1] is b:
    return phi(and_(c, not_(a.args[0])), a.args[2], b)
  if b.op == 'phi' and b.args[1] is a:
    return phi(or_(c, b.args[0]), a, b.args[2])
  if b.op == 'phi' and b.args[2] is a:
    return phi(or_(c, not_(b.args[0])), a, b.args[1])
  return mk('phi', c, a, b)


def assume(t, c, val, depth=4):
  """Simplifies nested phis of t under condition c == val (shallow)."""
  if t.op != 'phi' or depth == 0:
    return t
  d = cond_under(t.args[0], c, val)
  if d is TRUE:
    return assume(t.args[1], c, val, depth - 1)
  if d is FALSE:
    return assume(t.args[2], c, val, depth - 1)
  x, y = assume(t.args[1], c, val, depth - 1), assume(t.args[2], c, val, depth - 1)
  if d is t.args[0] and x is t.args[1] and y is t.args[2]:
    return t
  return phi(d, x, y)


def cond_under(d, c, val):
  if d is c:
    return TRUE if val else FALSE
  if d.op == 'not':
    r = cond_under(d.args[0], c, val)
    return not_(r) if r is not d.args[0] else d
  known = None
  if val and c.op == 'and':
    known = set(c.args)
  elif val:
    known = {c}
  elif c.op != 'and':
    known = {not_(c)}
  else:
    known = set()
    # not(and(...)): contradiction only if d contains all
    if d.op == 'and' and set(c.args) <= set(d.args):
      return FALSE
  if d in known:
    return TRUE
  if not_(d) in known:
    return FALSE
  if d.op == 'and':
    rest = []
    ch = False
    for x in d.args:
      if x in known:
        ch = True
        continue
      if not_(x) in known:
        return FALSE
      rest.append(x)
    if ch:
      return and_(*rest)
  return d


# ---------------------------------------------------------------- traversal

def children(t):
  def go(a):
    if isinstance(a, Term):
      yield a
    elif isinstance(a, tuple):
      for x in a:
        yield from go(x)
  for a in t.args:
    yield from go(a)


def subterms(t, seen=None):
  if seen is None:
    seen = set()
  stack = [t]
  while stack:
    x = stack.pop()
    if x in seen:
      continue
    seen.add(x)
    yield x
    stack.extend(children(x))


def contains(t, pred):
  return any(pred(x) for x in subterms(t))


def contains_term(t, s):
  return any(x is s for x in subterms(t))


def rebuild(t, args):
  """Rebuilds a term with new args through the smart constructors."""
  op = t.op
  if op == 'poly':
    out = ZERO
    for m, c in args[0:]:
      mon = const(c)
      for a, e in m:
        mon = mul(mon, power(a, const(e)))
      out = add(out, mon)
    return out
  if op == 'phi':
    return phi(*args)
  if op == 'not':
    return not_(*args)
  if op == 'and':
    return and_(*args)
  if op == 'eq':
    return eq(*args)
  if op == 'is':
    return is_(*args)
  if op == 'lt0':
    return lt(args[0], ZERO)
  if op == 'pow':
    return power(*args)
  if op in REBUILD:
    return REBUILD[op](*args)
  return mk(op, *args)


REBUILD = {}


def subst(t, fn, memo=None):
  """Bottom-up rewriting: fn(term) -> replacement or None."""
  if memo is None:
    memo = {}

  def go(x):
    r = memo.get(x)
    if r is not None:
      return r
    pre = fn(x)
    if pre is not None:
      memo[x] = pre
      return pre
    na = tuple(goa(a) for a in x.args)
    r = rebuild(x, na) if na != x.args else x
    memo[x] = r
    return r

  def goa(a):
    if isinstance(a, Term):
      return go(a)
    if isinstance(a, tuple):
      return tuple(goa(y) for y in a)
    return a
  return go(t)


def rewrite(t, fn, memo=None):
  """Bottom-up rewriting where fn sees nodes after their children."""
  if memo is None:
    memo = {}

  def go(x):
    r = memo.get(x)
    if r is not None:
      return r
    na = tuple(goa(a) for a in x.args)
    r = rebuild(x, na) if na != x.args else x
    for _ in range(12):
      n = fn(r)
      if n is None or n is r:
        break
      r = n
    memo[x] = r
    return r

  def goa(a):
    if isinstance(a, Term):
      return go(a)
    if isinstance(a, tuple):
      return tuple(goa(y) for y in a)
    return a
  return go(t)


# ---------------------------------------------------------------- printing

def show(t, depth=8):
  if not isinstance(t, Term):
    if isinstance(t, tuple):
      return '(' + ', '.join(show(x, depth) for x in t) + ')'
    return str(t)
  if depth <= 0:
    return '…'
  d = depth - 1
  op, a = t.op, t.args
  if op == 'const':
    return repr(cval(t)) if not isinstance(a[0], Fraction) else str(a[0])
  if op == 'param':
    return a[0]
  if op == 'glob':
    return a[0]
  if op == 'attr':
    v = ('@' + show(a[2], 3)) if len(a) > 2 and a[2] is not NONE else ''
    return f'{show(a[0], d)}.{a[1]}{v}'
  if op == 'item':
    return f'{show(a[0], d)}[{show(a[1], d)}]'
  if op == 'call':
    s = ', '.join([show(x, d) for x in a[1]] + [f'{k}={show(v, d)}' for k, v in a[2]])
    tag = f'#{a[3]}' if a[3] is not None else ''
    return f'{show(a[0], d)}({s}){tag}'
  if op == 'mcall':
    s = ', '.join([show(x, d) for x in a[2]] + [f'{k}={show(v, d)}' for k, v in a[3]])
    tag = f'#{a[4]}' if a[4] is not None else ''
    return f'{show(a[1], d)}.{a[0]}({s}){tag}'
  if op == 'poly':
    out = []
    for m, c in a:
      f = '*'.join(show(x, d) + (f'^{e}' if e != 1 else '') for x, e in m)
      out.append(f if c == 1 and f else (f'{c}*{f}' if f else str(c)))
    return '(' + ' + '.join(out) + ')'
  if op == 'phi':
    return f'({show(a[1], d)} if {show(a[0], d)} else {show(a[2], d)})'
  if op == 'not':
    return f'!{show(a[0], d)}'
  if op == 'and':
    return '(' + ' & '.join(show(x, d) for x in a) + ')'
  if op == 'lt0':
    return f'({show(a[0], d)} < 0)'
  if op in ('eq', 'is', 'in'):
    return f'({show(a[0], d)} {op} {show(a[1], d)})'
  if op == 'new':
    return a[0].split('.')[-1] + '{' + ', '.join(f'{k}={show(v, d)}' for k, v in a[1]) + '}'
  return op + '(' + ', '.join(show(x, d) for x in a) + ')'
