"""Key linearity on the value graph: in every function that handles jax random keys, the uses of each key value (random primitive, split,
a call consuming it, a scan or comprehension over it, return, storing) are collected with their path conditions and loops; two compatible
uses of one key, a use repeated by a loop the key does not depend on, and a key returned or kept after its use are violations."""
import ast

from .. import terms as T
from ..terms import mk
from ..prog import PKG, dotted
from .c05 import CLOCK

MIN_OBLIGATIONS = 15
TECHNIQUE = 'typestate (linearity) analysis of random keys on the value graph'
LOOPING = {'jax.lax.scan', 'jax.lax.map', 'jax.lax.fori_loop', 'jax.lax.while_loop', 'jax.lax.associative_scan'}
MAPPING = {'jax.vmap', 'jax.pmap'}
WRAPS = MAPPING | {'jax.jit', 'jax.grad', 'jax.value_and_grad', 'jax.checkpoint', 'jax.remat', 'functools.partial', 'jax.experimental.jax2tf.convert'}
MAKE = {'jax.random.PRNGKey', 'jax.random.key', 'jax.random.wrap_key_data'}
FREE = {'jax.random.key_data', 'jax.random.key_impl', 'jax.random.PRNGKey', 'jax.random.key', 'jax.random.wrap_key_data', 'jax.random.default_prng_impl'}
ATOMIC = ('item', 'attr', 'attrv', 'param', 'lamparam', 'mu', 'call', 'lbv', 'ix')


def gname(t):
  return t.args[0] if t is not None and t.op == 'glob' else None


def fname(t):
  return gname(t.args[0]) if t.op == 'call' else None


def key_param(n):
  return n in ('key', 'rng', 'rng_key', 'prng', 'prng_key') or n.endswith('_key')


def keys_param(n):
  return n in ('keys', 'rngs', 'rng_keys') or n.endswith('_keys')


def host_rng(f, n):
  a = f.node.args
  for x in a.posonlyargs + a.args + a.kwonlyargs:
    if x.arg == n and x.annotation is not None:
      s = ast.unparse(x.annotation)
      return 'Generator' in s or 'RandomState' in s or s in ('str', 'int')
  return False


class Fn:
  """The linearity analysis of one function."""

  def __init__(self, A, f, names):
    self.A, self.f = A, f
    kw = dict(no_inline=lambda g: g is not f and g.qual in names)
    self.run = A.node(f, **kw) if f.cls is None else A.method(f.cls.qual.replace(PKG + '.', ''), f.name, **kw)
    self.it = self.run.it
    self.kinds = {}
    self.lam = {}
    for fn, cl in self.it.closures.items():
      for t in cl.get('terms', {}).values():
        self.lam.setdefault(t, set()).add(fn.args[0])
    self.handles = {}
    self.uses = []
    self.consumed_params()
    self.collect()

  # ---- what is a key
  def consumed_params(self):
    """Terms used directly as the key of a jax random function."""
    self.direct = set()
    self.arrays = set()
    for e in self.run.events:
      if e.kind != 'call' or not isinstance(e.d.get('fn'), T.Term):
        continue
      fn = self.it.closed(e.fn)
      g = gname(fn) or ''
      if g.startswith('jax.random.') and g not in FREE | MAKE:
        k = e.args[0] if e.args else (e.kwargs or {}).get('key')
        if k is not None:
          self.direct.add(self.it.closed(k))
      while fn.op == 'call' and fname(fn) in WRAPS - MAPPING and fn.args[1]:
        fn = fn.args[1][0]
      f = self.A.prog.funcs.get(gname(fn) or '')
      if f is not None and f.mod.name.startswith(PKG):
        a = f.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        for n, v in list(zip(ps, e.args)) + list((e.kwargs or {}).items()):
          if n and key_param(n) and not host_rng(f, n):
            self.direct.add(self.it.closed(v))
    # what a scanned or mapped function is given one by one
    for _ in range(3):
      for e in self.run.events:
        if e.kind != 'call' or not isinstance(e.d.get('fn'), T.Term):
          continue
        fn, args, kw = self.it.closed(e.fn), [self.it.closed(a) for a in e.args], {n: self.it.closed(v) for n, v in (e.kwargs or {}).items()}
        g = gname(fn)
        if g == 'jax.lax.scan':
          xs = args[2] if len(args) > 2 else kw.get('xs')
          init = args[1] if len(args) > 1 else kw.get('init')
          for i in self.lams(args[0] if args else kw.get('f')):
            self.given(mk('lamparam', i, 1), xs, True)
            self.given(mk('lamparam', i, 0), init, False)
        elif g == 'jax.lax.map' and len(args) > 1:
          for i in self.lams(args[0]):
            self.given(mk('lamparam', i, 0), args[1], True)
        elif fn.op == 'call' and fname(fn) in MAPPING and fn.args[1]:
          for i in self.lams(fn.args[1][0]):
            for j, a in enumerate(args):
              self.given(mk('lamparam', i, j), a, True)
        elif fn.op == 'lam' or fn.op == 'call' and fname(fn) in WRAPS and fn.args[1]:
          for i in self.lams(fn if fn.op == 'lam' else fn.args[1][0]):
            for j, a in enumerate(args):
              self.given(mk('lamparam', i, j), a, False)
    self.kinds = {}

  def lams(self, t):
    while t is not None and t.op == 'call' and fname(t) in WRAPS and t.args[1]:
      t = t.args[1][0]
    return {t.args[0]} | self.lam.get(t, set()) if t is not None and t.op == 'lam' else set()

  def given(self, p, v, one):
    if v is None:
      return
    if v.op in ('tuple', 'list'):
      for i, x in enumerate(v.args):
        self.given(mk('item', p, T.const(i)), x, one)
      return
    self.kinds = {}
    k = self.kind(v)
    if k == 'keys' and one or k == 'key' and not one:
      self.direct.add(p)
    elif k == 'keys':
      self.arrays.add(p)

  def kind(self, t):
    """'key', 'keys' or None."""
    if t in self.kinds:
      return self.kinds[t]
    self.kinds[t] = None
    self.kinds[t] = k = self._kind(t)
    return k

  def _kind(self, t):
    if t.op == 'phi':
      return self.kind(t.args[1]) or self.kind(t.args[2])
    if t.op == 'call':
      g = fname(t)
      if g in MAKE or g == 'jax.random.fold_in':
        return 'key'
      if g == 'jax.random.split' or g is None and fname(t.args[0]) in MAPPING and any(gname(a) == 'jax.random.split' for a in t.args[0].args[1]):
        return 'keys'
    if t.op == 'item':
      b = self.kind(t.args[0])
      if b == 'keys':
        return 'keys' if t.args[1].op == 'slice' else 'key'
      if t.args[0].op == 'call':
        r = self.returned(fname(t.args[0]))
        if r and t.args[1].op == 'const' and t.args[1].args[0] in r:
          return 'key'
    if t.op == 'param' and (key_param(t.args[0]) or keys_param(t.args[0])) and not host_rng(self.f, t.args[0]):
      return 'key' if key_param(t.args[0]) else 'keys'
    if t.op in ('attr', 'attrv') and t.args[1] in ('rng', 'key', '_rng', '_key') and t.args[0].op == 'param':
      return 'key' if t in self.direct or 'learn_rates' in self.f.qual else None
    if t in self.arrays:
      return 'keys'
    if t in self.direct:
      return 'key'
    return None

  def returned(self, g):
    """Positions of keys in what a function of the repository returns."""
    f = self.A.prog.funcs.get(g or '')
    if f is None or f is self.f:
      return set()
    return self.A.c06_returns(f)

  # ---- uses
  def leaves(self, t, ctx):
    if t.op == 'phi':
      yield from self.leaves(t.args[1], ctx + (('if', t.args[0], True),))
      yield from self.leaves(t.args[2], ctx + (('if', t.args[0], False),))
    else:
      yield t, ctx

  def parts(self, t, ctx, depth=0):
    """The leaves of a structured value."""
    if t.op == 'phi':
      yield from self.parts(t.args[1], ctx + (('if', t.args[0], True),), depth)
      yield from self.parts(t.args[2], ctx + (('if', t.args[0], False),), depth)
    elif t.op in ('tuple', 'list', 'set') and depth < 6:
      for a in t.args:
        yield from self.parts(a, ctx, depth + 1)
    elif t.op == 'dict' and depth < 6:
      for a in t.args:
        yield from self.parts(a[1], ctx, depth + 1)
    elif t.op == 'new' and depth < 6:
      for _, v in t.args[1]:
        yield from self.parts(v, ctx, depth + 1)
    else:
      yield t, ctx

  def where_in(self, t):
    """(array of keys, first, one past last or None) or (key, None, None)."""
    lo = T.ZERO
    if t.op == 'item' and self.kind(t.args[0]) == 'keys':
      b, i = t.args
      if i.op == 'slice':
        b2, l, h = self.where_in(b) if b.op == 'item' else (b, T.ZERO, None)
        s = T.ZERO if i.args[0] is T.NONE else i.args[0]
        hi = None if i.args[1] is T.NONE or l is not T.ZERO else i.args[1]
        return b2, T.add(l or T.ZERO, s), hi
      b2, l, h = self.where_in(b) if b.op == 'item' and b.args[1].op == 'slice' else (b, T.ZERO, None)
      if i.op == 'const' and T.is_num(i):
        if T.cval(i) < 0:
          n = self.count(b)
          i = T.add(n, i) if n is not None else mk('item', b, i)
        p = T.add(l, i)
        return b2, p, T.add(p, T.ONE)
      if i.op in ('ix', 'lbv', 'bv'):
        return b2, l, h
      return t, None, None
    if self.kind(t) == 'keys':
      return t, T.ZERO, None
    return t, None, None

  def count(self, s):
    if fname(s) == 'jax.random.split':
      a = s.args[1][1] if len(s.args[1]) > 1 else dict(s.args[2]).get('num', T.const(2))
      return a
    return None

  def use(self, t, e, what, sample=False, same=None):
    ctx0 = tuple(e.ctx)
    for k, ctx in self.leaves(self.it.closed(t), ctx0):
      if self.kind(k) is None:
        continue
      self.uses.append(Use(self, k, ctx, e, what, sample, same))

  def collect(self):
    it = self.it
    for e in self.run.events:
      if e.kind != 'call':
        continue
      fn = e.d.get('fn')
      fn = it.closed(fn) if isinstance(fn, T.Term) else None
      g = gname(fn)
      args, kw = list(e.args), dict(e.kwargs or {})
      same = (fn, e.d.get('name'), tuple(strip(it.closed(a)) for a in args), tuple(sorted((n, strip(it.closed(v))) for n, v in kw.items())))
      if g and g.startswith('jax.random.'):
        if g in FREE:
          continue
        k = args[0] if args else kw.get('key')
        if g == 'jax.random.fold_in':
          d = args[1] if len(args) > 1 else kw.get('data')
          self.use(k, e, 'fold_in', same=('fold_in', it.closed(d) if d is not None else None))
        elif k is not None:
          self.use(k, e, g, sample=g != 'jax.random.split')
        continue
      if g in WRAPS or g and g.split('.')[0] in ('numpy', 'functools', 'logging') or g in ('len', 'print', 'list', 'tuple', 'enumerate', 'zip', 'range', 'isinstance', 'hasattr'):
        continue
      if g and g.startswith('jax.') and g not in LOOPING and not g.startswith('jax.lax.'):
        if g.startswith(('jax.numpy', 'jax.tree', 'jax.nn', 'jax.debug')):
          continue
      what = e.d.get('name') or (g.replace(PKG + '.', '') if g else 'call')
      for a in args + list(kw.values()):
        a = it.closed(a)
        if a.op in ('tuple', 'list', 'dict', 'phi'):
          for t, ctx in self.parts(a, tuple(e.ctx)):
            if self.kind(t):
              self.uses.append(Use(self, t, ctx, e, what, False, same))
        else:
          self.use(a, e, what, same=same)
    # a key handed to a loop that carries it on
    for li in it.loops.values():
      for key, (mu, init, end) in li.carried.items():
        if mu in self.direct or any(u.k is mu or u.base is mu for u in self.uses):
          for k, ctx in self.leaves(it.closed(init), ()):
            if self.kind(k):
              self.kinds[k] = 'key'
              self.uses.append(Use(self, k, ctx + self.loop_ctx(li), None, 'carried through the loop', False, ('carried', li.uid, key)))
    self.dedupe()

  def loop_ctx(self, li):
    for e in self.run.events:
      for i, c in enumerate(e.ctx):
        if c[0] == 'loop' and c[1] == li.uid:
          return tuple(e.ctx[:i])
    return ()

  def dedupe(self):
    """A closure both called in place and passed on is one use of what it captures."""
    plain = {(id(u.e.node), u.k) for u in self.uses if u.e is not None and not any(c[0] == 'lambda' for c in u.ctx)}
    out, seen = [], set()
    for u in self.uses:
      if u.e is not None and any(c[0] == 'lambda' for c in u.ctx):
        key = (id(u.e.node), u.k, tuple(c[1] for c in u.ctx if c[0] == 'lambda')[-1:])
        if (id(u.e.node), u.k) in plain or key in seen:
          continue
        seen.add(key)
      out.append(u)
    self.uses = out

  # ---- verdicts
  def looping(self, lid):
    """How a closure is repeated: 'scan', 'map' or None."""
    best = None
    for e in self.run.events:
      if e.kind != 'call':
        continue
      g = gname(e.d.get('fn'))
      for a in list(e.args) + list((e.kwargs or {}).values()):
        a = self.it.closed(a)
        for t in T.subterms(a):
          if t.op == 'lam' and lid in self.lam.get(t, ()):
            if g in LOOPING:
              return 'scan'
            if g in MAPPING:
              best = 'map'
    return best

  def depends(self, k, what, uid):
    if what == 'lambda':
      return T.contains(k, lambda x: x.op == 'lamparam' and x.args[0] == uid)
    mus = set()
    li = self.it.loops.get(uid)
    if li is not None:
      mus = {mu for mu, _, _ in li.carried.values()}
    return T.contains(k, lambda x: x.op == 'ix' and x.args[0] == uid or x in mus or x.op == 'elem' and uid in x.args)

  def copies(self, t):
    """The key a value repeats, or None."""
    n, a = '', ()
    if t.op == 'call' and (fname(t) or '').startswith(('jax.numpy.', 'numpy.')):
      n, a = fname(t).rsplit('.', 1)[-1], t.args[1]
    elif t.op == 'mcall':
      n, a = t.args[0], (t.args[1],)
    if not a:
      return None
    if n in ('stack', 'array', 'asarray', 'vstack', 'concatenate'):
      x = a[0]
      if x.op == 'repeat':
        for y in x.args:
          if y.op in ('list', 'tuple') and y.args and all(self.kind(z) == 'key' for z in y.args):
            return y.args[0]
      return None
    return a[0] if n in ('tile', 'repeat', 'broadcast_to', 'resize') and self.kind(a[0]) else None

  def mapped(self):
    """(first parameter given element by element, value, event) of the functions mapped over arrays."""
    for e in self.run.events:
      if e.kind != 'call' or not isinstance(e.d.get('fn'), T.Term):
        continue
      fn, args, kw = self.it.closed(e.fn), [self.it.closed(a) for a in e.args], {n: self.it.closed(v) for n, v in (e.kwargs or {}).items()}
      g = gname(fn)
      if g == 'jax.lax.scan':
        xs = args[2] if len(args) > 2 else kw.get('xs')
        for i in self.lams(args[0] if args else kw.get('f')):
          if xs is not None:
            for j, x in enumerate(xs.args) if xs.op in ('tuple', 'list') else ((None, xs),):
              p = mk('lamparam', i, 1)
              yield p if j is None else mk('item', p, T.const(j)), x, e
      elif g == 'jax.lax.map' and len(args) > 1:
        for i in self.lams(args[0]):
          yield mk('lamparam', i, 0), args[1], e
      elif fn.op == 'call' and fname(fn) in MAPPING and fn.args[1]:
        for i in self.lams(fn.args[1][0]):
          for j, a in enumerate(args):
            yield mk('lamparam', i, j), a, e

  def problems(self):
    for p, v, e in self.mapped():
      k = self.copies(v)
      if k is not None and p in self.direct:
        yield Use(self, k, tuple(e.ctx), e, 'mapped', False, None), None, f'the function mapped gets {T.show(k, 3)} more than once'
    for u in self.uses:
      for c in u.ctx:
        if c[0] == 'loop' and u.hi is None and u.k.op == 'item' and u.k.args[1].op == 'ix' and u.k.args[1].args[0] == c[1]:
          continue
        if c[0] == 'loop' and not self.depends(u.k, 'loop', c[1]):
          yield u, None, f'{T.show(u.k, 3)} is used again by every iteration'
          break
        if c[0] == 'lambda' and not self.depends(u.k, 'lambda', c[1]):
          how = self.looping(c[1])
          if how == 'scan' or how == 'map' and u.sample:
            yield u, None, f'{T.show(u.k, 3)} is the same in every step of the mapped function'
            break
    for i, u in enumerate(self.uses):
      for v in self.uses[i + 1:]:
        if u.conflicts(v):
          yield v, u, f'{T.show(v.k, 3)} was consumed before, by {u.what} at {u.where}'
    for e in self.run.events:
      if e.kind != 'return':
        continue
      fr = [c[1] for c in e.ctx if c[0] == 'lambda']
      own = e.func is self.f or fr and e.func.name in {cl['name'] for cl in self.it.closures.values()}
      if not own:
        continue
      for t, ctx in self.parts(self.it.closed(e.value), tuple(e.ctx)):
        if self.kind(t):
          yield from self.kept(t, ctx, 'returned', e.where)
    me = mk('param', 'self')
    order = {id(e): i for i, e in enumerate(self.run.events)}
    stores = [e for e in self.run.events if e.kind == 'setattr' and e.base is me]
    for e in stores:
      for t, ctx in self.parts(self.it.closed(e.value), tuple(e.ctx)):
        if self.kind(t):
          yield from self.kept(t, ctx, f'kept in self.{e.attr}', e.where)
    for u in self.uses:
      if u.k.op in ('attr', 'attrv') and u.k.args[0] is me and u.e is not None:
        if not any(e.attr == u.k.args[1] and order[id(e)] > order[id(u.e)] and all(c in u.ctx for c in e.ctx) for e in stores):
          yield u, None, f'self.{u.k.args[1]} is left in place after its use'
    for li in self.it.loops.values():
      for key, (mu, init, end) in li.carried.items():
        if end is None:
          continue
        for t, ctx in self.leaves(self.it.closed(end), ()):
          if self.kind(t) or t is mu:
            for u in self.uses:
              if (u.k is t) and any(c[0] == 'loop' and c[1] == li.uid for c in u.ctx) and agree(u.ctx, ctx):
                yield u, None, f'{T.show(t, 3)} is consumed and carried into the next iteration'

  def kept(self, t, ctx, how, where):
    b, lo, hi = self.where_in(t)
    for u in self.uses:
      if u.base is b and overlap((lo, hi), (u.lo, u.hi)) and agree(u.ctx, ctx) and u.what != 'carried through the loop':
        yield u, None, f'{T.show(t, 3)} is {how} after its use ({where})'


def strip(t):
  return t


def agree(a, b):
  for c in a:
    if c[0] == 'if':
      for d in b:
        if d[0] == 'if' and d[1] is c[1] and d[2] != c[2]:
          return False
  return True


def overlap(a, b):
  (l1, h1), (l2, h2) = a, b
  if l1 is None or l2 is None:
    return True

  def before(h, l):
    if h is None:
      return False
    d = T.sub(l, h)
    return T.is_num(d) and T.cval(d) >= 0
  return not (before(h1, l2) or before(h2, l1))


class Use:
  def __init__(self, F, k, ctx, e, what, sample, same):
    self.F, self.k, self.ctx, self.e, self.what, self.sample, self.same = F, k, tuple(ctx), e, what, sample, same
    self.base, self.lo, self.hi = F.where_in(k)
    self.where = e.where if e is not None else F.f.where

  def conflicts(self, o):
    if self.base is not o.base or not overlap((self.lo, self.hi), (o.lo, o.hi)) or not agree(self.ctx, o.ctx):
      return False
    if self.e is not None and self.e is o.e:
      # one call given the same key twice
      return self.k is not o.k or self.what == o.what
    if self.same is not None and o.same is not None and norm(self.same, self.ctx) == norm(o.same, o.ctx):
      return False
    if self.what == o.what == 'fold_in':
      return self.same == o.same
    # different keys of one array taken by independent indices
    if self.k is not o.k and self.hi is None and o.hi is None and self.k.op == 'item' and o.k.op == 'item' and self.k.args[1].op not in ('ix', 'slice', 'lbv') and o.k.args[1].op not in ('ix', 'slice', 'lbv'):
      return False
    return True


def norm(same, ctx):
  m = {mk('ix', c[1]): mk('ix', ('n', i)) for i, c in enumerate(x for x in ctx if x[0] == 'loop')}

  def f(t):
    return T.subst(t, lambda x: m.get(x)) if isinstance(t, T.Term) else t
  if same[0] == 'carried' or same[0] == 'fold_in':
    return same
  return (f(same[0]), same[1], tuple(f(a) for a in same[2]), tuple((n, f(v)) for n, v in same[3]))


def handles(f):
  """Whether a function mentions random keys at all."""
  a = f.node.args
  if any((key_param(x.arg) or keys_param(x.arg)) for x in a.posonlyargs + a.args + a.kwonlyargs):
    return True
  for n in ast.walk(f.node):
    if isinstance(n, ast.Attribute) and (f.mod.resolve_name(dotted(n) or '') or '').startswith('jax.random.'):
      return True
    if isinstance(n, ast.Attribute) and n.attr == 'rng' and isinstance(n.value, ast.Name) and n.value.id == 'self':
      return True
  return False


def from_clock(A, F, nm):
  """A key made from the clock although a seed was given."""
  for e in F.run.events:
    if e.kind != 'call' or gname(e.d.get('fn')) not in MAKE:
      continue
    for a in list(e.args) + list((e.kwargs or {}).values()):
      for t, ctx in F.leaves(F.it.closed(a), tuple(e.ctx)):
        if not any(fname(x) in CLOCK for x in T.subterms(t)):
          continue
        ifs = [c for c in ctx if c[0] == 'if']
        unset = any(unseeded(c[1], c[2]) for c in ifs)
        falsy = any(c[1].op == 'not' and c[1].args[0].op == 'param' and c[2] or c[1].op == 'param' and not c[2] for c in ifs)
        A.ob('seed-obeyed', nm, True if unset else False if falsy or not ifs else None, 'made from the clock when no seed is given' if unset else
             'made from the clock although the seed 0 is given' if falsy else 'made from the clock', e.where)


def unseeded(t, yes):
  if t.op == 'not':
    return unseeded(t.args[0], not yes)
  if t.op == 'and' and yes or t.op == 'or' and not yes:
    return any(unseeded(x, yes) for x in t.args)
  return yes and t.op == 'is' and T.NONE in t.args and any(x.op in ('param', 'attr') for x in t.args)


def check(A):
  mods = [m for n, m in A.prog.modules.items() if n.startswith(PKG) and not n.endswith('_test') and any(str(v).split('.')[0] == 'jax' for v in m.imports.values())]
  fs = [f for q, f in A.prog.funcs.items() if f.mod in mods and not f.is_abstract and handles(f)]
  names = {f.qual for f in fs if not f.name.startswith('_')}
  fs += [f for c in A.prog.classes.values() if c.mod in mods for f in c.methods.values() if not f.is_abstract and handles(f)]
  memo = {}

  def returns(f):
    if f.qual in memo:
      return memo[f.qual]
    memo[f.qual] = set()
    if f.qual in names:
      F = Fn(A, f, names)
      r = F.run.result
      if r.op == 'tuple':
        memo[f.qual] = {i for i, t in enumerate(r.args) if F.kind(t) == 'key'}
    return memo[f.qual]
  A.c06_returns = returns
  for f in sorted(fs, key=lambda f: f.qual):
    F = Fn(A, f, names)
    bad = {}
    for u, v, text in F.problems():
      bad.setdefault(text, u.where)
    nm = f.qual.replace(PKG + '.', '')
    from_clock(A, F, nm)
    if bad:
      for text, w in sorted(bad.items()):
        A.ob('key-used-once', nm, False, text, w)
    else:
      A.ob('key-used-once', nm, True, f'{len(F.uses)} uses of {len({u.k for u in F.uses})} keys', f.where)
