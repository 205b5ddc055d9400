"""Ownership: which caller-owned objects each expression may share memory with, and which of them are modified in place.

A flow-sensitive alias analysis of the syntax tree, with function summaries. An abstract value has the roots it is itself part of (S) and
the roots of what can be reached inside it (I); a root is a parameter ('p', name), a field of the receiver ('f', name, depth) or the
receiver ('self',). Each root carries whether the sharing is certain."""
import ast

from .prog import PKG, dotted, is_generator

VIEWS = {'asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'reshape', 'ravel', 'squeeze',
         'expand_dims', 'transpose', 'swapaxes', 'moveaxis', 'rollaxis', 'broadcast_to', 'broadcast_arrays', 'split', 'array_split', 'hsplit',
         'vsplit', 'dsplit', 'flip', 'fliplr', 'flipud', 'rot90', 'diagonal', 'diag', 'real', 'imag', 'require', 'permute_dims', 'matrix_transpose'}
VIEW_METHODS = {'reshape', 'ravel', 'squeeze', 'transpose', 'swapaxes', 'view', 'diagonal', '__array__'}
VIEW_ATTRS = {'T', 'mT', 'real', 'imag', 'flat', 'base'}
SCALAR_ATTRS = {'shape', 'ndim', 'size', 'dtype', 'nbytes', 'itemsize', 'strides'}
LISTY = {'append', 'extend', 'sort', 'reverse', 'appendleft', 'popleft', 'extendleft', 'fill', 'setdefault', 'popitem', 'difference_update',
         'intersection_update', 'symmetric_difference_update', 'itemset', 'MergeFrom', 'CopyFrom', 'ClearField', 'setflags', '__setitem__', '__delitem__',
         '__iadd__'}
AMBIGUOUS = {'insert', 'remove', 'pop', 'clear', 'update', 'add', 'discard', 'put', 'resize', 'partition', 'rotate'}
FIRST_ARG = {'numpy.copyto', 'numpy.put', 'numpy.place', 'numpy.putmask', 'numpy.fill_diagonal', 'numpy.put_along_axis', 'numpy.random.shuffle',
             'random.shuffle', 'heapq.heappush', 'heapq.heappop', 'heapq.heapify', 'heapq.heapreplace', 'heapq.heappushpop', 'bisect.insort',
             'bisect.insort_left', 'bisect.insort_right', 'operator.setitem', 'operator.delitem', 'operator.iadd', 'operator.imul', 'operator.isub',
             'operator.ior'}
UFUNC1 = {'negative', 'positive', 'abs', 'absolute', 'sqrt', 'square', 'exp', 'log', 'sin', 'cos', 'floor', 'ceil', 'sign', 'rint', 'logical_not', 'tanh'}
UFUNC2 = {'add', 'subtract', 'multiply', 'divide', 'true_divide', 'floor_divide', 'power', 'mod', 'remainder', 'maximum', 'minimum', 'logical_and',
          'logical_or', 'arctan2', 'matmul', 'dot', 'hypot', 'fmax', 'fmin'}
CONTAINERS = {'list', 'tuple', 'set', 'frozenset', 'sorted', 'reversed', 'enumerate', 'zip', 'iter', 'collections.deque', 'collections.OrderedDict',
              'dict', 'filter', 'itertools.chain', 'itertools.islice', 'itertools.chain.from_iterable', 'itertools.zip_longest', 'copy.copy',
              'collections.defaultdict', 'types.MappingProxyType'}
SCALARS = {'int', 'float', 'bool', 'str', 'bytes', 'complex', 'None', 'datetime.timedelta', 'datetime.datetime', 'pathlib.Path', 'os.PathLike',
           'etils.epath.Path', 'numbers.Number', 'type', 'object.__class__'}
NONE = ('ext', 'None')
SCALAR = ('ext', 'float')
ARRAY = ('ext', 'numpy.ndarray')


def kind(ty):
  """'scalar', 'array', 'jax', 'box' (container), 'cls', 'other' or None."""
  if ty is None:
    return None
  if ty[0] in ('seq', 'map'):
    return 'box'
  if ty[0] == 'tup':
    return 'tuple'
  if ty[0] == 'cls':
    return 'scalar' if ty[1].is_enum else 'box' if any((b or '').split('.')[-1] == 'TypedDict' for b in ty[1].bases) else 'cls'
  if ty[0] == 'ext':
    n = ty[1]
    if n in SCALARS or n.startswith(('numpy.float', 'numpy.int', 'numpy.uint', 'numpy.bool')):
      return 'scalar'
    if n in ('numpy.ndarray', 'numpy.typing.NDArray', 'numpy.typing.ArrayLike', 'numpy.array'):
      return 'array'
    if n.startswith(('jax.', 'chex.', 'tensorflow.')):
      return 'jax'
    if n.split('.')[-1] in ('list', 'List', 'dict', 'Dict', 'set', 'Set', 'Sequence', 'Mapping', 'MutableMapping', 'Iterable', 'deque', 'Deque',
                            'OrderedDict', 'defaultdict', 'MutableSequence'):
      return 'box'
    if n.split('.')[-1] in ('tuple', 'Tuple'):
      return 'tuple'
    if n.endswith('.Any') or n in ('typing.Any', 'object'):
      return None
    return 'other'
  return 'other'


class Val:
  __slots__ = ('S', 'I', 'ty', 'items', 'fn', 'fields')

  def __init__(self, S=None, I=None, ty=None, items=None, fn=None, fields=None):
    self.S, self.I, self.ty, self.items, self.fn, self.fields = S or {}, I or {}, ty, items, fn, fields

  def reach(self):
    return union(self.S, self.I)


def union(*ds):
  out = {}
  for d in ds:
    for k, v in d.items():
      out[k] = out.get(k, False) or v
  return out


def unsure(d):
  return {k: False for k in d}


FRESH = Val()


def join(a, b):
  if a is b or b is None:
    return a
  if a is None:
    return b
  items = None
  if a.items is not None and b.items is not None and len(a.items) == len(b.items):
    items = tuple(join(x, y) for x, y in zip(a.items, b.items))
  fn = a.fn if a.fn == b.fn else (a.fn or b.fn)
  ty = a.ty if a.ty == b.ty else (b.ty if a.ty == NONE else a.ty if b.ty == NONE or b.ty is None else b.ty if a.ty is None else ('seq', None) if
                                  {kind(a.ty), kind(b.ty)} == {'box'} else None)
  return Val(union(a.S, b.S), union(a.I, b.I), ty, items, fn)


class Mut:
  def __init__(self, root, sure, where, how):
    self.root, self.sure, self.where, self.how = root, sure, where, how


class Summary:
  def __init__(self):
    self.muts, self.ret, self.stores = [], None, {}


class Owner:
  def __init__(self, prog):
    self.prog = prog
    self.memo = {}
    self.active = []
    self.learned = {}

  def learn(self):
    """What the fields of each class hold, from every assignment of its methods."""
    found = {}
    for c in self.prog.classes.values():
      for k in self.prog.mro(c):
        for m in k.methods.values():
          for name, v in self.summary(m, c).stores.items():
            if v.ty is not None and v.ty[0] == 'seq' and v.ty[1] is not None and v.ty[1] != NONE:
              found.setdefault((c.qual, name), set()).add(v.ty[1])
    self.memo.clear()
    self.learned = {k: next(iter(v)) for k, v in found.items() if len(v) == 1}

  # ------------------------------------------------------------ summaries
  def summary(self, f, cls=None):
    key = (f.qual, cls.qual if cls is not None else None)
    if key in self.memo:
      return self.memo[key]
    if key in self.active or len(self.active) > 40:
      return Summary()
    self.active.append(key)
    try:
      s = Frame(self, f, cls or f.cls).run()
    finally:
      self.active.pop()
    self.memo[key] = s
    return s

  def record(self, c):
    return any(k.is_dataclass for k in self.prog.mro(c)) and not any('linen' in (b or '') or 'Module' in (b or '') for k in self.prog.mro(c) for b in k.bases)


class Frame:
  def __init__(self, O, f, cls, env=None, node=None, out=None):
    self.O, self.f, self.cls, self.prog, self.mod = O, f, cls, O.prog, f.mod
    self.node = node or f.node
    self.env = env if env is not None else {}
    self.out = out or Summary()
    self.rets = []
    self.seen = set()
    self.dead = False

  # ------------------------------------------------------------ running
  def run(self):
    a = self.f.node.args
    ps = a.posonlyargs + a.args
    if self.cls is not None and not self.f.is_static and ps:
      me = ps[0].arg
      self.env[me] = Val({('self',): True}, {('self',): True}, ('cls', self.cls)) if not self.f.is_classmethod else Val(fn=('class', self.cls))
      self.me = me
      ps = ps[1:]
    else:
      self.me = None
    for x in ps + a.kwonlyargs:
      self.env[x.arg] = self.param(x)
    if a.vararg:
      r = {('p', a.vararg.arg): True}
      self.env[a.vararg.arg] = Val({}, r, ('seq', self.prog.ann_type(self.mod, a.vararg.annotation)))
    if a.kwarg:
      r = {('p', a.kwarg.arg): True}
      self.env[a.kwarg.arg] = Val({}, r, ('map', self.prog.ann_type(self.mod, a.kwarg.annotation)))
    self.block(self.f.node.body)
    r = None
    for v in self.rets:
      r = v if r is None else join(r, v)
    self.out.ret = r or Val(ty=NONE)
    if self.out.ret.ty is None or self.out.ret.ty == NONE:
      t = self.prog.ann_type(self.mod, self.f.node.returns)
      if t is not None and t != NONE:
        self.out.ret = Val(self.out.ret.S, self.out.ret.I, t, self.out.ret.items, self.out.ret.fn)
    return self.out

  def param(self, x):
    ty = self.prog.ann_type(self.mod, x.annotation)
    if ty is None and x.annotation is None:
      d = self.default_of(x.arg)
      if isinstance(d, ast.Constant) and isinstance(d.value, (int, float, str)):
        ty = SCALAR
    if kind(ty) == 'scalar':
      return Val(ty=ty)
    if ty is not None and ty[0] == 'tup':
      r = {('p', x.arg): True}
      return Val(r, r, ty, tuple(Val() if kind(t) == 'scalar' else Val(r, r, t) for t in ty[1]))
    r = {('p', x.arg): True}
    return Val(r, r, ty)

  def default_of(self, name):
    a = self.f.node.args
    ps = a.posonlyargs + a.args
    for p, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
      if p.arg == name:
        return d
    return None

  def block(self, body):
    for s in body:
      if self.dead:
        return
      self.stmt(s)

  def branch(self, *bodies):
    """Runs alternatives from the same state and joins what follows."""
    e0 = dict(self.env)
    ends = []
    for b in bodies:
      self.env, self.dead = dict(e0), False
      b()
      if not self.dead:
        ends.append(self.env)
    self.dead = not ends
    if ends:
      out = dict(ends[0])
      for e in ends[1:]:
        for k, v in e.items():
          out[k] = join(out[k], v) if k in out else v
      self.env = out
    else:
      self.env = e0

  def loop(self, body):
    for _ in range(2):
      e0 = dict(self.env)
      self.dead = False
      body()
      self.dead = False
      for k, v in e0.items():
        self.env[k] = join(v, self.env[k]) if k in self.env else v

  # ------------------------------------------------------------ statements
  def stmt(self, s):
    m = getattr(self, 's_' + type(s).__name__, None)
    if m is not None:
      m(s)

  def s_Expr(self, s):
    self.discarded = s.value
    self.ev(s.value)

  def s_Assign(self, s):
    v = self.ev(s.value)
    for t in s.targets:
      self.assign(t, v)

  def s_AnnAssign(self, s):
    if s.value is not None:
      v = self.ev(s.value)
      ty = self.prog.ann_type(self.mod, s.annotation)
      if v.ty is None and ty is not None:
        v = Val(v.S, v.I, ty, v.items, v.fn)
      self.assign(s.target, v)

  def s_AugAssign(self, s):
    r = self.ev(s.value)
    t = s.target
    if isinstance(t, ast.Name):
      v = self.env.get(t.id, FRESH)
      self.inplace(v, s, r, t.id)
      k = kind(v.ty)
      if k in ('scalar', 'jax', 'tuple'):
        self.env[t.id] = Val(ty=v.ty, I=union(v.I, r.I) if k == 'tuple' else None)
      elif k == 'box':
        self.env[t.id] = Val(v.S, union(v.I, r.I), v.ty)
    elif isinstance(t, ast.Attribute):
      b = self.ev(t.value)
      v = self.attr(b, t.attr)
      self.inplace(v, s, r, ast.unparse(t))
      if self.record_val(b):
        self.mutate(b.S, s, f'assigns to {ast.unparse(t)}')
      if kind(v.ty) in ('scalar', 'jax'):
        self.set_field(b, t.attr, Val(ty=v.ty))
    elif isinstance(t, ast.Subscript):
      b = self.ev(t.value)
      e = self.ev(t)
      self.mutate(b.S, s, f'changes {ast.unparse(t)} in place')
      if kind(b.ty) in ('box', 'tuple') and kind(e.ty) == 'array':
        self.inplace(e, s, r, ast.unparse(t))

  def inplace(self, v, s, r, what):
    k = kind(v.ty)
    if k in ('scalar', 'jax', 'tuple', 'other') or not v.S:
      return
    if k == 'cls':
      c = v.ty[1]
      if self.prog.lookup(c, '__i' + {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'BitOr': 'or'}.get(type(s.op).__name__, '') + '__') is None:
        return
    sure = k in ('array', 'box')
    self.mutate(v.S if sure else unsure(v.S), s, f'{ast.unparse(s)[:60]} works in place')

  def s_Delete(self, s):
    for t in s.targets:
      if isinstance(t, ast.Subscript):
        b = self.ev(t.value)
        self.mutate(b.S, s, f'deletes {ast.unparse(t)}')
      elif isinstance(t, ast.Name):
        self.env.pop(t.id, None)

  def s_Return(self, s):
    self.rets.append(self.ev(s.value) if s.value is not None else Val(ty=NONE))
    self.dead = True

  def s_Raise(self, s):
    if s.exc is not None:
      self.ev(s.exc)
    self.dead = True

  def s_Assert(self, s):
    self.ev(s.test)

  def s_If(self, s):
    self.ev(s.test)
    self.branch(lambda: (self.narrow(s.test, True), self.block(s.body)), lambda: (self.narrow(s.test, False), self.block(s.orelse)))

  def narrow(self, test, yes):
    """x is None, isinstance(x, T)."""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
      return self.narrow(test.operand, not yes)
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
      if isinstance(test.ops[0], (ast.Is, ast.Eq)) == yes and test.left.id in self.env:
        self.env[test.left.id] = Val(ty=NONE)
    if yes and isinstance(test, ast.Call) and dotted(test.func) == 'isinstance' and len(test.args) == 2 and isinstance(test.args[0], ast.Name):
      v = self.env.get(test.args[0].id)
      ty = self.prog.ann_type(self.mod, test.args[1]) if not isinstance(test.args[1], ast.Tuple) else None
      if v is not None and ty is not None:
        self.env[test.args[0].id] = Val(v.S, v.I, ty, v.items, v.fn) if kind(ty) != 'scalar' else Val(ty=ty)
    return None

  def s_For(self, s):
    it = self.ev(s.iter)
    e = self.element(it, s.iter)

    def body():
      self.assign(s.target, e)
      self.block(s.body)
    self.loop(body)
    self.block(s.orelse)

  s_AsyncFor = s_For

  def s_While(self, s):
    def body():
      self.ev(s.test)
      self.block(s.body)
    self.loop(body)
    self.block(s.orelse)

  def s_With(self, s):
    for i in s.items:
      v = self.ev(i.context_expr)
      if i.optional_vars is not None:
        self.assign(i.optional_vars, v)
    self.block(s.body)

  s_AsyncWith = s_With

  def s_Try(self, s):
    e0 = dict(self.env)
    self.block(s.body)
    if not self.dead:
      self.block(s.orelse)
    d, e1 = self.dead, dict(self.env)
    mid = dict(e0)
    for k, v in e1.items():
      mid[k] = join(mid[k], v) if k in mid else v
    ends = [] if d else [e1]
    for h in s.handlers:
      self.env, self.dead = dict(mid), False
      self.block(h.body)
      if not self.dead:
        ends.append(self.env)
    self.dead = not ends
    out = dict(ends[0]) if ends else mid
    for e in ends[1:]:
      for k, v in e.items():
        out[k] = join(out[k], v) if k in out else v
    self.env = out
    d = self.dead
    self.dead = False
    self.block(s.finalbody)
    self.dead = self.dead or d

  s_TryStar = s_Try

  def s_Match(self, s):
    v = self.ev(s.subject)

    def case(c):
      def go():
        for n in ast.walk(c.pattern):
          if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            self.env[n.name] = Val(v.reach(), v.reach(), v.ty if isinstance(n, ast.MatchAs) and n.pattern is None else None)
        self.block(c.body)
      return go
    self.branch(*[case(c) for c in s.cases], lambda: None)

  def s_FunctionDef(self, s):
    self.env[s.name] = Val(fn=('closure', s, self))
    self.closure_body(s)

  s_AsyncFunctionDef = s_FunctionDef

  def closure_body(self, node, args=None, kwargs=None):
    """The body of a nested function, in the present environment; parameters default to fresh values."""
    if getattr(self, 'depth', 0) > 6:
      return Val()
    env0, rets0, dead0 = self.env, self.rets, self.dead
    self.depth = getattr(self, 'depth', 0) + 1
    self.env, self.rets, self.dead = dict(env0), [], False
    a = node.args
    ps = a.posonlyargs + a.args
    vals = dict(zip([p.arg for p in ps], args or []))
    vals.update(kwargs or {})
    for p in ps + a.kwonlyargs:
      ty = self.prog.ann_type(self.mod, p.annotation)
      v = vals.get(p.arg, Val(ty=ty))
      if ty is not None and v.ty is None:
        v = Val(v.S, v.I, ty, v.items, v.fn) if kind(ty) != 'scalar' else Val(ty=ty)
      self.env[p.arg] = v
    for x in (a.vararg, a.kwarg):
      if x is not None:
        self.env[x.arg] = Val(I=union(*[v.reach() for v in args or []]))
    if isinstance(node, ast.Lambda):
      r = self.ev(node.body)
    else:
      self.block(node.body)
      r = None
      for v in self.rets:
        r = v if r is None else join(r, v)
    self.env, self.rets, self.dead = env0, rets0, dead0
    self.depth -= 1
    return r or Val(ty=NONE)

  # ------------------------------------------------------------ places
  def assign(self, t, v):
    if isinstance(t, ast.Name):
      self.env[t.id] = v
    elif isinstance(t, (ast.Tuple, ast.List)):
      n = len(t.elts)
      stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
      if v.items is not None and not stars and len(v.items) == n:
        for e, x in zip(t.elts, v.items):
          self.assign(e, x)
        return
      for i, e in enumerate(t.elts):
        if isinstance(e, ast.Starred):
          self.assign(e.value, Val({}, v.reach(), ('seq', None)))
        elif v.ty is not None and v.ty[0] == 'tup' and i < len(v.ty[1]):
          self.assign(e, self.typed(v.reach(), v.ty[1][i]))
        else:
          self.assign(e, self.element(v, None))
    elif isinstance(t, ast.Subscript):
      b = self.ev(t.value)
      self.ev(t.slice)
      self.mutate(b.S, t, f'assigns to {ast.unparse(t)[:60]}')
      self.absorb(t.value, v)
    elif isinstance(t, ast.Attribute):
      b = self.ev(t.value)
      if self.record_val(b) or kind(b.ty) == 'other' and b.ty[1].split('.')[0] == PKG:
        self.mutate(b.S, t, f'assigns to {ast.unparse(t)[:60]}')
      elif t.attr in ('shape', 'dtype', 'flags', 'writeable'):
        self.mutate(b.S, t, f'assigns to {ast.unparse(t)[:60]}')
      self.set_field(b, t.attr, v)
    elif isinstance(t, ast.Starred):
      self.assign(t.value, v)

  def absorb(self, target, v, one=False):
    """What is put into a container is reachable from it."""
    r = v.reach()
    if not r or kind(v.ty) == 'scalar':
      return
    while isinstance(target, (ast.Subscript, ast.Attribute)) and not self.is_self_attr(target):
      target = target.value
    b = None
    if isinstance(target, ast.Name):
      b = self.env.get(target.id)
      if b is None or kind(b.ty) in ('array', 'jax'):
        return
      self.env[target.id] = Val(b.S, union(b.I, r), b.ty, None, b.fn, b.fields)
    elif self.is_self_attr(target):
      self.store_field(target.attr, Val({}, r, ('seq', v.ty) if one else None))
      key = ('.', target.attr)
      b = self.env.get(key) or self.self_field(target.attr)
      self.env[key] = Val(b.S, union(b.I, r), b.ty, None, b.fn)

  def is_self_attr(self, n):
    return isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == self.me and self.me is not None

  def record_val(self, b):
    return b.ty is not None and b.ty[0] == 'cls' and self.O.record(b.ty[1])

  def set_field(self, b, name, v):
    if ('self',) in b.S:
      self.env[('.', name)] = v
      self.store_field(name, v)

  def store_field(self, name, v):
    old = self.out.stores.get(name)
    self.out.stores[name] = v if old is None else Val(union(old.S, v.S), union(old.I, v.I), v.ty if old.ty in (None, ('seq', None)) else old.ty)

  def mutate(self, roots, node, how):
    for r, sure in roots.items():
      if r == ('self',):
        continue
      where = f'{self.mod.rel}:{node.lineno} {self.f.qual}'
      key = (r, sure, where, how)
      if key not in self.seen:
        self.seen.add(key)
        self.out.muts.append(Mut(r, sure, where, how))

  # ------------------------------------------------------------ expressions
  def ev(self, n):
    m = getattr(self, 'e_' + type(n).__name__, None)
    if m is not None:
      return m(n)
    for c in ast.iter_child_nodes(n):
      if isinstance(c, ast.expr):
        self.ev(c)
    return Val()

  def e_Constant(self, n):
    return Val(ty=NONE if n.value is None else SCALAR)

  def e_JoinedStr(self, n):
    return Val(ty=SCALAR)

  def e_Name(self, n):
    if n.id in self.env:
      return self.env[n.id]
    full = self.mod.resolve_name(n.id)
    if full and full in self.prog.funcs:
      return Val(fn=('func', self.prog.funcs[full]))
    if full and full in self.prog.classes:
      return Val(fn=('class', self.prog.classes[full]))
    return Val()

  def e_Attribute(self, n):
    d = dotted(n)
    if d is not None and d.split('.')[0] not in self.env:
      full = self.mod.resolve_name(d) or ''
      if full in self.prog.funcs:
        return Val(fn=('func', self.prog.funcs[full]))
      if full in self.prog.classes:
        return Val(fn=('class', self.prog.classes[full]))
      return Val()
    return self.attr(self.ev(n.value), n.attr)

  def self_field(self, name):
    ty = self.field_type(self.cls, name) if self.cls is not None else None
    if kind(ty) == 'scalar':
      return Val(ty=ty)
    if self.cls is not None and (ty is None or ty == ('seq', None)) and (self.cls.qual, name) in self.O.learned:
      ty = ('seq', self.O.learned[(self.cls.qual, name)])
    return Val({('f', name, 0): True}, {('f', name, 1): True}, ty)

  def field_type(self, c, name):
    ent = self.prog.all_fields(c).get(name)
    if ent is not None:
      return self.prog.ann_type(ent[2].mod, ent[0])
    # from the constructor's assignments
    for k, m in [(k, m) for k in self.prog.mro(c) for m in sorted(k.methods.values(), key=lambda m: m.name != '__init__')]:
      ann = {x.arg: x.annotation for x in m.node.args.posonlyargs + m.node.args.args + m.node.args.kwonlyargs}
      for s in ast.walk(m.node):
        tgt = None
        if isinstance(s, ast.Assign) and len(s.targets) == 1:
          tgt, val = s.targets[0], s.value
        elif isinstance(s, ast.AnnAssign):
          tgt, val = s.target, s.value
          if isinstance(tgt, ast.Attribute) and tgt.attr == name:
            t = self.prog.ann_type(k.mod, s.annotation)
            if kind(t) is not None and not (t[0] == 'ext' and kind(t) == 'box'):
              return t
            # an annotation that says nothing of the elements
            if kind(t) == 'box' and t[1].split('.')[-1] in ('list', 'List', 'deque', 'Deque', 'Sequence', 'MutableSequence'):
              return ('seq', None)
            if kind(t) == 'box' and t[1].split('.')[-1] in ('dict', 'Dict', 'Mapping', 'MutableMapping', 'OrderedDict', 'defaultdict'):
              return ('map', None)
        if isinstance(tgt, ast.Attribute) and tgt.attr == name and isinstance(tgt.value, ast.Name):
          if isinstance(val, ast.Name) and val.id in ann:
            return self.prog.ann_type(k.mod, ann[val.id])
          if isinstance(val, ast.Constant) and val.value is not None:
            return SCALAR
          if isinstance(val, (ast.List, ast.ListComp)):
            return ('seq', None)
          if isinstance(val, (ast.Dict, ast.DictComp)):
            return ('map', None)
          if isinstance(val, ast.Call):
            full = k.mod.resolve_name(dotted(val.func) or '') or ''
            if full in self.prog.classes:
              return ('cls', self.prog.classes[full])
    return None

  def attr(self, b, name):
    if ('self',) in b.S and b.ty is not None and b.ty[0] == 'cls':
      if ('.', name) in self.env:
        return self.env[('.', name)]
      m = self.prog.lookup(b.ty[1], name)
      if m is not None:
        if m.is_property:
          return self.call_summary(m, b, [], {}, None, b.ty[1])
        return Val(fn=('bound', b, m))
      v = self.self_field(name)
      if self.record_val(b) and self.f.name not in ('__init__', '__post_init__') and kind(v.ty) != 'scalar':
        v = Val(union(v.S, {('rec', b.ty[1].name): True}), union(v.I, {('rec', b.ty[1].name): True}), v.ty)
      return v
    ty = None
    if b.ty is not None and b.ty[0] == 'cls':
      m = self.prog.lookup(b.ty[1], name)
      if m is not None:
        if m.is_property:
          return self.call_summary(m, b, [], {}, None, b.ty[1])
        return Val(fn=('bound', b, m))
      ty = self.field_type(b.ty[1], name)
    elif kind(b.ty) in ('array', None) and name in SCALAR_ATTRS:
      return Val(ty=SCALAR)
    elif name in VIEW_ATTRS and kind(b.ty) in ('array', None):
      return Val(b.S, b.I, b.ty)
    if b.fields is not None and name in b.fields:
      return b.fields[name]
    r = b.reach()
    if self.record_val(b) and b.fields is None:
      r = union(r, {('rec', b.ty[1].name): True})
    return self.typed(r, ty)

  def typed(self, roots, ty):
    if kind(ty) == 'scalar':
      return Val(ty=ty)
    return Val(roots, roots, ty)

  def element(self, v, node):
    """An element of what v iterates over."""
    if v.items is not None and v.items:
      r = v.items[0]
      for x in v.items[1:]:
        r = join(r, x)
      return r
    ty = None
    if v.ty is not None and v.ty[0] in ('seq', 'map'):
      if v.ty[0] == 'map':
        return Val()
      ty = v.ty[1]
    if kind(v.ty) in ('array',):
      return Val(union(v.S, v.I), union(v.S, v.I), None)
    r = v.reach()
    return self.typed(r, ty)

  def e_Subscript(self, n):
    b = self.ev(n.value)
    if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int) and b.items is not None and -len(b.items) <= n.slice.value < len(b.items):
      return b.items[n.slice.value]
    i = self.ev(n.slice)
    ty = b.ty
    if ty is not None and ty[0] == 'seq':
      if isinstance(n.slice, ast.Slice):
        return Val({}, b.reach(), ty)
      return self.typed(b.reach(), ty[1])
    if ty is not None and ty[0] == 'map':
      return self.typed(b.reach(), ty[1])
    if ty is not None and ty[0] == 'tup':
      if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int) and -len(ty[1]) <= n.slice.value < len(ty[1]):
        return self.typed(b.reach(), ty[1][n.slice.value])
      return Val(b.reach(), b.reach())
    how = self.index_kind(n.slice, i)
    r = b.reach()
    if kind(ty) == 'scalar':
      return Val(ty=SCALAR)
    if how == 'fancy':
      return Val(ty=ARRAY if kind(ty) == 'array' else None)
    if how == 'slice':
      if ty is None and isinstance(n.slice, ast.Slice):
        return Val(unsure(r), r)
      return Val(r, r, ty if kind(ty) == 'array' else None)
    return Val(r if how == 'scalar' else unsure(r), r if how == 'scalar' else unsure(r), None)

  def index_kind(self, s, v):
    if isinstance(s, ast.Slice):
      return 'slice'
    if isinstance(s, ast.Tuple):
      ks = [self.index_kind(e, self.ev(e)) for e in s.elts]
      if 'fancy' in ks:
        return 'fancy'
      return 'unknown' if 'unknown' in ks else 'slice' if 'slice' in ks else 'scalar'
    if isinstance(s, ast.Constant):
      return 'slice' if s.value is None or s.value is Ellipsis else 'scalar'
    if isinstance(s, (ast.Compare, ast.List, ast.ListComp)):
      return 'fancy'
    if isinstance(s, ast.UnaryOp):
      return 'fancy' if isinstance(s.op, ast.Invert) else self.index_kind(s.operand, v)
    if isinstance(s, ast.BinOp) and isinstance(s.op, (ast.BitAnd, ast.BitOr)):
      return 'fancy'
    if kind(v.ty) == 'array':
      return 'fancy'
    if kind(v.ty) == 'scalar':
      return 'scalar'
    return 'unknown'

  def e_Slice(self, n):
    for x in (n.lower, n.upper, n.step):
      if x is not None:
        self.ev(x)
    return Val()

  def e_Tuple(self, n):
    vs = [self.ev(e) for e in n.elts]
    items = tuple(vs) if not any(isinstance(e, ast.Starred) for e in n.elts) else None
    return Val({}, union(*[v.reach() for v in vs]), ('ext', 'tuple'), items)

  def e_List(self, n):
    vs = [self.ev(e) for e in n.elts]
    ty = None
    for v in vs:
      ty = v.ty if ty is None else ty
    return Val({}, union(*[v.reach() for v in vs]), ('seq', ty))

  def e_Set(self, n):
    vs = [self.ev(e) for e in n.elts]
    return Val({}, union(*[v.reach() for v in vs]), ('seq', None))

  def e_Starred(self, n):
    v = self.ev(n.value)
    return Val({}, v.reach(), v.ty)

  def e_Dict(self, n):
    vs = [self.ev(e) for e in n.values]
    for k in n.keys:
      if k is not None:
        self.ev(k)
    ty = None
    for v in vs:
      ty = v.ty if ty is None else ty
    return Val({}, union(*[v.reach() for v in vs]), ('map', ty if len({repr(v.ty) for v in vs}) == 1 else None))

  def e_BinOp(self, n):
    a, b = self.ev(n.left), self.ev(n.right)
    ks = {kind(a.ty), kind(b.ty)}
    if ks == {'scalar'}:
      return Val(ty=SCALAR)
    if ks & {'box', 'tuple'} and isinstance(n.op, (ast.Add, ast.Mult, ast.BitOr)) and not ks & {'array', 'jax'}:
      return Val({}, union(a.I, b.I, a.S, b.S), a.ty if kind(a.ty) in ('box', 'tuple') else b.ty)
    return Val(ty=ARRAY if 'array' in ks else None)

  def e_UnaryOp(self, n):
    v = self.ev(n.operand)
    return Val(ty=SCALAR if kind(v.ty) == 'scalar' or isinstance(n.op, ast.Not) else ARRAY if kind(v.ty) == 'array' else None)

  def e_Compare(self, n):
    vs = [self.ev(x) for x in [n.left] + n.comparators]
    if any(kind(v.ty) == 'array' for v in vs) and not any(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in n.ops):
      return Val(ty=ARRAY)
    return Val(ty=SCALAR if all(kind(v.ty) == 'scalar' for v in vs) else None)

  def e_BoolOp(self, n):
    r = None
    for x in n.values:
      v = self.ev(x)
      r = v if r is None else join(r, v)
    return r

  def e_IfExp(self, n):
    self.ev(n.test)
    e0 = self.env
    self.env = dict(e0)
    self.narrow(n.test, True)
    a = self.ev(n.body)
    self.env = dict(e0)
    self.narrow(n.test, False)
    b = self.ev(n.orelse)
    self.env = e0
    return join(a, b)

  def e_NamedExpr(self, n):
    v = self.ev(n.value)
    self.assign(n.target, v)
    return v

  def e_Await(self, n):
    return self.ev(n.value)

  def e_Yield(self, n):
    v = self.ev(n.value) if n.value is not None else Val()
    self.rets.append(Val({}, v.reach(), ('seq', v.ty)))
    return Val()

  def e_YieldFrom(self, n):
    self.rets.append(self.ev(n.value))
    return Val()

  def e_Lambda(self, n):
    v = Val(fn=('closure', n, self))
    self.closure_body(n)
    return v

  def comp(self, n, elts):
    e0 = self.env
    self.env = dict(e0)
    for g in n.generators:
      self.assign(g.target, self.element(self.ev(g.iter), g.iter))
      for c in g.ifs:
        self.ev(c)
    vs = [self.ev(e) for e in elts]
    self.env = e0
    return vs

  def e_ListComp(self, n):
    v = self.comp(n, [n.elt])[0]
    return Val({}, v.reach(), ('seq', v.ty))

  e_GeneratorExp = e_ListComp
  e_SetComp = e_ListComp

  def e_DictComp(self, n):
    k, v = self.comp(n, [n.key, n.value])
    return Val({}, v.reach(), ('map', v.ty))

  # ------------------------------------------------------------ calls
  def e_Call(self, n):
    discarded = getattr(self, 'discarded', None) is n
    args = [self.ev(a) for a in n.args]
    kwargs = {k.arg: self.ev(k.value) for k in n.keywords if k.arg is not None}
    extra = [self.ev(k.value) for k in n.keywords if k.arg is None]
    starred = any(isinstance(a, ast.Starred) for a in n.args) or bool(extra)
    f = n.func
    d = dotted(f)
    full = None
    if d is not None and d.split('.')[0] not in self.env:
      full = self.mod.resolve_name(d) or d
    # super().method(...)
    if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and dotted(f.value.func) == 'super' and self.cls is not None:
      for k in self.prog.mro(self.f.cls or self.cls)[1:]:
        if f.attr in k.methods:
          return self.call_summary(k.methods[f.attr], self.env.get(self.me, Val()), args, kwargs, n, self.cls)
      return Val()
    if full is not None:
      if full == 'functools.partial' and args and args[0].fn is not None:
        return Val(fn=('partial', args[0], tuple(args[1:]), tuple(sorted(kwargs.items(), key=lambda x: x[0]))))
      if full in self.prog.funcs and full.startswith(PKG):
        return self.call_summary(self.prog.funcs[full], None, args, kwargs, n, None)
      if full in self.prog.classes and full.startswith(PKG):
        return self.construct(self.prog.classes[full], args, kwargs, extra, n)
      if self.prog.newtype_of(full) and args:
        return args[0]
      mn, _, nm = full.rpartition('.')
      c = self.prog.classes.get(mn)
      if c is not None:
        m = self.prog.lookup(c, nm)
        if m is not None:
          if m.is_static or m.is_classmethod:
            return self.call_summary(m, None, args, kwargs, n, c)
          if args:
            return self.call_summary(m, args[0], args[1:], kwargs, n, c)
      return self.external(full, args, kwargs, extra, n)
    if isinstance(f, ast.Attribute):
      b = self.ev(f.value)
      if b.fn is not None and b.fn[0] == 'class':
        m = self.prog.lookup(b.fn[1], f.attr)
        if m is not None:
          return self.call_summary(m, None, args, kwargs, n, b.fn[1])
      v = self.attr(b, f.attr) if b.ty is not None and b.ty[0] == 'cls' else None
      if v is not None and v.fn is not None:
        return self.apply(v, args, kwargs, n)
      return self.method(b, f.attr, args, kwargs, extra, n, discarded)
    v = self.ev(f)
    return self.apply(v, args, kwargs, n)

  def apply(self, v, args, kwargs, n):
    if v.fn is None:
      if v.ty is not None and v.ty[0] == 'cls':
        m = self.prog.lookup(v.ty[1], '__call__')
        if m is not None:
          return self.call_summary(m, v, args, kwargs, n, v.ty[1])
      return Val()
    k = v.fn[0]
    if k == 'func':
      return self.call_summary(v.fn[1], None, args, kwargs, n, None)
    if k == 'class':
      return self.construct(v.fn[1], args, kwargs, [], n)
    if k == 'bound':
      return self.call_summary(v.fn[2], v.fn[1], args, kwargs, n, v.fn[1].ty[1])
    if k == 'closure' and v.fn[2] is self:
      return self.closure_body(v.fn[1], args, kwargs)
    if k == 'partial':
      return self.apply(v.fn[1], list(v.fn[2]) + args, {**dict(v.fn[3]), **kwargs}, n)
    return Val()

  def construct(self, c, args, kwargs, extra, n):
    vs = args + list(kwargs.values()) + extra
    fields = None
    if self.O.record(c):
      names = list(self.prog.all_fields(c))
      fields = dict(zip(names, args)) if not any(isinstance(a, ast.Starred) for a in (n.args if n is not None else [])) else {}
      fields.update(kwargs)
    init = self.prog.lookup(c, '__init__')
    if init is not None:
      self.call_summary(init, Val(ty=('cls', c)), args, kwargs, n, c)
    return Val({}, union(*[v.reach() for v in vs]), ('cls', c), fields=fields)

  def call_summary(self, m, recv, args, kwargs, n, cls):
    s = self.O.summary(m, cls if m.cls is not None else None)
    a = m.node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    if m.cls is not None and not m.is_static:
      ps = ps[1:]
    vals = {}
    flat = []
    star = []
    for i, x in enumerate(args):
      if n is not None and len(n.args) == len(args) and isinstance(n.args[i], ast.Starred):
        star.append(x)
      else:
        flat.append(x)
    if not star:
      vals.update(zip(ps, flat))
      if len(flat) > len(ps) and a.vararg:
        vals[a.vararg.arg] = Val(I=union(*[v.reach() for v in flat[len(ps):]]))
    else:
      r = unsure(union(*[v.reach() for v in args]))
      for p in ps:
        vals[p] = Val(r, r)
    names = ps + [x.arg for x in a.kwonlyargs]
    for k, v in kwargs.items():
      if k in names:
        vals[k] = v
      elif a.kwarg:
        vals[a.kwarg.arg] = join(vals.get(a.kwarg.arg, Val()), Val(I=v.reach()))
    if n is not None:
      for kw in n.keywords:
        if kw.arg is None:
          v = self.ev(kw.value)
          for p in names:
            if p not in vals:
              vals[p] = Val(v.reach(), v.reach())
    me = recv is not None and ('self',) in recv.S

    def sub(roots):
      out = {}
      for r, sure in roots.items():
        if r[0] == 'p':
          v = vals.get(r[1])
          if v is not None:
            for q, s2 in v.reach().items() if r[1] == (a.vararg.arg if a.vararg else None) else v.S.items():
              out[q] = out.get(q, False) or (sure and s2)
        elif r[0] == 'f':
          if me:
            cur = self.env.get(('.', r[1]))
            if cur is None:
              out[r] = out.get(r, False) or sure
            else:
              for q, s2 in (cur.S if r[2] == 0 else cur.I).items():
                out[q] = out.get(q, False) or (sure and s2)
          elif recv is not None:
            src = recv.fields[r[1]].S if recv.fields and r[1] in recv.fields and r[2] == 0 else recv.reach()
            for q, s2 in src.items():
              out[q] = out.get(q, False) or (sure and s2)
        elif r == ('self',) and recv is not None:
          out = union(out, recv.S)
        elif r[0] == 'rec':
          out[r] = out.get(r, False) or sure
      return out

    def subI(roots):
      out = {}
      for r, sure in roots.items():
        if r[0] == 'p':
          v = vals.get(r[1])
          if v is not None:
            out = union(out, v.reach() if sure else unsure(v.reach()))
        else:
          out = union(out, sub({r: sure}))
      return out
    for mt in s.muts:
      if mt.root[0] == 'f' and not me:
        if recv is None or recv.ty is None or recv.ty[0] != 'cls' or not self.O.record(recv.ty[1]):
          continue
      for r, sure in sub({mt.root: mt.sure}).items():
        if r == ('self',):
          continue
        key = (r, sure, mt.where, mt.how)
        if key not in self.seen:
          self.seen.add(key)
          self.out.muts.append(Mut(r, sure, mt.where, mt.how))
    if me:
      for name, v in s.stores.items():
        nv = Val(sub(v.S), subI(v.I), v.ty)
        self.store_field(name, nv)
        cur = self.env.get(('.', name))
        self.env[('.', name)] = nv if cur is None else join(cur, nv)
        if cur is None:
          self.env[('.', name)] = join(self.self_field(name), nv)
    r = s.ret or Val()
    items = None
    if r.items is not None:
      items = tuple(Val(sub(x.S), subI(x.I), x.ty) for x in r.items)
    return Val(sub(r.S), subI(r.I), r.ty, items)

  # ------------------------------------------------------------ the libraries
  def external(self, full, args, kwargs, extra, n):
    a0 = args[0] if args else None
    nm = full.split('.')[-1]
    out = kwargs.get('out')
    if out is not None:
      self.mutate(out.S, n, f'{full} writes to its out argument')
    if full.startswith('numpy.') and (nm in UFUNC1 and len(args) == 2 or nm in UFUNC2 and len(args) == 3):
      self.mutate(args[-1].S, n, f'{full} writes to its last argument')
      return Val(args[-1].S, args[-1].I, ARRAY)
    if a0 is not None and (full in FIRST_ARG or full.startswith('numpy.') and nm == 'at' and len(args) >= 2):
      self.mutate(a0.S, n, f'{full} changes its argument')
      if full in ('heapq.heappush', 'bisect.insort') and n.args:
        self.absorb(n.args[0], args[1])
    for k in kwargs:
      if k in ('overwrite_x', 'overwrite_a', 'overwrite_b', 'overwrite_input') and self.true_kw(n, k) and a0 is not None:
        self.mutate(a0.S, n, f'{full} overwrites its argument')
    if full == 'setattr' and len(args) == 3:
      if self.record_val(args[0]):
        self.mutate(args[0].S, n, 'sets an attribute of it')
    if full == 'object.__setattr__' and len(args) == 3:
      if ('self',) in args[0].S and self.f.name in ('__init__', '__post_init__'):
        if isinstance(n.args[1], ast.Constant):
          self.set_field(args[0], n.args[1].value, args[2])
      else:
        self.out.muts.append(Mut(('frozen',), True, f'{self.mod.rel}:{n.lineno} {self.f.qual}', 'sets a field of a frozen record'))
        self.mutate(args[0].S, n, 'sets a field of a frozen record')
    if full == 'dataclasses.replace' and a0 is not None:
      fields = dict(a0.fields) if a0.fields else {}
      fields.update(kwargs)
      return Val({}, union(a0.reach(), *[v.reach() for v in kwargs.values()]), a0.ty, fields=fields)
    if full in ('copy.deepcopy', 'jax.tree_util.tree_map'):
      return Val(ty=a0.ty if a0 is not None and full == 'copy.deepcopy' else None)
    if full == 'copy.copy' and a0 is not None:
      return Val({}, {} if kind(a0.ty) == 'array' else a0.reach(), a0.ty)
    if full in CONTAINERS or full == 'zip':
      r = union(*[v.reach() for v in args + list(kwargs.values()) + extra])
      if full == 'enumerate' and a0 is not None:
        e = self.element(a0, None)
        return Val({}, r, ('seq', ('tup', (SCALAR, e.ty))))
      if full == 'zip':
        es = tuple(self.element(v, None).ty for v in args)
        return Val({}, r, ('seq', ('tup', es)))
      if full in ('dict', 'collections.OrderedDict', 'collections.defaultdict'):
        return Val({}, r, a0.ty if a0 is not None and a0.ty and a0.ty[0] == 'map' else ('map', None))
      if kind(a0.ty) == 'array' if a0 is not None else False:
        return Val({}, r, ('seq', None))
      return Val({}, r, ('seq', a0.ty[1]) if a0 is not None and a0.ty is not None and a0.ty[0] == 'seq' and nm != 'filter' else ('seq', None))
    if full in ('map', 'functools.reduce') and a0 is not None:
      es = [self.element(v, None) for v in args[1:]]
      r = self.apply(a0, es, {}, n) if full == 'map' else self.apply(a0, [Val(union(*[e.reach() for e in es]), union(*[e.reach() for e in es])), es[0]] if es else [], {}, n)
      return Val({}, r.reach(), ('seq', r.ty)) if full == 'map' else r
    if full in ('next', 'max', 'min') and a0 is not None:
      v = self.element(a0, None) if len(args) == 1 or full == 'next' else None
      if v is None:
        r = union(*[x.reach() for x in args])
        return Val(r, r, a0.ty)
      return v
    if full in ('getattr',) and a0 is not None:
      if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
        return self.attr(a0, n.args[1].value)
      return Val(a0.reach(), a0.reach())
    if full == 'vars' and a0 is not None:
      return Val(a0.reach(), a0.reach())
    if full.startswith('typing.cast') and len(args) > 1:
      return args[1]
    if full in ('len', 'float', 'int', 'str', 'bool', 'abs', 'sum', 'round', 'range', 'hash', 'id', 'isinstance', 'hasattr', 'ord', 'chr', 'divmod', 'any', 'all', 'repr'):
      return Val(ty=SCALAR if full != 'range' else ('seq', SCALAR)) if full not in ('sum', 'abs', 'round') else Val()
    if full.startswith('datetime.'):
      return Val(ty=SCALAR)
    if full.startswith('numpy.'):
      if nm == 'array' and 'copy' in kwargs and not self.true_kw(n, 'copy') and a0 is not None:
        return Val(a0.S, {}, ARRAY)
      if nm == 'nan_to_num' and 'copy' in kwargs and not self.true_kw(n, 'copy') and a0 is not None:
        self.mutate(a0.S, n, f'{full} works in place')
        return Val(a0.S, a0.I, ARRAY)
      if nm in VIEWS and a0 is not None:
        if kind(a0.ty) in ('box', 'tuple', 'scalar', 'jax') and nm not in ('broadcast_arrays',):
          return Val(ty=ARRAY)
        if nm == 'diag' and kind(a0.ty) is None:
          return Val(unsure(a0.S), {}, ARRAY)
        if nm in ('split', 'array_split', 'hsplit', 'vsplit', 'dsplit', 'broadcast_arrays'):
          return Val({}, a0.S, ('seq', ARRAY))
        if self.changes_type(n):
          return Val(unsure(a0.S), {}, ARRAY)
        return Val(a0.S, a0.S, ARRAY)
      if nm in ('sum', 'mean', 'linalg.norm', 'max', 'min', 'prod', 'median', 'std', 'argmax', 'argmin') and 'axis' not in kwargs and len(args) == 1:
        return Val()
      return Val(ty=ARRAY)
    if full.startswith('jax.numpy.') and nm in ('asarray', 'array'):
      return Val(ty=('ext', 'jax.Array'))
    if full.startswith('jax.numpy.'):
      return Val(ty=('ext', 'jax.Array'))
    for v in args + list(kwargs.values()):
      if v.fn is not None and v.fn[0] in ('func', 'bound'):
        pass
    return Val()

  def true_kw(self, n, k):
    for kw in n.keywords:
      if kw.arg == k:
        return not (isinstance(kw.value, ast.Constant) and kw.value.value in (False, None))
    return False

  def changes_type(self, n):
    given = [k.value for k in n.keywords if k.arg == 'dtype'] + (n.args[1:2] if (dotted(n.func) or '').split('.')[-1].startswith('as') else [])
    if given and (dotted(given[0]) or '') in ('float', 'np.float64', 'numpy.float64', 'np.double'):
      return False  # the default precision: what a caller has is not converted
    return len(n.args) > 1 and (dotted(n.func) or '').split('.')[-1].startswith('as') or any(k.arg == 'dtype' for k in n.keywords)

  def method(self, b, name, args, kwargs, extra, n, discarded):
    k = kind(b.ty)
    out = kwargs.get('out')
    if out is not None:
      self.mutate(out.S, n, f'{name} writes to its out argument')
    if name == 'shuffle' and args and k in ('other', None):
      self.mutate(args[0].S, n, 'shuffles it in place')
      return Val()
    if name == 'at' and isinstance(n.func.value, ast.Attribute) and args and k is None and (self.mod.resolve_name(dotted(n.func.value) or '') or '').startswith('numpy.'):
      self.mutate(args[0].S, n, 'updates it in place')
    if name in LISTY or name in AMBIGUOUS:
      if k in ('array', 'box', None):
        sure = k in ('array', 'box') or name in LISTY
        if name in AMBIGUOUS and k is None and not discarded and name not in ('pop',):
          sure = None
        if sure is not None:
          self.mutate(b.S if sure else unsure(b.S), n, f'{ast.unparse(n)[:60]} works in place')
        if name in ('append', 'extend', 'insert', 'appendleft', 'add', 'update', 'setdefault', 'extendleft') and args:
          v = args[-1]
          if name in ('extend', 'update', 'extendleft'):
            v = Val({}, v.I if v.I else v.reach())
            if kwargs:
              v = Val({}, union(v.I, *[x.reach() for x in kwargs.values()]))
          self.absorb(n.func.value, v, name in ('append', 'appendleft', 'insert', 'add'))
        if name in ('pop', 'setdefault', 'popleft', 'popitem'):
          return self.typed(b.reach(), b.ty[1] if b.ty is not None and b.ty[0] in ('seq', 'map') else None)
        return Val()
    if name in ('get', 'values', 'items', 'keys', '__getitem__'):
      if name == 'keys':
        return Val(ty=('seq', SCALAR))
      t = b.ty[1] if b.ty is not None and b.ty[0] in ('map', 'seq') else None
      r = union(b.reach(), *[a.reach() for a in args[1:]])
      if name == 'get' or name == '__getitem__':
        return self.typed(r, t) if k in ('box', 'tuple', 'array', None) else Val(unsure(r), unsure(r))
      if name == 'items':
        return Val({}, r, ('seq', ('tup', (SCALAR, t))))
      return Val({}, r, ('seq', t))
    if name == 'copy':
      if k == 'array':
        return Val(ty=b.ty)
      if k == 'box':
        return Val({}, b.reach(), b.ty)
      return Val({}, unsure(b.reach()), b.ty)
    if name in ('astype',) and 'copy' in kwargs and not self.true_kw(n, 'copy'):
      return Val(unsure(b.S), {}, ARRAY)
    if name in VIEW_METHODS and k in ('array', None):
      return Val(b.S, b.I, b.ty if k == 'array' else None)
    if name in ('astype', 'flatten', 'repeat', 'clip', 'cumsum', 'round', 'take', 'dot') and k in ('array', None):
      return Val(ty=ARRAY if k == 'array' else None)
    if name == '_replace':
      return Val({}, b.reach(), b.ty)
    if k == 'cls' and b.fn is None:
      return Val()
    return Val()
