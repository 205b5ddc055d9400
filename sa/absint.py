"""Value-graph construction: one abstract pass per function body.

Every expression is mapped to a hash-consed term (value number).  Branches are
joined with phi terms at the merge point (no path enumeration), loops are
summarised from a fixpoint over their loop-carried locations, and calls into the
repository are replaced by the value graph of the callee.  Side effects are
recorded as an ordered list of events, each with the control context (guards,
loops, handlers) under which it happens.
"""
import itertools
import ast

from . import terms as T
from .terms import mk, const, NONE, TRUE, FALSE, UNDEF, ZERO, ONE
from .prog import dotted, Class, Func, AnalysisBroken, PKG

SEC = mk('unit', 'SECOND')


# external classes that are unrelated to each other
NDARRAY = ('ext', 'numpy.ndarray')
ARRAY_MAKERS = {'numpy.' + n for n in ('asarray', 'array', 'concatenate', 'zeros', 'ones', 'stack', 'vstack', 'hstack', 'zeros_like',
                                       'ones_like', 'full', 'empty', 'arange', 'linspace', 'delete')}
ARRAY_METHODS = {'reshape', 'astype', 'flatten', 'ravel', 'transpose', 'copy', 'squeeze', 'clip'}
CONCRETE = {'numpy.ndarray', 'shapely.geometry.Point', 'shapely.geometry.point.Point', 'datetime.timedelta', 'datetime.datetime', 'str',
            'numpy.random.Generator', 'bytes', 'dict', 'list', 'tuple'}


LAM_NAMES = {}   # parameter names of a lambda term, None when terms of different names coincide

class Event:
  __slots__ = ('kind', 'ctx', 'node', 'func', 'd', 'seq')

  def __init__(self, kind, ctx, node, func, seq, **d):
    self.kind, self.ctx, self.node, self.func, self.d, self.seq = kind, ctx, node, func, d, seq

  def __getattr__(self, k):
    try:
      return self.d[k]
    except KeyError:
      raise AttributeError(k)

  @property
  def where(self):
    return f'{self.func.mod.rel}:{getattr(self.node, "lineno", 0)} in {self.func.qual.replace(PKG + ".", "")}'

  def conds(self, asserted=True):
    """Positive guard terms active at this event."""
    out = []
    for c in self.ctx:
      if c[0] == 'if' and (asserted or len(c) == 3):
        out.append(c[1] if c[2] else T.not_(c[1]))
    return out

  def guard(self):
    return T.and_(*self.conds())

  def loops(self):
    return [c for c in self.ctx if c[0] == 'loop']

  def __repr__(self):
    return f'<{self.kind} {self.d} @{getattr(self.node, "lineno", 0)}>'


class Frame:
  def __init__(self, func, env, mod, cls, parent=None):
    self.func, self.env, self.mod, self.cls, self.parent = func, env, mod, cls, parent
    self.returns, self.raises, self.base = [], [], 0
    self.yields = None
    self.globals = set()


class LoopInfo:
  def __init__(self, uid, node, func, kind):
    self.uid, self.node, self.func, self.kind = uid, node, func, kind
    self.length = None     # for loops: length term
    self.iter = None       # iterated term
    self.cond = None       # while: condition at the header
    self.carried = {}      # key -> (mu, init, end)
    self.has_break = False
    self.break_conds = []
    self.exits = []        # conditions of breaks at which the loop would have gone on


class Snap:
  def __init__(self, env, heap, ver, ctx):
    self.env, self.heap, self.ver, self.ctx = env, heap, ver, ctx


PURE_PREFIX = ('numpy', 'jax', 'scipy', 'math', 'tensorflow', 'sklearn', 'skimage', 'cv2', 'dm_env', 'operator',
               'shapely', 'itertools', 'collections', 'functools', 'dataclasses', 'typing', 'datetime', 'ast', 'frozendict',
               'etils.epath.Path', 'pathlib', 'os.path', 'networkx', 'string', 're', 'enum', 'haiku', 'optax', 'distrax',
               'jraph', 'flax', 'chex')
IMPURE_EXT = ('numpy.random', 'scipy.stats', 'datetime.datetime.now', 'datetime.datetime.utcnow', 'tensorflow.io',
              'datetime.date.today', 'itertools.count', 'tensorflow.random', 'jax.random_x')
RNG_METHODS = {'random', 'uniform', 'normal', 'choice', 'integers', 'exponential', 'poisson', 'permutation', 'shuffle',
               'standard_normal', 'binomial', 'multinomial', 'gamma', 'beta', 'lognormal', 'rand', 'randn', 'randint',
               'permuted', 'bytes', 'dirichlet', 'laplace', 'multivariate_normal', 'geometric', 'spawn', 'triangular'}
PURE_METHODS = {
    'reshape', 'flatten', 'ravel', 'squeeze', 'transpose', 'astype', 'mean', 'sum', 'std', 'var', 'min', 'max', 'argmin',
    'argmax', 'argsort', 'any', 'all', 'copy', 'dot', 'round', 'clip', 'cumsum', 'cumprod', 'prod', 'nonzero', 'tolist', 'item',
    'total_seconds', 'keys', 'values', 'items', 'get', 'index', 'count', 'join', 'split', 'rsplit', 'strip', 'lstrip',
    'rstrip', 'startswith', 'endswith', 'format', 'lower', 'upper', 'replace', 'encode', 'decode', 'first', 'last', 'mid',
    'repeat', 'take', 'swapaxes', 'view', 'as_posix', 'is_integer', 'union', 'intersection', 'difference', 'kneighbors',
    'title', 'isdigit', 'zfill', 'with_suffix', 'with_name', 'joinpath', 'conj', 'searchsorted', 'tobytes', 'apply',
    'distance', 'buffer', 'set', 'with_', 'relative_to', 'removesuffix', 'removeprefix', 'groupby', 'subs', 'numpy',
    'SerializeToString', '__len__', '_asdict', 'fit',
}
MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem', 'add',
            'discard', 'fill', 'put', 'resize', 'appendleft', 'popleft', 'itemset', 'partition', 'setflags'}
ALLOC = {'numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.full', 'numpy.zeros_like', 'numpy.ones_like', 'numpy.empty_like',
         'numpy.full_like', 'numpy.array', 'numpy.copy', 'numpy.arange', 'numpy.linspace', 'numpy.eye', 'copy.copy',
         'copy.deepcopy', 'numpy.concatenate', 'numpy.stack', 'numpy.vstack', 'numpy.hstack', 'collections.defaultdict',
         'collections.deque', 'collections.OrderedDict'}
ARITH = {'numpy.square': lambda a: T.power(a, const(2)), 'numpy.negative': lambda a: T.neg(a),
         'numpy.sqrt': lambda a: T.power(a, const(0.5)), 'math.sqrt': lambda a: T.power(a, const(0.5)),
         'numpy.reciprocal': lambda a: T.power(a, const(-1)),
         'numpy.add': T.add, 'numpy.subtract': T.sub, 'numpy.multiply': T.mul, 'numpy.divide': T.div,
         'numpy.true_divide': T.div, 'numpy.power': T.power, 'math.pow': T.power, 'operator.add': T.add,
         'operator.sub': T.sub, 'operator.mul': T.mul, 'operator.truediv': T.div,
         'numpy.logical_and': T.and_, 'numpy.logical_or': T.or_, 'numpy.logical_not': T.not_,
         'numpy.bitwise_and': T.and_, 'numpy.bitwise_or': T.or_, 'numpy.invert': T.not_,
         'numpy.less': T.lt, 'numpy.greater': lambda a, b: T.lt(b, a), 'numpy.less_equal': T.le,
         'numpy.greater_equal': lambda a, b: T.le(b, a), 'numpy.equal': T.eq,
         'numpy.not_equal': lambda a, b: T.not_(T.eq(a, b)), 'operator.eq': T.eq, 'operator.lt': T.lt, 'operator.not_': T.not_}
for _k in list(ARITH):
  if _k.startswith('numpy.'):
    ARITH['jax.numpy' + _k[5:]] = ARITH[_k]

UNIT = {'days': 86400, 'seconds': 1, 'microseconds': 1e-6, 'milliseconds': 1e-3, 'minutes': 60, 'hours': 3600, 'weeks': 604800}
TD_ORDER = ['days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks']


def glob(name):
  return mk('glob', name)


def call_t(fn, args, kwargs=(), tag=None):
  if isinstance(fn, str):
    fn = glob(fn)
  if isinstance(kwargs, dict):
    kwargs = tuple(sorted(kwargs.items()))
  return mk('call', fn, tuple(args), tuple(kwargs), tag)


def binder_height(t):
  best = 0
  for s in T.subterms(t):
    if s.op in ('mapl', 'mapf', 'flatmap', 'sum', 'fold', 'last', 'dictmap', 'lam', 'anyof', 'allof', 'firstof', 'setmap'):
      best = max(best, s.args[0])
  return best


class Interp:
  """Abstract interpreter over the term domain."""

  def __init__(self, prog, opaque=(), max_depth=30, inline_init=True, no_inline=None, follow_ext=None, snap_new=()):
    self.prog = prog
    self.snap_new = frozenset(snap_new)
    self.opaque = set(opaque)
    self.no_inline = no_inline or (lambda f: False)
    self.events, self.heap, self.ver = [], {}, {}
    self.bound = set()
    self.ctx, self.alive, self.frames = [], True, []
    self.types, self.exact = {}, set()
    self.nref = self.nloop = self.ntry = self.nobj = self.nfn = 0
    self.closures, self.loops, self.bound_fns = {}, {}, {}
    self._discard = None
    self.impure_counts, self.seq = {}, 0
    self.max_depth = max_depth
    self.module_cache = {}
    self.quiet = 0
    self.inlined, self.opaque_calls = set(), set()
    self.stack = []
    self.loopstack = []
    self._const_stack = []
    self.unsupported = []
    self._typing = set()

  # ------------------------------------------------------------ utilities
  @property
  def fr(self):
    return self.frames[-1]

  def emit(self, kind, node, **d):
    if self.quiet or not self.alive:
      return
    self.seq += 1
    self.events.append(Event(kind, tuple(self.ctx), node, self.fr.func, self.seq, **d))

  def snap(self):
    return Snap(dict(self.fr.env), dict(self.heap), dict(self.ver), tuple(self.ctx))

  def restore(self, s):
    self.fr.env.clear()
    self.fr.env.update(s.env)
    self.heap, self.ver, self.ctx = dict(s.heap), dict(s.ver), list(s.ctx)
    self.alive = True

  def new_ref(self, contents, kind='list'):
    self.nref += 1
    r = mk('ref', self.nref)
    self.heap[(r, '[]')] = contents
    return r

  def deref(self, t):
    """Replaces mutable locations by their current contents."""
    keys = [k for k in self.heap if k[1] == '[]']
    if not keys and t.op != 'ref':
      return t
    ks = {k[0] for k in keys}
    if not ks:
      return t

    if not any(x in ks for x in T.subterms(t)):
      return t
    active, memos = set(), [{}]

    def go(x):
      memo = memos[-1]
      r = memo.get(x)
      if r is not None:
        return r
      if x.op == 'init':
        return x
      if x in ks and x not in active:
        active.add(x)
        memos.append({})
        r = go(self.heap[(x, '[]')])
        memos.pop()
        active.discard(x)
      elif x.op == 'phi':
        # conditions were evaluated when the branch was taken
        a, b = go(x.args[1]), go(x.args[2])
        r = T.phi(x.args[0], a, b) if a is not x.args[1] or b is not x.args[2] else x
      else:
        na = tuple(goa(a) for a in x.args)
        r = T.rebuild(x, na) if na != x.args else x
      memo[x] = r
      return r

    def goa(a):
      if isinstance(a, T.Term):
        return go(a)
      if isinstance(a, tuple):
        return tuple(goa(y) for y in a)
      return a
    return go(t)

  def clean(self, t):
    return T.subst(self.deref(t), lambda x: self.clean(x.args[0]) if x.op == 'init' else None)

  # ------------------------------------------------------------ types
  def set_type(self, t, ty):
    if ty is not None:
      self.types[t] = ty

  def typeof(self, t):
    if t in self._typing:
      return None
    self._typing.add(t)
    try:
      return self._typeof(t)
    finally:
      self._typing.discard(t)

  def _typeof(self, t):
    ty = self.types.get(t)
    if ty is not None:
      return ty
    op = t.op
    if op == 'at':
      return self.typeof(t.args[0])
    if op == 'new':
      c = self.prog.classes.get(t.args[0])
      return ('cls', c) if c else None
    if op == 'obj':
      return ('cls', self.prog.classes[t.args[0]])
    if op == 'phi':
      return self.typeof(t.args[1]) or self.typeof(t.args[2])
    if op == 'init':
      return self.typeof(t.args[0])
    if op == 'ref' or (t, '[]') in self.heap:
      c = self.heap.get((t, '[]'))
      if c is not None and c is not t:
        if c.op == 'list' and c.args:
          return ('seq', self.typeof(c.args[0]))
        if c.op in ('mapl', 'mapf'):
          return ('seq', self.typeof(c.args[2]))
        if c.op in ('call', 'store', 'mu', 'new'):
          return self.typeof(c)
      return None
    if op == 'store':
      return self.typeof(t.args[0])
    if op == 'attr':
      bt = self.typeof(t.args[0])
      if bt and bt[0] == 'cls':
        return self.attr_type(bt[1], t.args[1])
      return None
    if op == 'item':
      bt = self.typeof(t.args[0])
      if bt and bt[0] in ('seq', 'map'):
        i = t.args[1]
        return bt if i.op == 'slice' else bt[1]
      if bt and bt[0] == 'tup' and T.is_num(t.args[1]):
        i = T.cval(t.args[1])
        if isinstance(i, int) and -len(bt[1]) <= i < len(bt[1]):
          return bt[1][i]
      if bt == NDARRAY:
        i = t.args[1]
        if i.op == 'slice' or (i.op == 'tuple' and any(x.op == 'slice' for x in i.args)) or self.typeof(i) == NDARRAY or (
            i.op in ('eq', 'lt', 'and', 'or', 'not', 'bitand', 'bitor') and T.contains(i, lambda x: x.op == 'attr' and self.typeof(x) == NDARRAY)):
          return NDARRAY
      return None
    if op == 'poly':
      for b in T.poly_bases(t):
        if self.typeof(b) == NDARRAY:
          return NDARRAY
      return None
    if op == 'call':
      g = t.args[0]
      if g.op == 'glob' and g.args[0] in ARRAY_MAKERS:
        return NDARRAY
      if g.op == 'glob':
        f = self.prog.funcs.get(g.args[0])
        if f:
          return self.prog.ann_type(f.mod, f.node.returns)
        if g.args[0] in self.prog.classes:
          return ('cls', self.prog.classes[g.args[0]])
        if g.args[0] in ('tuple', 'list', 'seqcopy') and t.args[1]:
          return self.typeof(t.args[1][0])
        mn, _, name = g.args[0].rpartition('.')
        c = self.prog.classes.get(mn)
        if c:
          f = self.prog.lookup(c, name)
          if f:
            r = self.prog.ann_type(f.mod, f.node.returns)
            return r
      return None
    if op == 'mcall':
      bt = self.typeof(t.args[1])
      if bt == NDARRAY and t.args[0] in ARRAY_METHODS:
        return NDARRAY
      if bt and bt[0] == 'cls':
        f = self.prog.lookup(bt[1], t.args[0])
        if f:
          return self.prog.ann_type(f.mod, f.node.returns)
      if bt and bt[0] == 'map' and t.args[0] in ('get', 'pop', 'setdefault'):
        return bt[1]
      if bt and bt[0] == 'map' and t.args[0] == 'values':
        return ('seq', bt[1])
      return None
    if op == 'glob':
      c = self.prog.classes.get(t.args[0])
      if c:
        return ('type', ('cls', c))
      mn, _, name = t.args[0].rpartition('.')
      c = self.prog.classes.get(mn)
      if c and c.is_enum:
        return ('cls', c)
      return None
    if op in ('bvar',):
      return None
    if op == 'list':
      return ('seq', self.typeof(t.args[0])) if t.args else None
    if op == 'mu':
      return None
    return None

  def attr_type(self, cls, name):
    for k in self.prog.mro(cls):
      for n, ann, _d in k.fields:
        if n == name:
          return self.prog.ann_type(k.mod, ann)
      f = k.methods.get(name)
      if f is not None and f.is_property:
        return self.prog.ann_type(k.mod, f.node.returns)
      for m in k.methods.values():
        if not m.node.args.args:
          continue
        selfn = m.node.args.args[0].arg
        anns = {a.arg: a.annotation for a in m.node.args.args + m.node.args.kwonlyargs}
        for s in ast.walk(m.node):
          if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Attribute) and isinstance(
              s.target.value, ast.Name) and s.target.value.id == selfn and s.target.attr == name:
            return self.prog.ann_type(k.mod, s.annotation)
        for s in ast.walk(m.node):
          if isinstance(s, ast.Assign):
            for tg in s.targets:
              if isinstance(tg, ast.Attribute) and isinstance(tg.value, ast.Name) and tg.value.id == selfn and tg.attr == name:
                v = s.value
                if isinstance(v, ast.Name) and v.id in anns:
                  r = self.prog.ann_type(k.mod, anns[v.id])
                  if r:
                    return r
                if isinstance(v, ast.Call):
                  d = dotted(v.func)
                  full = k.mod.resolve_name(d) if d else None
                  if full in self.prog.classes:
                    return ('cls', self.prog.classes[full])
                  if full in self.prog.funcs:
                    f = self.prog.funcs[full]
                    return self.prog.ann_type(f.mod, f.node.returns)
                  if d in ('list', 'tuple') and v.args and isinstance(v.args[0], ast.Name) and v.args[0].id in anns:
                    return self.prog.ann_type(k.mod, anns[v.args[0].id])
                  if isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and v.func.value.id in anns:
                    rt = self.prog.ann_type(k.mod, anns[v.func.value.id])
                    if rt and rt[0] == 'cls':
                      f = self.prog.lookup(rt[1], v.func.attr)
                      if f:
                        return self.prog.ann_type(f.mod, f.node.returns)
                if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Attribute) and isinstance(
                    v.value.value, ast.Name) and v.value.value.id == selfn and v.value.attr != name:
                  rt = self.attr_type(cls, v.value.attr)
                  if rt and rt[0] == 'cls':
                    r = self.attr_type(rt[1], v.attr)
                    if r:
                      return r
                if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name):
                  rt = None
                  if v.value.id in anns:
                    rt = self.prog.ann_type(k.mod, anns[v.value.id])
                  else:
                    for s2 in ast.walk(m.node):
                      if isinstance(s2, ast.Assign) and isinstance(s2.targets[0], ast.Name) and s2.targets[
                          0].id == v.value.id and isinstance(s2.value, ast.Call) and isinstance(
                              s2.value.func, ast.Attribute) and isinstance(s2.value.func.value, ast.Name) and (
                                  s2.value.func.value.id in anns):
                        rr = self.prog.ann_type(k.mod, anns[s2.value.func.value.id])
                        if rr and rr[0] == 'cls':
                          f = self.prog.lookup(rr[1], s2.value.func.attr)
                          if f:
                            rt = self.prog.ann_type(f.mod, f.node.returns)
                  if rt and rt[0] == 'cls':
                    r = self.attr_type(rt[1], v.attr)
                    if r:
                      return r
    return None

  def cls_of(self, t):
    ty = self.typeof(t)
    return ty[1] if ty and ty[0] == 'cls' else None

  # ------------------------------------------------------------ heap
  def heap_default(self, key):
    base, a = key
    if a == '[]':
      return UNDEF if base.op == 'ref' else mk('init', base)
    return self.raw_attr(base, a)

  def raw_attr(self, base, a):
    v = self.ver.get(base)
    return mk('attr', base, a, v) if v is not None and v is not NONE else mk('attr', base, a)

  def get_attr(self, base, name, node=None):
    """Attribute read on a value."""
    if base.op == 'phi' and (base.args[1].op in ('new', 'obj') or base.args[2].op in ('new', 'obj')):
      return T.phi(base.args[0], self.get_attr(base.args[1], name, node), self.get_attr(base.args[2], name, node))
    if (base, name) in self.heap:
      return self.heap[(base, name)]
    if base.op == 'ref':
      c = self.heap.get((base, '[]'))
      if c is not None and c.op in ('new', 'phi', 'obj'):
        return self.get_attr(c, name, node)
      if c is not None and name in ('shape', 'size', 'ndim', 'dtype', 'T'):
        return mk('attr', self.deref(base), name)
      return mk('attr', self.deref(base), name)
    if base.op == 'new':
      for k, v in base.args[1]:
        if k == name:
          return v
    if base.op == 'glob':
      full = self.prog.canon(f'{base.args[0]}.{name}')
      return self.global_value(full)
    c = self.cls_of(base)
    if c is not None:
      f = self.prog.lookup(c, name)
      if f is not None:
        if f.is_property:
          if f.is_abstract or self.no_inline(f) or f.qual in self.opaque or len(self.stack) > self.max_depth or f in self.stack:
            return self.raw_attr(base, name)
          return self.call_func(f, [base], {}, node)
        return mk('bound', base, name)
      k = self.prog.lookup_const(c, name)
      if k is not None and not any(name == n for n, _, _ in c.fields):
        return self.eval_in_class(k[0], k[1], name)
      fwd = self.forward(c, base, name)
      if fwd is not None:
        return self.call_func(fwd, [base, const(name)], {}, node)
    return self.raw_attr(base, name)

  def forward(self, c, base, name):
    """The __getattr__ of an object built here, for a name it does not define."""
    if base.op != 'obj' or name.startswith('__'):
      return None
    f = self.prog.lookup(c, '__getattr__')
    return f if f is not None and not self.no_inline(f) and f not in self.stack and len(self.stack) <= self.max_depth else None

  def eval_in_class(self, cls, expr, name):
    if cls.is_enum:
      return glob(f'{cls.qual}.{name}')
    return self.const_eval(cls.mod, expr, f'{cls.qual}.{name}')

  def const_eval(self, mod, expr, name):
    if name in self.module_cache:
      return self.module_cache[name]
    if name in self._const_stack:
      return glob(name)
    self._const_stack.append(name)
    self.quiet += 1
    pseudo = Func.__new__(Func)
    pseudo.mod, pseudo.node, pseudo.qual, pseudo.cls, pseudo.name = mod, expr, f'{mod.name}.<module>', None, '<module>'
    fr = Frame(pseudo, {}, mod, None)
    self.frames.append(fr)
    try:
      r = self.deref(self.ev(expr))
    finally:
      self.frames.pop()
      self.quiet -= 1
      self._const_stack.pop()
    self.module_cache[name] = r
    return r

  def global_value(self, full):
    """Value of a canonical dotted path."""
    if full in self.prog.funcs or full in self.prog.classes or full in self.prog.modules:
      return glob(full)
    mn, _, nm = full.rpartition('.')
    m = self.prog.modules.get(mn)
    if m is not None and nm in m.defs and m.defs[nm][0] == 'value':
      if self.prog.newtype_of(full):
        return glob(full)
      if m.assign_counts.get(nm, 0) > 1:
        return glob(full)
      v = m.defs[nm][1]
      if isinstance(v, ast.Call) and (m.resolve_name(dotted(v.func) or '') or '').split('.')[-1] in ('TypeVar',):
        return glob(full)
      r = self.const_eval(m, v, full)
      return r
    c = self.prog.classes.get(mn)
    if c is not None:
      if c.is_enum:
        return glob(full)
      f = self.prog.lookup(c, nm)
      if f is not None:
        return glob(f.qual) if not f.is_classmethod and not f.is_static else mk('clsm', glob(mn), nm)
      k = self.prog.lookup_const(c, nm)
      if k is not None:
        return self.eval_in_class(k[0], k[1], nm)
    if full == 'numpy.pi' or full == 'math.pi' or full == 'jax.numpy.pi':
      return glob('numpy.pi')
    if full in ('numpy.newaxis', 'jax.numpy.newaxis'):
      return NONE
    return glob(full)

  def lookup_name(self, name):
    fr = self.fr
    env = fr.env
    if name in env and name not in fr.globals:
      return env[name]
    p = fr.parent
    while p is not None:
      if name in p['env']:
        return p['env'][name]
      p = p['parent']
    mod = fr.mod
    if name in mod.imports or name in mod.defs:
      return self.global_value(mod.resolve_name(name))
    return glob(name)

  # ------------------------------------------------------------ expressions
  def val(self, node):
    return self.deref(self.ev(node))

  def ev(self, n):
    m = getattr(self, 'e_' + type(n).__name__, None)
    if m is None:
      self.unsupported.append(type(n).__name__)
      return mk('unknown', type(n).__name__, ast.dump(n)[:60])
    return m(n)

  def e_Constant(self, n):
    return const(n.value)

  def e_Name(self, n):
    return self.lookup_name(n.id)

  def e_NamedExpr(self, n):
    v = self.ev(n.value)
    self.assign(n.target, v, n)
    return v

  def e_Attribute(self, n):
    d = dotted(n)
    if d:
      head = d.split('.')[0]
      if head not in self.fr.env and not self._closure_has(head) and head in self.fr.mod.imports:
        full = self.fr.mod.resolve_name(d)
        # longest prefix that is a module constant may need attribute reads
        parts = full.split('.')
        for i in range(len(parts), 0, -1):
          pre = '.'.join(parts[:i])
          mn, _, nm = pre.rpartition('.')
          m = self.prog.modules.get(mn)
          if m is not None and nm in m.defs and m.defs[nm][0] == 'value' and not self.prog.newtype_of(pre):
            v = self.global_value(pre)
            for a in parts[i:]:
              v = self.get_attr(v, a, n)
            return v
          if mn in self.prog.classes or pre in self.prog.classes or pre in self.prog.modules:
            break
        return self.global_value(full)
    return self.get_attr(self.ev(n.value), n.attr, n)

  def _closure_has(self, name):
    p = self.fr.parent
    while p is not None:
      if name in p['env']:
        return True
      p = p['parent']
    return False

  def e_Tuple(self, n):
    return mk('tuple', *self._elts(n.elts))

  def _elts(self, elts):
    out = []
    for e in elts:
      if isinstance(e, ast.Starred):
        v = self.val(e.value)
        if v.op in ('list', 'tuple'):
          out.extend(v.args)
        else:
          out.append(mk('star', v))
      else:
        out.append(self.ev(e))
    return out

  def e_List(self, n):
    return self.new_ref(self.seq_term(self._elts(n.elts)))

  def seq_term(self, elts):
    if any(e.op == 'star' for e in elts):
      parts, cur = [], []
      for e in elts:
        if e.op == 'star':
          if cur:
            parts.append(mk('list', *cur))
            cur = []
          parts.append(e.args[0])
        else:
          cur.append(e)
      if cur:
        parts.append(mk('list', *cur))
      return self.concat(parts)
    return mk('list', *elts)

  def concat(self, parts):
    out = []
    for p in parts:
      if p.op == 'concat':
        out.extend(p.args)
      elif p.op in ('list', 'tuple') and not p.args:
        continue
      elif p.op in ('list', 'tuple') and out and out[-1].op in ('list', 'tuple'):
        out[-1] = mk('list', *(out[-1].args + p.args))
      else:
        out.append(p)
    if not out:
      return mk('list')
    if len(out) == 1:
      return out[0]
    return mk('concat', *out)

  def e_Set(self, n):
    return self.new_ref(mk('set', *sorted(set(self._elts(n.elts)))))

  def e_Dict(self, n):
    d = mk('dict')
    for k, v in zip(n.keys, n.values):
      if k is None:
        d = self.dict_update(d, self.val(v))
      else:
        kk = self.val(k)
        d = self.dict_set(d, kk, self.ev(v))
    return self.new_ref(d)

  def dict_set(self, d, k, v):
    if d.op == 'dict' and T.is_const(k) or (d.op == 'dict' and k.op == 'glob') or (d.op == 'dict' and not d.args):
      items = [(a, b) for a, b in d.args if a is not k] if not any(a is k for a, b in d.args) else None
      if items is None:
        return mk('dict', *[(a, v if a is k else b) for a, b in d.args])
      return mk('dict', *(list(d.args) + [(k, v)]))
    return mk('dset', d, k, v)

  def dict_update(self, d, o):
    if o.op == 'dict':
      for k, v in o.args:
        d = self.dict_set(d, k, v)
      return d
    return mk('dupdate', d, o)

  def e_Starred(self, n):
    return mk('star', self.val(n.value))

  def e_JoinedStr(self, n):
    parts = []
    for v in n.values:
      if isinstance(v, ast.Constant):
        parts.append(const(v.value))
      else:
        x = self.val(v.value)
        spec = self.val(v.format_spec) if v.format_spec is not None else None
        if spec is None or spec is const(''):
          parts.append(x if v.conversion == -1 else mk('conv', x, v.conversion))
        else:
          parts.append(mk('fmt', x, spec))
    return strcat(parts)

  def e_FormattedValue(self, n):
    return self.val(n.value)

  def e_IfExp(self, n):
    c = T.truth(self.val(n.test))
    if c is TRUE:
      return self.ev(n.body)
    if c is FALSE:
      return self.ev(n.orelse)
    if any(isinstance(x, (ast.Call, ast.NamedExpr)) for b in (n.body, n.orelse) for x in ast.walk(b)):
      out = {}

      def arm(k, e):
        v = self.ev(e)
        if self.alive:
          out[k] = v
      self.branch(c, lambda: arm(0, n.body), lambda: arm(1, n.orelse))
      if len(out) < 2:
        return out[0] if 0 in out else out[1] if 1 in out else UNDEF
      return T.phi(c, out[0], out[1])
    self.ctx.append(('if', c, True))
    a = self.ev(n.body)
    self.ctx.pop()
    self.ctx.append(('if', c, False))
    b = self.ev(n.orelse)
    self.ctx.pop()
    return T.phi(c, a, b)

  def e_BoolOp(self, n):
    vals = []
    pushed = 0
    for v in n.values:
      x = self.ev(v)
      vals.append(self.deref(x))
      c = T.truth(vals[-1])
      self.ctx.append(('if', c, isinstance(n.op, ast.And)))
      pushed += 1
    for _ in range(pushed):
      self.ctx.pop()
    ts = [T.truth(v) for v in vals]
    if all(T._bool_like(v) or v.op in ('and', 'not') for v in vals[:-1]) and (
        T._bool_like(vals[-1]) or vals[-1].op in ('and', 'not', 'call', 'mcall', 'attr')):
      return T.and_(*ts) if isinstance(n.op, ast.And) else T.or_(*ts)
    # value semantics: a or b
    r = vals[-1]
    for v, c in zip(reversed(vals[:-1]), reversed(ts[:-1])):
      r = T.phi(c, r, v) if isinstance(n.op, ast.And) else T.phi(c, v, r)
    return r

  def e_UnaryOp(self, n):
    v = self.val(n.operand)
    if isinstance(n.op, ast.Not):
      return T.not_(v)
    if isinstance(n.op, ast.USub):
      return T.neg(v)
    if isinstance(n.op, ast.UAdd):
      return v
    return T.not_(v)

  def e_BinOp(self, n):
    return self.binop(n.op, self.val(n.left), self.val(n.right), n)

  def binop(self, op, a, b, n=None):
    if isinstance(op, ast.Add):
      if is_str(a) or is_str(b):
        return strcat([a, b])
      if is_seq(a) or is_seq(b):
        return self.new_ref(self.concat([a, b]))
      if self._dunder(a, '__add__'):
        return mk('opadd', a, b)
      return T.add(a, b)
    if isinstance(op, ast.Sub):
      return T.sub(a, b)
    if isinstance(op, ast.Mult):
      if is_seq(a) or is_seq(b) or is_str(a) or is_str(b):
        return mk('repeat', *sorted((a, b)))
      return T.mul(a, b)
    if isinstance(op, ast.Div):
      if is_str(a) or is_str(b) or is_path(a):
        return mk('pathjoin', *flat_path(a, b))
      return T.div(a, b)
    if isinstance(op, ast.Pow):
      return T.power(a, b)
    if isinstance(op, ast.BitAnd):
      return T.and_(a, b)
    if isinstance(op, ast.BitOr):
      if a.op == 'dict' or b.op == 'dict' or a.op in ('new', 'dset', 'dupdate', 'dictmap'):
        return self.new_ref(self.merge_dict(a, b))
      return T.or_(a, b)
    if isinstance(op, ast.FloorDiv):
      if T.is_num(a) and T.is_num(b) and b.args[0] != 0:
        return const(a.args[0] // b.args[0])
      return mk('floordiv', a, b)
    if isinstance(op, ast.Mod):
      if is_str(a):
        return mk('strmod', a, b)
      return mk('mod', a, b)
    if isinstance(op, ast.MatMult):
      return mk('matmul', a, b)
    return mk('binop', type(op).__name__, a, b)

  def merge_dict(self, a, b):
    if a.op == 'new' and b.op == 'dict':
      f = dict(a.args[1])
      for k, v in b.args:
        f[T.cval(k)] = v
      return mk('new', a.args[0], tuple(sorted(f.items())))
    return self.dict_update(a, b)

  def _dunder(self, t, name):
    c = self.cls_of(t)
    return c is not None and self.prog.lookup(c, name) is not None

  def e_Compare(self, n):
    out = []
    left = self.val(n.left)
    for op, r in zip(n.ops, n.comparators):
      right = self.val(r)
      out.append(self.compare(op, left, right))
      left = right
    return T.and_(*out) if len(out) > 1 else out[0]

  def compare(self, op, a, b):
    if isinstance(op, ast.Lt):
      return T.lt(a, b)
    if isinstance(op, ast.Gt):
      return T.lt(b, a)
    if isinstance(op, ast.LtE):
      return T.le(a, b)
    if isinstance(op, ast.GtE):
      return T.le(b, a)
    if isinstance(op, ast.Eq):
      return self.eq(a, b)
    if isinstance(op, ast.NotEq):
      return T.not_(self.eq(a, b))
    if isinstance(op, ast.Is):
      return T.is_(a, b)
    if isinstance(op, ast.IsNot):
      return T.not_(T.is_(a, b))
    if isinstance(op, ast.In):
      return self.contains(a, b)
    return T.not_(self.contains(a, b))

  def eq(self, a, b):
    if a.op in ('tuple', 'list') and b.op in ('tuple', 'list') and len(a.args) == len(b.args):
      return T.and_(*[self.eq(x, y) for x, y in zip(a.args, b.args)])
    if a.op == 'glob' and b.op == 'glob' and a is not b:
      ea, eb = self._enum(a), self._enum(b)
      if ea and eb:
        return FALSE
    # NB: `a.shape == (n, m)`: compare component-wise
    return T.eq(a, b)

  def _enum(self, g):
    c = self.prog.classes.get(g.args[0].rpartition('.')[0])
    return c is not None and c.is_enum

  def contains(self, a, b):
    if b.op in ('list', 'tuple', 'set'):
      if T.is_const(a) and all(T.is_const(x) for x in b.args):
        return TRUE if a in b.args else FALSE
      return T.or_(*[self.eq(a, x) for x in b.args]) if b.args else FALSE
    if b.op == 'dict' and T.is_const(a) and all(T.is_const(k) for k, _ in b.args):
      return TRUE if any(k is a for k, _ in b.args) else FALSE
    if b.op == 'mcall' and b.args[0] == 'keys':
      b = b.args[1]
    return mk('in', a, b)

  def e_Subscript(self, n):
    base = self.ev(n.value)
    idx = self.ev_index(n.slice)
    return self.item(base, idx)

  def ev_index(self, s):
    if isinstance(s, ast.Slice):
      return mk('slice', self.val(s.lower) if s.lower else NONE, self.val(s.upper) if s.upper else NONE,
                self.val(s.step) if s.step else NONE)
    if isinstance(s, ast.Tuple):
      return mk('tuple', *[self.ev_index(e) for e in s.elts])
    return self.val(s)

  def item(self, base, idx):
    if base.op == 'phi' and (is_seq(self.deref(base.args[1])) and is_seq(self.deref(base.args[2]))):
      return T.phi(base.args[0], self.item(base.args[1], idx), self.item(base.args[2], idx))
    b = self.heap.get((base, '[]'), base)
    if b.op in ('list', 'tuple') and T.is_num(idx):
      i = T.cval(idx)
      if isinstance(i, int) and -len(b.args) <= i < len(b.args) and not any(x.op == 'star' for x in b.args):
        return b.args[i]
    if b.op in ('list', 'tuple') and idx.op == 'slice' and not any(x.op == 'star' for x in b.args):
      try:
        sl = slice(*[None if x is NONE else T.cval(x) for x in idx.args])
        if all(x is NONE or T.is_num(x) for x in idx.args):
          return mk(b.op, *b.args[sl])
      except Exception:  # pylint: disable=broad-except
        pass
    if b.op == 'dict':
      for k, v in b.args:
        if k is idx:
          return v
    if b.op == 'new' and self.prog.classes.get(b.args[0]) is not None and idx.op == 'const' and isinstance(idx.args[0], str):
      for k, v in b.args[1]:
        if k == idx.args[0]:
          return v
    b2 = self.deref(base)
    if b2.op == 'item' and _scalar_index(b2.args[1]) and (_scalar_index(idx) or idx.op == 'tuple') and (
        self.typeof(b2.args[0]) == ('ext', 'numpy.ndarray')):
      return item_t(b2.args[0], mk('tuple', b2.args[1], *(idx.args if idx.op == 'tuple' else (idx,))))
    return item_t(b2, idx)

  def e_Slice(self, n):
    return self.ev_index(n)

  def e_Lambda(self, n):
    return self.make_closure(n, '<lambda>')

  def make_closure(self, node, name):
    self.nfn += 1
    fr = self.fr
    t = mk('fn', self.nfn)
    defaults = {}
    a = node.args
    pos = a.posonlyargs + a.args
    for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
      defaults[p.arg] = self.ev(d)
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
      if d is not None:
        defaults[p.arg] = self.ev(d)
    self.closures[t] = dict(node=node, env=fr.env, parent=fr.parent, mod=fr.mod, cls=fr.cls, func=fr.func, name=name,
                            defaults=defaults)
    return t

  # comprehension ---------------------------------------------------------
  def e_ListComp(self, n):
    return self.new_ref(self.comp(n.generators, lambda: self.ev(n.elt), n))

  def e_GeneratorExp(self, n):
    return self.comp(n.generators, lambda: self.ev(n.elt), n)

  def e_SetComp(self, n):
    return self.new_ref(mk('setof', self.comp(n.generators, lambda: self.ev(n.elt), n)))

  def e_DictComp(self, n):
    r = self.comp(n.generators, lambda: mk('tuple', self.val(n.key), self.ev(n.value)), n)
    return self.new_ref(dict_of_pairs(self, r))

  def comp(self, gens, elt, node):
    g = gens[0]
    saved = dict(self.fr.env)
    it = self.ev(g.iter)
    known = self.known_elements(it)
    try:
      if known is not None:
        parts = []
        for x in known:
          self.assign(g.target, x, node)
          parts.append(self._comp_inner(g, gens, elt, node))
        return self.concat(parts) if parts else mk('list')
      uid, length, bind = self.iter_info(it, node)
      self.ctx.append(('loop', uid, length))
      mark = self.nref
      bind(g.target)
      body = self._comp_inner(g, gens, elt, node)
      body = self.deref_new(body, mark)
      self.ctx.pop()
      return self.close_list(uid, length, body)
    finally:
      self.fr.env.clear()
      self.fr.env.update(saved)

  def _comp_inner(self, g, gens, elt, node):
    conds = []
    for c in g.ifs:
      t = T.truth(self.val(c))
      conds.append(t)
      self.ctx.append(('if', t, True))
    if len(gens) > 1:
      inner = self.comp(gens[1:], elt, node)
    else:
      inner = mk('list', elt())
    for _ in conds:
      self.ctx.pop()
    if conds:
      return T.phi(T.and_(*conds), inner, mk('list'))
    return inner

  def deref_new(self, t, mark):
    """Dereferences locations allocated after `mark`."""
    ks = {k[0] for k in self.heap if k[1] == '[]' and (k[0].op == 'ref' and k[0].args[0] > mark or k[0] in self.bound)}
    if not ks:
      return t
    active = set()

    def fn(x):
      if x in ks and x not in active:
        active.add(x)
        r = T.subst(self.heap[(x, '[]')], fn)
        active.discard(x)
        return r
      return None
    return T.subst(t, fn)

  def close_list(self, uid, length, body):
    """Concatenation over all iterations of the per-iteration list `body`."""
    ix = mk('ix', uid)
    h = binder_height(body) + 1
    b = T.subst(body, lambda x: mk('bv', h) if x is ix else None)
    if b.op == 'list' and len(b.args) == 1:
      e = b.args[0]
      if e.op == 'item' and e.args[1] is mk('bv', h) and not T.contains_term(e.args[0], mk('bv', h)) and (
          length is len_t(e.args[0])):
        return mk('seqcopy', e.args[0]) if e.args[0].op != 'seqcopy' else e.args[0]
      u = unfilter(h, length, e)
      if u is not None:
        return mk('mapf', *u)
      return mk('mapl', h, length, e)
    if b.op == 'phi' and b.args[2].op == 'list' and not b.args[2].args and b.args[1].op == 'list' and len(b.args[1].args) == 1:
      u = unfilter(h, length, mk('tuple', b.args[1].args[0], b.args[0]))
      if u is not None:
        h2, l2, e2, c2 = u
        return mk('mapf', h2, l2, e2.args[0], T.and_(c2, e2.args[1]))
    if b.op == 'phi' and b.args[1].op == 'list' and len(b.args[1].args) == 1 and b.args[2].op == 'list' and not b.args[2].args:
      return mk('mapf', h, length, b.args[1].args[0], b.args[0])
    if b.op == 'phi' and b.args[2].op == 'list' and len(b.args[2].args) == 1 and b.args[1].op == 'list' and not b.args[1].args:
      return mk('mapf', h, length, b.args[2].args[0], T.not_(b.args[0]))
    if b.op == 'list' and not b.args:
      return mk('list')
    one = one_each(b)
    if one is not None:
      return mk('mapl', h, length, one)
    return mk('flatmap', h, length, b)

  def known_elements(self, it):
    c = self.deref(it) if it.op in ('ref', 'attr', 'init') else it
    c0 = self.heap.get((it, '[]'), it)
    if c0.op in ('list', 'tuple') and len(c0.args) <= 24 and not any(a.op == 'star' for a in c0.args):
      return list(c0.args)
    if c0.op == 'dict' and len(c0.args) <= 24:
      return [k for k, _ in c0.args]
    if c0.op == 'set' and len(c0.args) <= 24:
      return list(c0.args)
    if c.op == 'mcall' and c.args[0] in ('items', 'keys', 'values') and c.args[1].op == 'dict' and len(c.args[1].args) <= 24:
      d = c.args[1].args
      if c.args[0] == 'items':
        return [mk('tuple', k, v) for k, v in d]
      return [k if c.args[0] == 'keys' else v for k, v in d]
    if it.op == 'enumerate':
      k = self.known_elements(it.args[0])
      if k is not None:
        return [mk('tuple', T.add(const(i), it.args[1]), x) for i, x in enumerate(k)]
    if it.op == 'zip':
      ks = [self.known_elements(x) for x in it.args]
      if ks and all(k is not None for k in ks):
        return [mk('tuple', *xs) for xs in zip(*ks)]
    if it.op == 'call' and it.args[0] is glob('range') and all(T.is_num(a) for a in it.args[1]):
      try:
        r = list(range(*[T.cval(a) for a in it.args[1]]))
      except TypeError:
        return None
      if len(r) <= 4:
        return [const(i) for i in r]
    return None

  def iter_info(self, it, node):
    """Returns (uid, length term, bind(target))."""
    self.nloop += 1
    uid = self.nloop
    ix = mk('ix', uid)
    length, elem = self.iter_elem(it, ix)
    li = LoopInfo(uid, node, self.fr.func, 'for')
    li.length, li.iter = length, self.deref(it)
    self.loops[uid] = li
    return uid, length, (lambda target: self.assign(target, elem, node))

  def iter_elem(self, it, ix):
    if it.op == 'enumerate':
      l, e = self.iter_elem(it.args[0], ix)
      return l, mk('tuple', T.add(ix, it.args[1]), e)
    if it.op == 'zip':
      subs = [self.iter_elem(x, ix) for x in it.args]
      ls = sorted(set(l for l, _ in subs))
      l = ls[0] if len(ls) == 1 else mk('minlen', *ls)
      return l, mk('tuple', *[e for _, e in subs])
    if it.op == 'call' and it.args[0] is glob('range'):
      a = it.args[1]
      if len(a) == 1:
        return a[0], ix
      if len(a) == 2 or (len(a) == 3 and a[2] is ONE):
        return T.sub(a[1], a[0]), T.add(a[0], ix)
    d = self.deref(it)
    if d.op == 'seqcopy':
      d = d.args[0]
    if d.op == 'mapl':
      h, l, b = d.args
      return l, T.subst(b, lambda x: ix if x is mk('bv', h) else None)
    if it.op == 'ref' and d.op in ('mapf', 'flatmap', 'concat', 'fold', 'phi', 'seqcopy'):
      it = d
    elif it.op != 'ref':
      it = d if d.op != it.op else it
    if d.op == 'mcall' and d.args[0] == 'items' and not d.args[2]:
      dd = d.args[1]
      key = item_t(mk('mcall', 'keys', dd, (), (), None), ix)
      return len_t(dd), mk('tuple', key, item_t(dd, key))
    if d.op == 'mcall' and d.args[0] == 'keys' and not d.args[2]:
      return len_t(d.args[1]), item_t(d, ix)
    if d.op == 'mcall' and d.args[0] == 'values' and not d.args[2]:
      dd = d.args[1]
      key = item_t(mk('mcall', 'keys', dd, (), (), None), ix)
      return len_t(dd), item_t(dd, key)
    ty = self.typeof(it) or self.typeof(d)
    if ty and ty[0] == 'map' or d.op in ('dictmap', 'dset'):
      return len_t(d), item_t(mk('mcall', 'keys', d, (), (), None), ix)
    e = item_t(d, ix)
    if ty and ty[0] == 'seq':
      self.set_type(e, ty[1])
    return len_t(d), e

  def e_Await(self, n):
    return self.ev(n.value)

  def e_Yield(self, n):
    v = self.ev(n.value) if n.value else NONE
    self.do_yield(v, n)
    return NONE

  def do_yield(self, v, n):
    fr = self.fr
    self.emit('yield', n, value=self.deref(v))
    if fr.yields is not None:
      self.heap[(fr.yields, '[]')] = self.concat([self.heap.get((fr.yields, '[]'), mk('list')), mk('list', v)])

  def e_YieldFrom(self, n):
    v = self.val(n.value)
    fr = self.fr
    self.emit('yield_from', n, value=v)
    if fr.yields is not None:
      self.heap[(fr.yields, '[]')] = self.concat([self.heap.get((fr.yields, '[]'), mk('list')), v])
    return NONE

  # ------------------------------------------------------------ calls
  def e_Call(self, n):
    f = n.func
    # super()
    if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and (
        f.value.func.id == 'super'):
      return self.super_call(n, f.attr)
    args, kwargs = None, None
    if isinstance(f, ast.Attribute):
      fn = self.e_method_target(f)
    else:
      fn = self.ev(f)
    args = self._elts(n.args)
    kwargs = {}
    for k in n.keywords:
      if k.arg is None:
        d = self.val(k.value)
        if d.op == 'dict' and all(a.op == 'const' for a, _ in d.args):
          for a, b in d.args:
            kwargs[a.args[0]] = b
        else:
          kwargs['**'] = d
      else:
        kwargs[k.arg] = self.ev(k.value)
    return self.apply(fn, args, kwargs, n)

  def e_method_target(self, f):
    d = dotted(f)
    if d:
      head = d.split('.')[0]
      if head not in self.fr.env and not self._closure_has(head) and (
          head in self.fr.mod.imports or head in self.fr.mod.defs or d == head):
        if head in self.fr.mod.imports:
          t = self.e_Attribute(f)
          return t
    base = self.ev(f.value)
    if base.op == 'glob':
      return self.get_attr(base, f.attr, f)
    c = self.cls_of(base)
    if (base, f.attr) in self.heap:
      return self.heap[(base, f.attr)]
    if base.op == 'new' and any(k == f.attr for k, _ in base.args[1]):
      return self.get_attr(base, f.attr, f)
    if c is not None:
      m = self.prog.lookup(c, f.attr)
      if m is not None and m.is_property:
        return self.get_attr(base, f.attr, f)
    return mk('bound', base, f.attr)

  def apply(self, fn, args, kwargs, node):
    if fn.op == 'bound':
      return self.call_method(fn.args[0], fn.args[1], args, kwargs, node)
    if fn.op == 'fn':
      return self.call_closure(fn, args, kwargs, node)
    if fn.op == 'partial':
      f, a, k = fn.args
      kw = dict(k)
      kw.update(kwargs)
      if f.op == 'attr':  # the method of an opaque object, bound before the call
        return self.call_method(f.args[0], f.args[1], list(a) + args, kw, node)
      return self.apply(f, list(a) + args, kw, node)
    if fn.op == 'clsm':
      c = self.prog.classes[fn.args[0].args[0]]
      m = self.prog.lookup(c, fn.args[1])
      if m.is_static:
        return self.call_func(m, args, kwargs, node)
      return self.call_func(m, [fn.args[0]] + args, kwargs, node)
    if fn.op == 'glob':
      return self.call_global(fn.args[0], args, kwargs, node)
    if fn.op == 'phi':
      c, a, b = fn.args
      if a.op in ('glob', 'fn', 'bound', 'partial', 'clsm') or b.op in ('glob', 'fn', 'bound', 'partial', 'clsm'):
        s0 = self.snap()
        self.ctx.append(('if', c, True))
        ra = self.apply(a, args, kwargs, node)
        sa = self.snap()
        self.restore(s0)
        self.ctx.append(('if', c, False))
        rb = self.apply(b, args, kwargs, node)
        sb = self.snap()
        self.merge_into(c, sa, sb, s0)
        return T.phi(c, ra, rb)
    c = self.cls_of(fn)
    if c is not None:
      m = self.prog.lookup(c, '__call__')
      if m is not None and not (fn.op == 'attr' and fn not in self.exact and (m.is_abstract or self.overridden(c, '__call__'))):
        return self.call_method(fn, '__call__', args, kwargs, node)
    if fn.op == 'attr' and fn.args[0].op == 'param':  # a field held in a local is called as the field itself
      return self.call_method(fn.args[0], fn.args[1], args, kwargs, node)
    # opaque callable value
    return self.opaque_call(fn, None, args, kwargs, node)

  def closed(self, t):
    """Dereferences and closes function values (to lambda terms)."""
    t = self.deref(t)
    fns = [x for x in T.subterms(t) if x.op in ('fn', 'bound')]
    if not fns:
      return t

    def f(x):
      if x.op == 'fn':
        return self.fn_term(x)
      if x.op == 'partial' and x.args[0].op == 'fn' and x.args[0] in self.closures:
        return self.fn_term(x.args[0], x)
      return None
    return T.subst(t, f)

  def fn_term(self, fn, part=None):
    cl = self.closures[fn]
    if cl.get('closing'):
      return fn
    terms = cl.setdefault('terms', {})
    if part in terms:
      return terms[part]
    cl['closing'] = True
    a = cl['node'].args
    ps = [p.arg for p in a.posonlyargs + a.args]
    given, kw = [], {}
    if part is not None:
      given, kw = list(part.args[1]), dict(part.args[2])
      ps = [p for p in ps[len(given):] if p not in kw]
    params = [mk('lamparam', fn.args[0], i) for i in range(len(ps))]
    s0 = (dict(self.heap), dict(self.ver), list(self.ctx), self.alive)
    self.ctx = list(self.ctx) + [('lambda', fn.args[0])]
    for p in a.kwonlyargs:
      if p.arg not in cl['defaults'] and p.arg not in kw:
        kw[p.arg] = mk('lamparam', fn.args[0], 'k_' + p.arg)
    kw.update({n: v for n, v in zip(ps, params)} if part is not None and part.args[2] else {})
    if a.vararg and not (part is not None and part.args[2]):
      params.append(mk('lamparam', fn.args[0], '*'))
      ps = ps + ['*']
      pass_on = params[:-1] + [mk('star', params[-1])]
    else:
      pass_on = params
    r = self.deref(self.call_closure(fn, given + ([] if part is not None and part.args[2] else pass_on), kw, cl['node']))
    self.heap, self.ver, self.ctx, self.alive = s0
    cl['closing'] = False
    h = binder_height(r) + 1
    idx = {p: i for i, p in enumerate(params)}
    r = T.subst(r, lambda x: mk('lbv', h, idx[x]) if x in idx else None)
    t = mk('lam', h, len(params), r)
    LAM_NAMES[t] = ps if LAM_NAMES.get(t, ps) == ps else None
    terms[part] = t
    return t

  def opaque_call(self, fn, name, args, kwargs, node, pure=False, recv=None):
    dargs = tuple(self.closed(a) for a in args)
    dkw = tuple(sorted((k, self.closed(v)) for k, v in kwargs.items()))
    tag = None
    if recv is not None:
      key = ('m', name, recv, dargs, dkw)
    else:
      key = ('f', fn, dargs, dkw)
    if not pure:
      tag = self.impure_counts.get(key, 0)
      if not self.quiet:
        self.impure_counts[key] = tag + 1
    if recv is not None:
      rt = self.deref(recv)
      v = self.ver.get(recv)
      if v is not None and v is not NONE:
        rt = mk('at', rt, v)
      t = mk('mcall', name, rt, dargs, dkw, tag)
    else:
      t = mk('call', fn, dargs, dkw, tag)
    self.emit('call', node, fn=fn, name=name, recv=recv, args=dargs, kwargs=dict(dkw), result=t, pure=pure,
              rargs=tuple(args))
    if not pure and recv is not None:
      self.ver[recv] = mk('v', self.ver.get(recv, NONE), name)
      for k in [k for k in self.heap if k[0] is recv and k[1] != '[]']:
        del self.heap[k]
    return t

  def call_closure(self, fn, args, kwargs, node):
    cl = self.closures[fn]
    if self.stack.count(fn) > 0 or len(self.stack) > self.max_depth:
      return self.opaque_call(fn, None, args, kwargs, node)
    n = cl['node']
    f = Func.__new__(Func)
    f.mod, f.node, f.cls, f.name = cl['mod'], n, cl['cls'], cl['name']
    f.qual = cl['func'].qual + '.' + cl['name']
    f.decs, f.is_gen = [], (not isinstance(n, ast.Lambda) and _is_gen(n))
    f.is_static = f.is_classmethod = f.is_property = f.is_abstract = False
    return self.run_func(f, args, kwargs, node, parent=dict(env=cl['env'], parent=cl['parent']), key=fn,
                         defaults=cl['defaults'])

  def call_func(self, f, args, kwargs, node):
    if (f.qual in self.opaque or self.no_inline(f) or self.stack.count(f) > 1 or len(self.stack) > self.max_depth):
      self.opaque_calls.add(f.qual)
      if f.cls is not None and not f.is_static and args and not f.is_classmethod:
        return self.opaque_call(None, f.name, *self.leading(f.name, args[1:], kwargs), node, pure=f.qual in self.opaque, recv=args[0])
      rest = {k: v for k, v in kwargs.items() if k not in f.params()[0] + f.params()[1]} if f.node.args.kwarg else {}
      return self.opaque_call(glob(f.qual), None, self.norm_args(f, args, kwargs), rest, node, pure=f.qual in self.opaque)
    return self.run_func(f, args, kwargs, node, key=f)

  def norm_args(self, f, args, kwargs):
    """Positional argument list in declared order (for opaque repository functions)."""
    env = self.bind(f, args, kwargs, None, quiet=True)
    ps, ko, _a = f.params()
    return [env[p] for p in ps + ko if p in env]

  def bind(self, f, args, kwargs, node, defaults=None, quiet=False):
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    env = {}
    args = list(args)
    extra, rest_star = [], None
    if any(x.op == 'star' for x in args):
      if a.vararg and args[-1].op == 'star' and sum(x.op == 'star' for x in args) == 1:
        given = len(args) - 1
        rest_star = args[-1].args[0]
        if given < len(pos):
          rest_star = self.item(rest_star, mk('slice', const(len(pos) - given), NONE, NONE))
      # unknown number of positional arguments: expand by indexing
      out = []
      for i, x in enumerate(args):
        if x.op == 'star':
          need = len(pos) - len(out) - (len(args) - i - 1) - len([k for k in kwargs if k in pos])
          for j in range(max(need, 0)):
            out.append(self.item(x.args[0], const(j)))
        else:
          out.append(x)
      args = out
    for p, v in zip(pos, args):
      env[p] = v
    if len(args) > len(pos):
      extra = args[len(pos):]
    kw = dict(kwargs)
    star = kw.pop('**', None)
    rest = {}
    names = pos + [x.arg for x in a.kwonlyargs]
    for k, v in kw.items():
      if k in names:
        env[k] = v
      else:
        rest[k] = v
    if a.vararg and rest_star is not None:
      env[a.vararg.arg] = mk('tuple', *extra, mk('star', rest_star)) if extra else rest_star
    elif a.vararg:
      env[a.vararg.arg] = mk('tuple', *extra)
    if a.kwarg:
      d = mk('dict', *[(const(k), v) for k, v in sorted(rest.items())])
      if star is not None:
        d = self.dict_update(d, star)
      env[a.kwarg.arg] = self.new_ref(d)
    dn = pos[len(pos) - len(a.defaults):]
    missing = [p for p in names if p not in env]
    if missing:
      dmap = dict(zip(dn, a.defaults))
      dmap.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
      for p in missing:
        if star is not None and a.kwarg is None:
          env[p] = item_t(star, const(p))
        elif defaults is not None and p in defaults:
          env[p] = defaults[p]
        elif p in dmap:
          v = dmap[p]
          if isinstance(v, ast.Constant):
            env[p] = const(v.value)
          else:
            t = self.const_eval(f.mod, v, f'{f.qual}.<default {p}>')
            env[p] = t if t.op in ('const', 'glob', 'tuple') else mk('default', f.qual, p, t)
            if t.op not in ('const', 'glob', 'tuple'):
              env[p] = t if quiet else self.default_loc(f, p, t)
        else:
          env[p] = UNDEF if f.name != '<lambda>' else mk('param', p)
    return env

  def default_loc(self, f, p, t):
    loc = mk('default', f.qual, p)
    if (loc, '[]') not in self.heap:
      self.heap[(loc, '[]')] = t
    return loc

  def run_func(self, f, args, kwargs, node, parent=None, key=None, defaults=None):
    env = self.bind(f, args, kwargs, node, defaults)
    self.inlined.add(f.qual)
    fr = Frame(f, env, f.mod, f.cls, parent)
    a = f.node.args
    # annotation types for arguments without a better type
    for x in a.posonlyargs + a.args + a.kwonlyargs:
      v = env.get(x.arg)
      if v is not None and x.annotation is not None and v.op not in ('const', 'new', 'poly') and self.typeof(v) is None:
        ty = self.prog.ann_type(f.mod, x.annotation)
        if ty is not None and v.op not in ('ref', 'fn', 'list', 'tuple', 'phi', 'glob'):
          self.types[v] = ty
    fr.base = len(self.ctx)
    alive0 = self.alive
    self.stack.append(key)
    self.frames.append(fr)
    ctx0 = list(self.ctx)
    saved_loopstack, self.loopstack = self.loopstack, []
    if f.is_gen:
      fr.yields = self.new_ref(mk('list'))
    self.emit('enter', node, callee=f, args=tuple(args), bound=dict(env))
    try:
      if isinstance(f.node, ast.Lambda):
        v = self.ev(f.node.body)
        fr.returns.append((tuple(self.ctx), v, dict(self.heap), dict(self.ver)))
        self.alive = False
      else:
        self.block(f.node.body)
        if self.alive:
          fr.returns.append((tuple(self.ctx), NONE, dict(self.heap), dict(self.ver)))
    finally:
      self.frames.pop()
      self.stack.pop()
      self.loopstack = saved_loopstack
    # merge the returns
    rets = fr.returns
    if not rets:
      self.ctx = ctx0
      self.alive = False
      return mk('bottom')
    val, heap, ver = None, None, None
    for ctx, v, h, vr in reversed(rets):
      if val is None:
        val, heap, ver = v, h, vr
        continue
      c = self.path_cond(ctx[fr.base:])
      if v is not val and (v.op == 'ref' or val.op == 'ref') and v.op in ('ref',) and val.op in ('ref',):
        # join two fresh containers
        cv, cw = h.get((v, '[]')), heap.get((val, '[]'))
        if cv is not None and cw is not None:
          nv = T.phi(c, v, val)
          heap = self.merge_heap(c, h, heap)
          val = nv
          ver = self.merge_ver(c, vr, ver)
          continue
      val = T.phi(c, v, val)
      heap = self.merge_heap(c, h, heap)
      ver = self.merge_ver(c, vr, ver)
    self.heap, self.ver = heap, ver
    self.ctx = ctx0
    self.alive = alive0
    for ctx in fr.raises:
      c = self.path_cond(ctx[fr.base:])
      if c is not TRUE and not any(x[0] in ('loop', 'try', 'except') for x in ctx[fr.base:]):
        self.ctx.append(('if', c, False, 'assert'))
    if f.is_gen:
      return fr.yields
    self.emit('leave', node, callee=f, value=self.deref(val))
    ty = self.prog.ann_type(f.mod, f.node.returns) if not isinstance(f.node, ast.Lambda) else None
    if ty is not None and ty[0] in ('cls', 'seq', 'tup', 'map') and self.typeof(val) is None and val.op not in ('const', 'poly', 'tuple'):
      self.types[val] = ty
    return val

  def path_cond(self, ctx):
    out = []
    for c in ctx:
      if c[0] == 'if':
        if len(c) > 3:
          continue      # holds on every execution that gets past this point
        out.append(c[1] if c[2] else T.not_(c[1]))
      elif c[0] == 'loop':
        out.append(mk('inloop', c[2]))
      elif c[0] == 'except':
        out.append(mk('raised', c[1], c[2]))
    return T.and_(*out)

  def merge_heap(self, c, h1, h2):
    if h1 == h2:
      return dict(h1)
    out = {}
    for k in list(h1) + [k for k in h2 if k not in h1]:
      a, b = h1.get(k), h2.get(k)
      if a is None:
        a = self.heap_default(k)
      if b is None:
        b = self.heap_default(k)
      if a is UNDEF:
        out[k] = b
      elif b is UNDEF:
        out[k] = a
      else:
        out[k] = T.phi(c, a, b)
    return out

  def merge_ver(self, c, v1, v2):
    out = {}
    for k in list(v1) + [k for k in v2 if k not in v1]:
      a, b = v1.get(k, NONE), v2.get(k, NONE)
      out[k] = T.phi(c, a, b)
    return out

  def super_call(self, n, name):
    args = self._elts(n.args)
    kwargs = {k.arg: self.ev(k.value) for k in n.keywords if k.arg}
    fr = self.fr
    cls = fr.cls
    selfn = fr.func.node.args.args[0].arg if fr.func.node.args.args else None
    me = fr.env.get(selfn, mk('param', 'self')) if selfn else mk('param', 'self')
    start = self.cls_of(me) or cls
    mro = self.prog.mro(start)
    if cls in mro:
      rest = mro[mro.index(cls) + 1:]
    else:
      rest = self.prog.mro(cls)[1:]
    for k in rest:
      if name in k.methods:
        return self.call_func(k.methods[name], [me] + args, kwargs, n)
    return self.opaque_call(mk('super', glob(cls.qual) if cls else NONE), name, args, kwargs, n, recv=me,
                            pure=name in ('__init__', '__init_subclass__', '__post_init__'))

  def call_method(self, base, name, args, kwargs, node):
    if base.op == 'phi' and any(x.op in ('new', 'obj') for x in base.args[1:]):
      c, a, b = base.args
      s0 = self.snap()
      self.ctx.append(('if', c, True))
      ra = self.call_method(a, name, args, kwargs, node)
      sa, la = self.snap(), self.alive
      self.restore(s0)
      self.ctx.append(('if', c, False))
      rb = self.call_method(b, name, args, kwargs, node)
      sb, lb = self.snap(), self.alive
      if la and lb:
        self.merge_into(c, sa, sb, s0)
      return T.phi(c, ra, rb)
    cb = self.heap.get((base, '[]'))
    c = self.cls_of(base)
    if c is None and cb is not None and cb.op == 'new':
      c = self.prog.classes.get(cb.args[0])
    if c is not None:
      m = self.prog.lookup(c, name)
      if m is not None:
        if m.is_abstract and base.op not in ('obj', 'new'):
          return self.opaque_call(None, name, self.method_args(m, args, kwargs), {}, node, recv=base)
        if base not in self.exact and base.op not in ('obj', 'new') and self.overridden(c, name):
          return self.opaque_call(None, name, self.method_args(m, args, kwargs), {}, node, recv=base)
        if self.prog.is_subclass(c, 'typing.Protocol') and c.bases and 'typing.Protocol' in c.bases and base.op not in ('obj', 'new'):
          return self.opaque_call(None, name, self.method_args(m, args, kwargs), {}, node, recv=base)
        if m.is_static:
          return self.call_func(m, args, kwargs, node)
        if m.is_classmethod:
          return self.call_func(m, [glob(c.qual)] + args, kwargs, node)
        return self.call_func(m, [base] + args, kwargs, node)
      if name == '_replace' and c.is_dataclass:
        return self.replace(self.deref(base), kwargs)
      if (base, name) not in self.heap and self.forward(c, base, name) is not None:
        return self.apply(self.get_attr(base, name, node), args, kwargs, node)
    if name in MUTATORS and self.mutator(base, name, args, kwargs, node):
      return self._mut_result
    dbase = self.deref(base)
    if name == 'enter_context' and is_exitstack(dbase) and len(args) == 1:
      vd = self.closed(args[0])
      self.emit('with_enter', node, value=vd)
      if self.cls_of(args[0]) is not None:
        return self.enter(args[0], node)
      return mk('entered', vd)
    if name in ('startswith', 'endswith', 'lower', 'upper', 'strip') and dbase.op == 'const' and isinstance(dbase.args[0], str) and not kwargs and all(
        a.op == 'const' and isinstance(a.args[0], str) for a in args):
      return const(getattr(dbase.args[0], name)(*[a.args[0] for a in args]))
    if name == 'total_seconds' and not args:
      return T.div(dbase, SEC)
    if name in ('items', 'keys', 'values') and dbase.op == 'dict' and not args:
      return mk('mcall', name, dbase, (), (), None)
    if name == 'get' and dbase.op == 'dict' and args and args[0].op == 'const':
      for k, v in dbase.args:
        if k is args[0]:
          return v
      if all(k.op == 'const' for k, _ in dbase.args):
        return args[1] if len(args) > 1 else NONE
    if name == '__getitem__' and len(args) == 1:
      return self.item(base, self.deref(args[0]))
    if name in ('copy',) and not args:
      return self.new_ref(mk('seqcopy', dbase) if dbase.op not in ('list', 'dict', 'tuple') else dbase)
    if name == 'format' and is_str(dbase):
      return mk('strformat', dbase, tuple(self.deref(a) for a in args), tuple(sorted((k, self.deref(v)) for k, v in kwargs.items())))
    if name in ('any', 'all') and not args and not kwargs:
      return mk('any' if name == 'any' else 'all', dbase) if dbase.op != 'const' else dbase
    if name in ('sum', 'mean', 'min', 'max', 'std', 'var', 'argmin', 'argmax', 'prod', 'argsort', 'any', 'all', 'cumsum',
                'round', 'clip', 'squeeze', 'dot', 'transpose', 'ravel', 'reshape') and (
                    c is None):
      if name not in ('reshape', 'transpose'):
        return self.pure_np('numpy.' + name, [base] + args, kwargs, node)
    pure = name in PURE_METHODS
    if pure and c is not None and c.qual.startswith(PKG):
      pure = name in ('first', 'last', 'mid')
    if dbase.op == 'glob' and dbase.args[0].split('.')[0] in ('numpy', 'jax'):
      pure = pure and name not in RNG_METHODS
    return self.opaque_call(None, name, *self.leading(name, args, kwargs), node, pure=pure, recv=base)

  def leading(self, name, args, kwargs):
    """Keywords that name the next positional parameters, where every method of that name agrees on them."""
    if not kwargs or '**' in kwargs or any(x.op == 'star' for x in args):
      return args, kwargs
    ps = self.prog.positional(name)
    if ps is None:
      return args, kwargs
    args, kwargs = list(args), dict(kwargs)
    while len(args) < len(ps) and ps[len(args)] in kwargs:
      args.append(kwargs.pop(ps[len(args)]))
    return args, kwargs

  def pure_np(self, dn, args, kwargs, node):
    return self.call_global(dn, args, kwargs, node)

  def method_args(self, m, args, kwargs):
    """Argument list of an opaque repository method in declared order."""
    a = m.node.args
    pos = [x.arg for x in a.posonlyargs + a.args][1:]
    names = pos + [x.arg for x in a.kwonlyargs]
    if any(x.op == 'star' for x in args) or '**' in kwargs or len(args) > len(pos):
      return list(args) + [mk('kw', k, self.deref(v)) for k, v in sorted(kwargs.items())]
    env = dict(zip(pos, args))
    rest = []
    for k, v in sorted(kwargs.items()):
      if k in names:
        env[k] = v
      else:
        rest.append(mk('kw', k, self.deref(v)))
    out = []
    dmap = dict(zip([x for x in pos][len(pos) - len(a.defaults):] if a.defaults else [], a.defaults))
    dmap.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    for p in names:
      if p in env:
        out.append(env[p])
      elif p in dmap:
        out.append(self.const_eval(m.mod, dmap[p], f'{m.qual}.<default {p}>'))
      else:
        out.append(UNDEF)
    return out + rest

  def overridden(self, c, name):
    m = self.prog.lookup(c, name)
    if m is not None and all(isinstance(x, ast.Pass) or isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant) for x in m.node.body):
      return True  # an empty hook: made to be overridden, here or by a user of the library
    return any(name in s.methods for s in self.prog.subclasses(c.qual))

  def mutator(self, base, name, args, kwargs, node):
    """Container mutation on a Python list/dict/set (or array) location."""
    cur = self.heap.get((base, '[]'))
    known = cur is not None
    if cur is None:
      cur = self.initial(base)
    cc = cur
    if name == 'add' and not (cc.op in ('set', 'setof') or known):
      return False
    if name in ('update', 'remove', 'pop', 'add', 'partition', 'resize', 'put', 'insert', 'sort') and not known and self.cls_of(base) is not None:
      return False
    if name in ('update', 'add', 'put', 'resize', 'insert', 'remove') and not known and node is not self._discard:
      return False  # its value is used: not a container method
    if base.op == 'glob' and name in ('partition', 'sort', 'put', 'resize', 'insert', 'append', 'update', 'add'):
      return False
    self._mut_result = NONE
    args_d = [self.deref(a) if a.op != 'ref' else a for a in args]
    if name in ('append', 'appendleft') and len(args) == 1:
      new = self.concat([cc, mk('list', args[0])]) if name == 'append' else self.concat([mk('list', args[0]), cc])
    elif name == 'extend' and len(args) == 1:
      new = self.concat([cc, self.deref(args[0])])
    elif name == 'insert' and len(args) == 2:
      new = self.concat([mk('list', args[1]), cc]) if args[0] is ZERO else mk('linsert', cc, self.deref(args[0]), args[1])
    elif name == 'clear':
      new = mk('dict') if cc.op in ('dict', 'dset', 'dupdate') else mk('list')
    elif name == 'update' and (args or kwargs):
      new = cc
      was = (lambda v: before(self.closed(v), base)) if base.op != 'ref' and cc.op == 'init' else self.deref
      if args:
        new = self.dict_update(new, was(args[0]))
      for k, v in kwargs.items():
        new = self.dict_set(new, const(k), was(v))
    elif name == 'add' and len(args) == 1:
      new = mk('setadd', cc, args_d[0])
    elif name == 'sort':
      new = mk('sorted', cc, tuple(sorted((k, self.closed(v)) for k, v in kwargs.items())))
    elif name == 'pop':
      if cc.op == 'list' and cc.args and (not args or T.is_num(args_d[0])):
        i = T.cval(args_d[0]) if args else -1
        self._mut_result = cc.args[i] if -len(cc.args) <= i < len(cc.args) else UNDEF
        l = list(cc.args)
        if -len(l) <= i < len(l):
          del l[i]
        new = mk('list', *l)
      elif cc.op == 'dict' and args and any(k is args_d[0] for k, _ in cc.args):
        self._mut_result = next(v for k, v in cc.args if k is args_d[0])
        new = mk('dict', *[(k, v) for k, v in cc.args if k is not args_d[0]])
      else:
        self._mut_result = mk('popped', cc, tuple(args_d))
        new = mk('popd', cc, tuple(args_d))
    elif name == 'setdefault' and len(args) >= 1:
      k = self.deref(args[0])
      v = args[1] if len(args) > 1 else NONE
      if cc.op == 'dict' and any(a is k for a, _ in cc.args):
        self._mut_result = next(b for a, b in cc.args if a is k)
        new = cc
      else:
        has = mk('in', k, cc)
        self._mut_result = T.phi(has, item_t(cc, k), v)
        new = T.phi(has, cc, self.dict_set(cc, k, v)) if cc.op != 'dict' or cc.args else self.dict_set(cc, k, v)
    else:
      new = mk('mutated', cc, name, tuple(args_d), tuple(sorted((k, self.deref(v)) for k, v in kwargs.items())))
    self.emit('mutate', node, base=base, how=name, args=tuple(self.deref(a) for a in args), fresh=base.op == 'ref')
    self.heap[(base, '[]')] = new
    return True

  # globals ---------------------------------------------------------------
  def call_global(self, name, args, kwargs, node):
    p = self.prog
    if p.newtype_of(name):
      if args:
        self.emit('cast', node, alias=name, value=self.deref(args[0]))
      return args[0] if args else UNDEF
    if name in p.overrides:
      return self.call_func(p.overrides[name], args, kwargs, node)
    if name in p.classes:
      return self.construct(p.classes[name], args, kwargs, node)
    if name in p.funcs:
      return self.call_func(p.funcs[name], args, kwargs, node)
    mn, _, nm = name.rpartition('.')
    c = p.classes.get(mn)
    if c is not None:
      m = p.lookup(c, nm)
      if m is not None:
        if m.is_classmethod:
          return self.call_func(m, [glob(mn)] + args, kwargs, node)
        return self.call_func(m, args, kwargs, node)
    h = getattr(self, 'g_' + name.replace('.', '_'), None)
    if h is not None:
      r = h(args, kwargs, node)
      if r is not None:
        return r
    dargs = [self.deref(a) for a in args]
    if name == 'numpy.asarray' and dargs and dargs[0].op in ('list', 'tuple', 'mapl', 'mapf', 'mapa'):
      name = 'numpy.array'  # nothing else holds the elements
    if name in ('numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.full'):
      for v in dargs[:1] or [self.deref(kwargs[k]) for k in ('shape',) if k in kwargs]:
        if v.op in ('tuple', 'list') and len(v.args) == 1 and v.args[0].op != 'star':
          if args:
            args = [v.args[0], *args[1:]]
          else:
            kwargs = {**kwargs, 'shape': v.args[0]}
    if name in ARITH and not [k for k in kwargs if k not in ()]:
      try:
        return ARITH[name](*dargs)
      except TypeError:
        pass
    last = name.split('.')[-1]
    if name in ('dict', 'collections.OrderedDict') and not args:
      return self.new_ref(mk('dict', *[(const(k), v) for k, v in kwargs.items()]))
    if name.startswith('absl.logging') or name == 'print' or name.startswith('logging.') or name.startswith('warnings.'):
      self.emit('log', node, args=tuple(self.deref(a) for a in args))
      return NONE
    builtin = '.' not in name
    pure = builtin and name not in ('open', 'input', 'next', 'id', 'hash', 'exec', 'eval', 'setattr', 'iter')
    if not builtin:
      pure = name.startswith(PURE_PREFIX) and not name.startswith(IMPURE_EXT)
      if name.startswith('scipy.stats'):
        pure = last in ('pdf', 'logpdf', 'cdf', 'mode', 'zscore', 'sem')
      if name.startswith(('tensorflow.io', 'tensorflow.saved_model', 'tensorflow.data')):
        pure = False
      if name.startswith('jax.random'):
        pure = True
    fresh = name in ALLOC
    t = self.opaque_call(glob(name), None, args, kwargs, node, pure=pure)
    if name in ('numpy.array', 'numpy.copy', 'copy.copy', 'copy.deepcopy') or fresh:
      return self.new_ref(t)
    return t

  def construct(self, c, args, kwargs, node):
    init = self.prog.lookup(c, '__init__')
    if c.is_enum:
      return call_t(glob(c.qual), [self.deref(a) for a in args])
    if c.is_dataclass and init is None or (init is None and self.prog.all_fields(c) and any(
        k.is_dataclass for k in self.prog.mro(c))):
      fields = self.prog.all_fields(c)
      f = {}
      for n, v in zip(fields, args):
        f[n] = v
      for k, v in kwargs.items():
        f[k] = v
      for n, (ann, d, k) in fields.items():
        if n not in f:
          if d is not None:
            f[n] = self.field_default(k, n, d)
          elif not c.is_typeddict:
            f[n] = item_t(kwargs['**'], const(n)) if '**' in kwargs else UNDEF
      f.pop('**', None)
      t = mk('new', c.qual, tuple(sorted((k, v) for k, v in f.items())))
      more = {'now': {k: self.deref_new(v, 0) for k, v in f.items() if isinstance(v, T.Term)}} if c.qual in self.snap_new else {}
      self.emit('new', node, cls=c, fields=f, result=t, stack=tuple(self.stack), **more)
      return t
    self.nobj += 1
    o = mk('obj', c.qual, self.nobj)
    self.emit('new', node, cls=c, fields={}, result=o, args=tuple(args), kwargs=dict(kwargs), stack=tuple(self.stack))
    if init is not None and not self.no_inline(init) and len(self.stack) < self.max_depth and init not in self.stack:
      self.call_func(init, [o] + args, kwargs, node)
      if not self.alive:
        return o
    else:
      for i, a in enumerate(args):
        self.heap[(o, f'arg{i}')] = a
      for k, v in kwargs.items():
        self.heap[(o, f'kw_{k}')] = v
    return o

  def field_default(self, cls, n, d):
    if isinstance(d, ast.Call) and (cls.mod.resolve_name(dotted(d.func) or '') or '').endswith('field'):
      for k in d.keywords:
        if k.arg == 'default':
          return self.const_eval(cls.mod, k.value, f'{cls.qual}.{n}')
        if k.arg == 'default_factory':
          self.quiet += 1
          pseudo = Func.__new__(Func)
          pseudo.mod, pseudo.node, pseudo.qual, pseudo.cls, pseudo.name = cls.mod, d, cls.qual, None, n
          self.frames.append(Frame(pseudo, {}, cls.mod, None))
          try:
            r = self.apply(self.ev(k.value), [], {}, d)
          finally:
            self.frames.pop()
            self.quiet -= 1
          return r
    return self.const_eval(cls.mod, d, f'{cls.qual}.{n}')

  def replace(self, obj, kwargs):
    kw = {k: v for k, v in kwargs.items()}
    if obj.op == 'phi':
      return T.phi(obj.args[0], self.replace(obj.args[1], kwargs), self.replace(obj.args[2], kwargs))
    if obj.op == 'new':
      f = dict(obj.args[1])
      f.update(kw)
      return mk('new', obj.args[0], tuple(sorted(f.items())))
    c = self.cls_of(obj)
    if c is not None:
      f = {n: self.get_attr(obj, n) for n in self.prog.all_fields(c)}
      f.update(kw)
      return mk('new', c.qual, tuple(sorted(f.items())))
    return mk('replace', obj, tuple(sorted((k, self.deref(v)) for k, v in kw.items())))

  # builtin handlers ------------------------------------------------------
  def g_dataclasses_asdict(self, args, kwargs, node):
    c = self.cls_of(args[0]) if len(args) == 1 and not kwargs else None
    if c is None or not c.is_dataclass:
      return None
    vals = {n: self.get_attr(args[0], n) for n in self.prog.all_fields(c)}
    if any((k := self.cls_of(v)) is not None and k.is_dataclass for v in vals.values()):
      return None
    return self.new_ref(mk('dict', *[(const(n), self.deref(v)) for n, v in vals.items()]))

  def g_dataclasses_replace(self, args, kwargs, node):
    return self.replace(args[0] if args[0].op != 'ref' else self.deref(args[0]), kwargs)

  def g_typing_cast(self, args, kwargs, node):
    ty = None
    if args[0].op == 'glob':
      ty = self.prog.named_type(args[0].args[0])
    if ty and self.typeof(args[1]) is None:
      self.set_type(args[1], ty)
    elif ty and ty[0] == 'cls' and args[1].op not in ('new', 'obj') and args[1] not in self.exact:
      old = self.cls_of(args[1])
      if old is not None and self.prog.is_subclass(ty[1], old.qual) and old is not ty[1]:
        self.set_type(args[1], ty)
    return args[1]

  def g_datetime_timedelta(self, args, kwargs, node):
    t = ZERO
    for n, a in list(zip(TD_ORDER, args)) + list(kwargs.items()):
      if n not in UNIT:
        return None
      t = T.add(t, T.mul(self.deref(a), T.mul(const(UNIT[n]), SEC)))
    return t

  def g_functools_partial(self, args, kwargs, node):
    return mk('partial', args[0], tuple(args[1:]), tuple(sorted(kwargs.items())))

  def g_jax_jit(self, args, kwargs, node):
    return args[0] if args else None

  def g_len(self, args, kwargs, node):
    d = self.deref(args[0])
    c = self.cls_of(args[0])
    if c is not None and self.prog.lookup(c, '__len__'):
      return self.call_method(args[0], '__len__', [], {}, node)
    return len_t(d)

  def g_enumerate(self, args, kwargs, node):
    st = args[1] if len(args) > 1 else kwargs.get('start', ZERO)
    return mk('enumerate', args[0], self.deref(st))

  def g_zip(self, args, kwargs, node):
    return mk('zip', *args)

  def g_range(self, args, kwargs, node):
    d = [self.deref(a) for a in args]
    if len(d) >= 2 and d[0] is ZERO and (len(d) == 2 or d[2] is ONE):
      d = [d[1]]
    return call_t('range', d)

  def g_isinstance(self, args, kwargs, node):
    x, k = args
    ks = list(k.args) if k.op in ('tuple', 'list') else [k]
    res = [self.isinst(x, kk) for kk in ks]
    return T.or_(*res)

  def isinst(self, x, k):
    if k.op != 'glob':
      return mk('isinstance', self.deref(x), k)
    kn = k.args[0]
    kn = self.prog.class_alias.get(kn, kn)
    nt = self.prog.named_type(kn)
    ty = self.typeof(x)
    if x.op == 'phi':
      a, b = self.isinst(x.args[1], k), self.isinst(x.args[2], k)
      return T.truth(T.phi(x.args[0], a, b))
    if T.is_const(x):
      if x is NONE:
        return FALSE
    if nt[0] == 'cls' and ty and ty[0] == 'cls':
      if self.prog.is_subclass(ty[1], nt[1].qual):
        return TRUE
      if x in self.exact or x.op in ('new', 'obj'):
        return FALSE
      # unrelated repository classes without a common subclass
      a, b = ty[1], nt[1]
      if not self.prog.is_subclass(b, a.qual):
        sa = {c.qual for c in self.prog.subclasses(a.qual)}
        sb = {c.qual for c in self.prog.subclasses(b.qual)}
        if not sa & sb:
          return FALSE
    if ty and ty[0] in ('cls', 'ext') and nt[0] in ('cls', 'ext') and ty[0] != nt[0]:
      c, e = (ty[1], nt[1]) if ty[0] == 'cls' else (nt[1], ty[1])
      if ('.' in e or e in CONCRETE) and e not in ('typing.Any',) and not any(
          self.prog.is_subclass(k, e) for k in [c] + self.prog.subclasses(c.qual)):
        return FALSE
    if ty and ty[0] == 'ext' and nt[0] == 'ext' and ty[1] in CONCRETE and nt[1] in CONCRETE:
      return TRUE if ty[1] == nt[1] else FALSE
    if ty and x in self.exact:
      if ty[0] == 'ext' and nt[0] == 'ext':
        return TRUE if ty[1] == nt[1] else FALSE
      if ty[0] != nt[0]:
        return FALSE
    return mk('isinstance', self.deref(x), k)

  def g_issubclass(self, args, kwargs, node):
    x, k = args
    if x.op == 'glob' and k.op == 'glob' and x.args[0] in self.prog.classes:
      return TRUE if self.prog.is_subclass(self.prog.classes[x.args[0]], k.args[0]) else FALSE
    return mk('issubclass', self.deref(x), k)

  def g_sum(self, args, kwargs, node):
    d = self.deref(args[0])
    st = args[1] if len(args) > 1 else kwargs.get('start', ZERO)
    return self.sum_seq(d, self.deref(st))

  def sum_seq(self, d, st):
    if d.op in ('list', 'tuple') and not any(a.op == 'star' for a in d.args):
      for a in d.args:
        st = T.add(st, a)
      return st
    num = lambda x: T.phi(x, ONE, ZERO) if self.is_bool(x) else x
    if d.op == 'mapl':
      return T.add(st, sum_t(d.args[0], d.args[1], num(d.args[2])))
    if d.op == 'mapf':
      return T.add(st, sum_t(d.args[0], d.args[1], T.phi(d.args[3], num(d.args[2]), ZERO)))
    if d.op == 'concat':
      for p in d.args:
        st = self.sum_seq(p, st)
      return st
    if d.op == 'seqcopy':
      d = d.args[0]
    h = binder_height(d) + 1
    return T.add(st, sum_t(h, len_t(d), item_t(d, mk('bv', h))))

  def g_list(self, args, kwargs, node):
    if not args:
      return self.new_ref(mk('list'))
    known = self.known_elements(args[0])
    if known is not None:
      return self.new_ref(mk('list', *known))
    if args[0].op in ('zip', 'enumerate') or (args[0].op == 'call' and args[0].args[0] is glob('range')):
      return self.new_ref(self.map_iter(args[0]))
    d = self.deref(args[0])
    if d.op in ('list', 'tuple'):
      return self.new_ref(mk('list', *d.args))
    if d.op in ('mapl', 'mapf', 'flatmap', 'concat', 'seqcopy'):
      return self.new_ref(d)
    return self.new_ref(mk('seqcopy', d))

  def map_iter(self, it):
    self.nloop += 1
    uid = self.nloop
    l, e = self.iter_elem(it, mk('ix', uid))
    return self.close_list(uid, l, mk('list', e))

  def g_tuple(self, args, kwargs, node):
    if not args:
      return mk('tuple')
    known = self.known_elements(args[0])
    if known is not None:
      return mk('tuple', *known)
    d = self.deref(args[0])
    if d.op in ('list', 'tuple'):
      return mk('tuple', *d.args)
    if d.op in ('mapl', 'mapf', 'flatmap', 'concat', 'seqcopy'):
      return d
    return mk('seqcopy', d)

  def g_set(self, args, kwargs, node):
    if not args:
      return self.new_ref(mk('set'))
    d = self.deref(args[0])
    return self.new_ref(mk('setof', d))

  def g_frozenset(self, args, kwargs, node):
    return mk('setof', self.deref(args[0])) if args else mk('set')

  def g_dict(self, args, kwargs, node):
    if args:
      d = self.deref(args[0])
      if d.op != 'dict':
        d = dict_of_pairs(self, d) if d.op in ('mapl', 'list', 'mapf') else mk('seqcopy', d)
      for k, v in kwargs.items():
        d = self.dict_set(d, const(k), v)
      return self.new_ref(d)
    return None

  def g_map(self, args, kwargs, node):
    if len(args) == 2:
      known = self.known_elements(args[1])
      if known is not None:
        return mk('list', *[self.apply(args[0], [k], {}, node) for k in known])
      self.nloop += 1
      uid = self.nloop
      l, e = self.iter_elem(args[1], mk('ix', uid))
      li = LoopInfo(uid, node, self.fr.func, 'for')
      li.length, li.iter = l, self.deref(args[1])
      self.loops[uid] = li
      self.ctx.append(('loop', uid, l))
      b = self.deref(self.apply(args[0], [e], {}, node))
      self.ctx.pop()
      return self.close_list(uid, l, mk('list', b))
    return None

  def g_getattr(self, args, kwargs, node):
    nm = self.deref(args[1])
    if nm.op == 'const' and isinstance(nm.args[0], str):
      base = args[0]
      c = self.cls_of(base)
      if c is not None:
        m = self.prog.lookup(c, nm.args[0])
        if m is not None and not m.is_property:
          return mk('bound', base, nm.args[0])
      if len(args) > 2:
        return mk('getattr', self.deref(base), nm, self.deref(args[2]))
      return mk('bound', base, nm.args[0]) if c is not None and (base, nm.args[0]) not in self.heap and self.attr_type(c, nm.args[0]) is None and self.prog.lookup(c, nm.args[0]) else self.get_attr(base, nm.args[0], node)
    return None

  def g_setattr(self, args, kwargs, node):
    nm = self.deref(args[1])
    if nm.op == 'const':
      self.set_attr(args[0], nm.args[0], args[2], node)
      return NONE
    return None

  def g_hasattr(self, args, kwargs, node):
    return mk('hasattr', self.deref(args[0]), self.deref(args[1]))

  def g_bool(self, args, kwargs, node):
    return T.truth(self.deref(args[0])) if args else FALSE

  def g_float(self, args, kwargs, node):
    if args:
      d = self.deref(args[0])
      if T.is_num(d) or d.op in ('poly', 'sum'):
        return d
      ty = self.typeof(d)
      if ty is not None and ty[0] == 'ext' and ty[1].split('.')[-1] in ('float', 'int'):
        return d
      if d.op == 'call' and d.args[0].op == 'glob' and d.args[0].args[0] in ('numpy.mean', 'numpy.sum', 'numpy.median', 'len'):
        return d
    return None

  def g_int(self, args, kwargs, node):
    if len(args) == 1 and not kwargs:
      d = self.deref(args[0])
      if self.is_bool(d):
        return T.phi(d, ONE, ZERO)
      if T.is_num(d) and d.args[0].denominator == 1:
        return d
      if d.op == 'call' and d.args[0] is glob('len'):
        return d
    return None

  def is_bool(self, d):
    if d.op in ('eq', 'lt0', 'is', 'and', 'not', 'in', 'any', 'all'):
      return True
    if d.op == 'const' and isinstance(d.args[0], bool):
      return True
    ty = self.typeof(d)
    return ty is not None and ty[0] == 'ext' and ty[1] in ('bool', 'builtins.bool')

  def g_min(self, args, kwargs, node):
    if len(args) >= 2 and not kwargs:
      return call_t('min', sorted(set(self.deref(a) for a in args)))
    return None

  def g_max(self, args, kwargs, node):
    if len(args) >= 2 and not kwargs:
      return max_t(set(self.deref(a) for a in args))
    return None

  def scalar_seq(self, d):
    if d.op not in ('mapl', 'mapf', 'list'):
      return False
    xs = d.args if d.op == 'list' else (d.args[2],)
    for x in xs:
      ty = self.typeof(x)
      if not (T.is_num(x) or self.is_bool(x) or (ty and ty[0] == 'ext' and ty[1].split('.')[-1] in ('int', 'float', 'bool'))):
        return False
    return True

  def g_numpy_sum(self, args, kwargs, node):
    if len(args) == 1 and not kwargs:
      d = self.deref(args[0])
      if self.scalar_seq(d):
        return self.sum_seq(d, ZERO)
    return None

  def g_numpy_mean(self, args, kwargs, node):
    if len(args) == 1 and not kwargs:
      d = self.deref(args[0])
      if self.scalar_seq(d):
        return T.mul(self.sum_seq(d, ZERO), T.power(len_t(d), const(-1)))
    return None

  def g_any(self, args, kwargs, node):
    d = self.deref(args[0])
    if d.op in ('list', 'tuple'):
      return T.or_(*d.args)
    return mk('any', d)

  def g_all(self, args, kwargs, node):
    d = self.deref(args[0])
    if d.op in ('list', 'tuple'):
      return T.and_(*d.args)
    return mk('all', d)

  def g_numpy_any(self, args, kwargs, node):
    if len(args) == 1 and not kwargs:
      return mk('any', self.deref(args[0]))
    return None

  def g_numpy_all(self, args, kwargs, node):
    if len(args) == 1 and not kwargs:
      return mk('all', self.deref(args[0]))
    return None

  def g_numpy_reshape(self, args, kwargs, node):
    if len(args) == 2 and not kwargs:
      return self.call_method(args[0], 'reshape', [args[1]], {}, node)
    return None

  def g_numpy_transpose(self, args, kwargs, node):
    if len(args) == 1 and not kwargs:
      return mk('attr', self.deref(args[0]), 'T')
    return None

  def g_numpy_asarray(self, args, kwargs, node):
    """asarray aliases its argument: kept as a transparent wrapper."""
    if len(args) == 1 and not kwargs and args[0].op == 'ref':
      return None
    return None

  # ------------------------------------------------------------ statements
  def block(self, stmts):
    for s in stmts:
      if not self.alive:
        return
      m = getattr(self, 's_' + type(s).__name__, None)
      if m is None:
        self.unsupported.append(type(s).__name__)
        continue
      m(s)

  def s_Expr(self, s):
    if isinstance(s.value, ast.Constant):
      return
    self._discard = s.value
    self.ev(s.value)

  def s_Pass(self, s):
    pass

  def s_Import(self, s):
    for a in s.names:
      self.fr.env[a.asname or a.name.split('.')[0]] = glob(self.prog.canon(a.name if a.asname else a.name.split('.')[0]))

  def s_ImportFrom(self, s):
    for a in s.names:
      self.fr.env[a.asname or a.name] = self.global_value(self.prog.canon(f'{s.module}.{a.name}'))

  def s_Global(self, s):
    self.fr.globals.update(s.names)

  def s_Nonlocal(self, s):
    pass

  def s_FunctionDef(self, s):
    t = self.make_closure(s, s.name)
    decs = [self.fr.mod.resolve_name(dotted(d.func if isinstance(d, ast.Call) else d) or '') for d in s.decorator_list]
    self.fr.env[s.name] = t
    for d, node in reversed(list(zip(decs, s.decorator_list))):
      if d == 'functools.partial' and node.args and self.fr.mod.resolve_name(dotted(node.args[0]) or '') not in ('jax.jit', 'tensorflow.function', 'functools.wraps'):
        d = 'partial'
      if d in ('jax.jit', 'functools.partial', 'functools.wraps', 'functools.lru_cache', 'functools.cache', 'tensorflow.function', 'staticmethod', 'nn.compact') or d is None:
        continue
      fn = self.ev(node)
      self.fr.env[s.name] = self.apply(fn, [self.fr.env[s.name]], {}, node)

  s_AsyncFunctionDef = s_FunctionDef

  def s_ClassDef(self, s):
    self.fr.env[s.name] = mk('localclass', s.name)

  def s_Return(self, s):
    v = self.ev(s.value) if s.value is not None else NONE
    if not self.alive:
      return
    self.emit('return', s, value=self.deref(v))
    self.fr.returns.append((tuple(self.ctx), v, dict(self.heap), dict(self.ver)))
    self.alive = False

  def s_Raise(self, s):
    v = self.val(s.exc) if s.exc is not None else mk('reraise')
    self.emit('raise', s, exc=v, cause=self.val(s.cause) if s.cause else None)
    self.fr.raises.append(tuple(self.ctx))
    self.alive = False

  def s_Assert(self, s):
    c = T.truth(self.val(s.test))
    self.emit('assert', s, cond=c)
    if c is not TRUE:
      self.ctx.append(('if', c, True, 'assert'))

  def s_Delete(self, s):
    for t in s.targets:
      if isinstance(t, ast.Name):
        self.fr.env.pop(t.id, None)
      elif isinstance(t, ast.Subscript):
        b = self.ev(t.value)
        i = self.ev_index(t.slice)
        cur = self.heap.get((b, '[]'), mk('init', b))
        self.emit('mutate', s, base=b, how='del', args=(i,), fresh=b.op == 'ref')
        if cur.op == 'dict':
          self.heap[(b, '[]')] = mk('dict', *[(k, v) for k, v in cur.args if k is not i])
        else:
          self.heap[(b, '[]')] = mk('deleted', cur, i)
      elif isinstance(t, ast.Attribute):
        b = self.val(t.value)
        self.emit('delattr', s, base=b, attr=t.attr)
        self.heap.pop((b, t.attr), None)

  def s_Assign(self, s):
    v = self.ev(s.value)
    if not self.alive:
      return
    for t in s.targets:
      self.assign(t, v, s)

  def s_AnnAssign(self, s):
    if s.value is not None:
      v = self.ev(s.value)
      ty = self.prog.ann_type(self.fr.mod, s.annotation)
      if ty and self.typeof(v) is None and v.op not in ('const', 'poly', 'tuple', 'list'):
        self.set_type(v, ty)
      self.assign(s.target, v, s)

  def s_AugAssign(self, s):
    t = s.target
    if isinstance(t, ast.Name):
      loc = self.lookup_name(t.id)
    elif isinstance(t, ast.Attribute):
      base = self.ev(t.value)
      loc = self.get_attr(base, t.attr, s)
    else:
      base = self.ev(t.value)
      idx = self.ev_index(t.slice)
      loc = self.item(base, idx)
    r = self.ev(s.value)
    cur = self.deref(loc)
    rd = self.deref(r)
    if isinstance(s.op, ast.Add) and is_seq(cur) and loc.op == 'ref':
      self.emit('mutate', s, base=loc, how='extend', args=(rd,), fresh=True)
      self.heap[(loc, '[]')] = self.concat([cur, rd])
      return
    if isinstance(s.op, ast.BitOr) and loc.op == 'ref' and cur.op in ('dict', 'dset', 'dupdate', 'dictmap'):
      self.heap[(loc, '[]')] = self.dict_update(cur, rd)
      return
    self.emit('inplace', s, base=loc, op=type(s.op).__name__, value=rd,
              tgt=('name' if isinstance(t, ast.Name) else 'attr' if isinstance(t, ast.Attribute) else 'item'))
    new = self.binop(s.op, cur, rd, s)
    if isinstance(t, ast.Name):
      if loc.op == 'ref' and not is_seq(cur) and cur.op not in ('dict', 'const'):
        self.heap[(loc, '[]')] = self.deref(new)
      else:
        self.fr.env[t.id] = new
    elif isinstance(t, ast.Attribute):
      if loc.op == 'ref' and not is_seq(cur) and cur.op not in ('dict', 'const'):
        self.heap[(loc, '[]')] = self.deref(new)
        self.emit('setattr', s, base=base, attr=t.attr, value=self.deref(new), aug=True)
      else:
        self.set_attr(base, t.attr, new, s, aug=True)
    else:
      self.set_item(base, idx, new, s, aug=True)

  def set_attr(self, base, attr, v, node, aug=False):
    c = self.cls_of(base)
    if c is not None:
      for k in self.prog.mro(c):
        if attr in k.setters:
          self.call_func(k.setters[attr], [base, v], {}, node)
          return
    self.emit('setattr', node, base=base, attr=attr, value=self.deref(v), aug=aug)
    self.heap[(base, attr)] = v

  def initial(self, base):
    if base.op == 'phi':
      return T.phi(base.args[0], self.initial(base.args[1]), self.initial(base.args[2]))
    return self.deref(base) if base.op == 'ref' else mk('init', base)

  def set_item(self, base, idx, v, node, aug=False):
    cur = self.heap.get((base, '[]'))
    cur = self.initial(base) if cur is None else cur
    self.emit('setitem', node, base=base, idx=idx, value=self.deref(v), fresh=base.op == 'ref', aug=aug)
    if cur.op in ('dict', 'dset', 'dupdate', 'dictmap') or (cur.op == 'mu' and cur in self._dict_mus()):
      self.heap[(base, '[]')] = self.dict_set(cur, idx, v)
    elif cur.op == 'list' and T.is_num(idx) and isinstance(T.cval(idx), int) and -len(cur.args) <= T.cval(idx) < len(cur.args):
      l = list(cur.args)
      l[T.cval(idx)] = v
      self.heap[(base, '[]')] = mk('list', *l)
    elif cur.op == 'new':
      if idx.op == 'const':
        f = dict(cur.args[1])
        f[T.cval(idx)] = v
        self.heap[(base, '[]')] = mk('new', cur.args[0], tuple(sorted(f.items())))
    else:
      v = self.deref(v)
      if base.op != 'ref' and cur.op == 'init':
        v = before(v, base)
      self.heap[(base, '[]')] = mk('store', self.deref(cur) if cur.op != 'init' else cur, idx, v)

  def _dict_mus(self):
    return self._dmus if hasattr(self, '_dmus') else set()

  def assign(self, t, v, node):
    if isinstance(t, ast.Name):
      if t.id in self.fr.globals:
        self.emit('setglobal', node, name=t.id, value=v)
      self.fr.env[t.id] = v
    elif isinstance(t, (ast.Tuple, ast.List)):
      vd = v if v.op in ('tuple', 'list') else self.heap.get((v, '[]'), v)
      star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
      if star:
        i = star[0]
        nafter = len(t.elts) - i - 1
        for j in range(i):
          self.assign(t.elts[j], self.item(v, const(j)), node)
        if vd.op in ('tuple', 'list'):
          self.assign(t.elts[i].value, self.new_ref(mk('list', *vd.args[i:len(vd.args) - nafter])), node)
        else:
          self.assign(t.elts[i].value, mk('item', self.deref(v), mk('slice', const(i), const(-nafter) if nafter else NONE, NONE)), node)
        for j in range(nafter):
          self.assign(t.elts[i + 1 + j], self.item(v, const(j - nafter)), node)
        return
      if vd.op in ('tuple', 'list') and len(vd.args) == len(t.elts):
        for e, x in zip(t.elts, vd.args):
          self.assign(e, x, node)
      else:
        for i, e in enumerate(t.elts):
          self.assign(e, self.item(v, const(i)), node)
    elif isinstance(t, ast.Attribute):
      self.set_attr(self.ev(t.value), t.attr, v, node)
    elif isinstance(t, ast.Subscript):
      self.set_item(self.ev(t.value), self.ev_index(t.slice), v, node)
    elif isinstance(t, ast.Starred):
      self.assign(t.value, v, node)

  def s_If(self, s):
    c = T.truth(self.val(s.test))
    if not self.alive:
      return
    if c is TRUE:
      return self.block(s.body)
    if c is FALSE:
      return self.block(s.orelse)
    self.branch(c, lambda: self.block(s.body), lambda: self.block(s.orelse))

  def branch(self, c, fa, fb):
    s0 = self.snap()
    n = len(s0.ctx)
    x0 = self._exits()
    e0 = len(self.events)
    self.ctx.append(('if', c, True))
    fa()
    x1 = self._exits()
    la, sa = self.alive, self.snap()
    e1 = len(self.events)
    self.restore(s0)
    # when one branch only raises, the condition is a requirement on the other
    self.ctx.append(('if', c, False) if la or x1 != x0 else ('if', c, False, 'assert'))
    fb()
    x2 = self._exits()
    lb, sb = self.alive, self.snap()
    if not lb and x2 == x1:
      for e in self.events[e0:e1]:
        if len(e.ctx) > n and e.ctx[n] == ('if', c, True):
          e.ctx = e.ctx[:n] + (('if', c, True, 'assert'),) + e.ctx[n + 1:]
    if la and lb:
      self.merge_into(c, sa, sb, s0)
    elif la:
      self.restore(sa)
      if x2 == x1 and n < len(self.ctx):
        self.ctx[n] = ('if', c, True, 'assert')
    elif lb:
      self.restore(sb)
      if x1 == x0 and n < len(self.ctx):
        self.ctx[n] = ('if', c, False, 'assert')
    else:
      self.restore(s0)
      self.alive = False

  def _exits(self):
    """Normal exits recorded so far (a dead branch adding none only raises)."""
    n = len(self.fr.returns)
    for ls in self.loopstack:
      n += len(ls['breaks']) + len(ls['continues'])
    return n

  def merge_into(self, c, sa, sb, s0):
    env = {}
    for k in list(sa.env) + [k for k in sb.env if k not in sa.env]:
      a, b = sa.env.get(k, UNDEF), sb.env.get(k, UNDEF)
      if a is b:
        env[k] = a
      elif a is UNDEF or b is UNDEF:
        env[k] = T.phi(c, a, b)
      else:
        env[k] = T.phi(c, a, b)
    self.fr.env.clear()
    self.fr.env.update(env)
    self.heap = self.merge_heap(c, sa.heap, sb.heap)
    self.ver = self.merge_ver(c, sa.ver, sb.ver)
    n = len(s0.ctx)
    self.ctx = list(s0.ctx)
    # facts learnt inside both/one branch (raise guards): keep as implications
    for side, pol in ((sa, True), (sb, False)):
      for x in side.ctx[n + 1:]:
        if x[0] == 'if':
          lit = x[1] if x[2] else T.not_(x[1])
          imp = T.or_(T.not_(c) if pol else c, lit)
          if imp is not TRUE:
            self.ctx.append(('if', imp, True) + tuple(x[3:]))
    self.alive = True

  # loops -----------------------------------------------------------------
  def s_For(self, s):
    it = self.ev(s.iter)
    if not self.alive:
      return
    known = self.known_elements(it)
    if known is not None and not _has(s.body, ast.Break):
      for x in known:
        if not self.alive:
          return
        self.loopstack.append(dict(breaks=[], continues=[], base=len(self.ctx)))
        self.assign(s.target, x, s)
        self.block(s.body)
        self.join_continues()
        self.loopstack.pop()
      if self.alive:
        self.block(s.orelse)
      return
    self.run_loop(s, it, None)
    if self.alive:
      self.block(s.orelse)

  s_AsyncFor = s_For

  def s_While(self, s):
    s = self.normal_while(s)
    self.run_loop(s, None, s.test)
    if self.alive:
      self.block(s.orelse)

  def normal_while(self, s):
    """`while True: if c: break` heads and done-flags in the form the loop summary uses."""
    key = ('while', id(s))
    memo = self.__dict__.setdefault('_nwhile', {})
    if key in memo and memo[key][0] is s:
      return memo[key][1]
    out = s
    if isinstance(out.test, ast.Constant) and out.test.value and out.body and isinstance(out.body[0], ast.If) and (
        len(out.body[0].body) == 1 and isinstance(out.body[0].body[0], ast.Break)):
      i = out.body[0]
      n = ast.While(test=ast.UnaryOp(ast.Not(), i.test), body=list(i.orelse) + out.body[1:] or [ast.Pass()], orelse=out.orelse)
      out = ast.fix_missing_locations(ast.copy_location(n, s))
    conj = out.test.values if isinstance(out.test, ast.BoolOp) and isinstance(out.test.op, ast.And) else [out.test]
    for c in conj:
      neg = isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not)
      f = c.operand if neg else c
      if not isinstance(f, ast.Name):
        continue
      if self.fr.env.get(f.id) is not (FALSE if neg else TRUE):
        continue
      sets = [x for st in out.body for x in ast.walk(st) if isinstance(x, ast.Name) and x.id == f.id and isinstance(x.ctx, ast.Store)]
      last = out.body[-1]
      if len(sets) != 1 or not (isinstance(last, ast.Assign) and len(last.targets) == 1 and last.targets[0] is sets[0]):
        continue
      if any(isinstance(x, ast.Continue) for st in out.body for x in ast.walk(st)):
        continue
      loads = [x for x in ast.walk(self.fr.func.node) if isinstance(x, ast.Name) and x.id == f.id and isinstance(x.ctx, ast.Load)]
      if any(x is not f for x in loads):
        continue
      cond = last.value if neg else ast.UnaryOp(ast.Not(), last.value)
      rest = [x for x in conj if x is not c]
      test = ast.BoolOp(ast.And(), rest) if len(rest) > 1 else (rest[0] if rest else ast.Constant(True))
      brk = ast.copy_location(ast.If(test=cond, body=[ast.Break()], orelse=[]), last)
      n = ast.While(test=test, body=out.body[:-1] + [brk], orelse=out.orelse)
      out = ast.fix_missing_locations(ast.copy_location(n, s))
      break
    memo[key] = (s, out)
    return out

  def join_continues(self):
    ls = self.loopstack[-1]
    conts = ls['continues']
    if not conts:
      return
    base = ls['base']
    cur = self.snap() if self.alive else None
    for sn in reversed(conts):
      if cur is None:
        cur = sn
        continue
      c = self.path_cond(sn.ctx[base:])
      self.restore(sn)
      s0 = Snap({}, {}, {}, tuple(sn.ctx[:base]))
      self.merge_into(c, sn, cur, s0)
      cur = self.snap()
    self.restore(cur)
    self.ctx = list(cur.ctx[:base])
    self.alive = True

  def s_Continue(self, s):
    if self.loopstack:
      self.loopstack[-1]['continues'].append(self.snap())
    self.emit('continue', s)
    self.alive = False

  def s_Break(self, s):
    if self.loopstack:
      self.loopstack[-1]['breaks'].append(self.snap())
    self.emit('break', s)
    self.alive = False

  def run_loop(self, s, it, test):
    pre = self.snap()
    carried = {}      # key -> None
    ev_mark = len(self.events)
    state0 = (self.nloop, self.nref, self.ntry, self.nobj, self.nfn, dict(self.impure_counts), self.seq)
    self.nloop += 1
    uid = self.nloop
    base_counts = (self.nloop, self.nref, self.ntry, self.nobj, self.nfn, dict(self.impure_counts), self.seq)
    counter = None
    for attempt in range(7):
      final = attempt == 6
      del self.events[ev_mark:]
      (self.nloop, self.nref, self.ntry, self.nobj, self.nfn, ic, self.seq) = base_counts
      self.impure_counts = dict(ic)
      self.restore(pre)
      # header
      mus = {}
      for key in carried:
        mu = mk('mu', uid, *key_name(key))
        init = self.get_key(key)
        mus[key] = (mu, init)
        ty = self.typeof(init) if init is not UNDEF else None
        if ty is not None:
          self.set_type(mu, ty)
        self.put_key(key, mu)
        if key[0] == 'env' and init.op == 'ref' and (init, '[]') in pre.heap:
          # the variable may be another array each time: give the one it names
          # at the loop head contents of its own
          own = mk('mu', uid, *key_name(('heap', (mu, '[]'))))
          self.heap[(mu, '[]')] = own
          self.bound.add(mu)
          mus[key] = (own, self.with_heap(pre.heap, lambda: self.deref(init)))
          if mus[key][1].op in ('dict', 'dset', 'dictmap', 'dupdate'):
            self._dmus = getattr(self, '_dmus', set())
            self._dmus.add(own)
          if ty is not None:
            self.set_type(own, ty)
        if key[0] == 'heap' and key[1][1] == '[]' and init.op in ('dict', 'dset', 'dictmap', 'dupdate'):
          self._dmus = getattr(self, '_dmus', set())
          self._dmus.add(mu)
      li = LoopInfo(uid, s, self.fr.func, 'for' if test is None else 'while')
      self.loops[uid] = li
      ix = mk('ix', uid)
      cond = None
      mark = self.nref
      if counter is not None:
        key, c0, n_t = counter
        self.put_key(key, T.add(c0, ix))
        length = T.sub(n_t, c0)
        li.kind, li.length, li.iter = 'for', length, call_t('range', [n_t] if c0 is ZERO else [c0, n_t])
        self.ctx.append(('loop', uid, length))
      elif test is None:
        length, elem = self.iter_elem(it, ix)
        li.length, li.iter = length, self.deref(it)
        self.ctx.append(('loop', uid, length))
      else:
        self.ctx.append(('loop', uid, mk('while', uid)))
        cond = T.truth(self.val(test))
        li.cond = cond
        if cond is not TRUE:
          self.ctx.append(('if', cond, True))
      base = len(self.ctx)
      self.loopstack.append(dict(breaks=[], continues=[], base=base))
      self.emit('loop', s, uid=uid, info=li)
      if test is None:
        self.assign(s.target, elem, s)
      header_env, header_heap = dict(self.fr.env), dict(self.heap)
      body = s.body
      self.block(body)
      self.join_continues()
      ls = self.loopstack.pop()
      li.has_break = bool(ls['breaks'])
      li.break_conds = [self.path_cond(b.ctx[base:]) for b in ls['breaks']]
      ends = {}
      end_states = ([self.snap()] if self.alive else []) + ls['breaks']
      # find new carried keys
      newkeys = []
      for st in end_states:
        for k, v in st.heap.items():
          if k[0].op == 'ref' and k[0].args[0] > mark or k[0] in self.bound and k[0].args[0] == uid:
            continue
          hv = header_heap.get(k)
          if hv is not v and ('heap', k) not in carried:
            newkeys.append(('heap', k))
        for k, v in st.env.items():
          hv = header_env.get(k)
          if hv is not v and ('env', k) not in carried and k in pre.env and not (counter and counter[0] == ('env', k)):
            newkeys.append(('env', k))
      newkeys = [k for i, k in enumerate(newkeys) if k not in newkeys[:i]]
      if newkeys and not final:
        for k in newkeys:
          carried[k] = None
        continue
      # while-counter normalisation
      if test is not None and counter is None and cond is not None and self.alive and not final:
        cnt = self.find_counter(cond, mus, ls)
        if cnt is not None:
          counter = cnt
          carried.pop(cnt[0], None)
          continue
      break
    alive_end = self.alive
    endsnap = self.snap() if alive_end else None
    breaks = ls['breaks']
    li.carried = {}
    for key, (mu, init) in mus.items():
      e = self.get_key(key) if alive_end else None
      li.carried[key] = (mu, init, e)
    # versions mutated in the loop: mark as loop-dependent
    li.exits = []
    for b in breaks:
      c = self.path_cond(b.ctx[base:])
      if li.cond is not None and len(li.carried) == len(mus):
        at = {mu: self.with_heap(b.heap, lambda b=b, key=key: self.deref_new(endsnap_get(b, key, self), mark)) for key, (mu, _) in mus.items()}
        if excludes(self.deref(c), T.subst(self.deref(li.cond), lambda x: at.get(x))):
          continue
      li.exits.append(c)
    post_ver = {}
    for k in list(self.ver) + [k for k in pre.ver if k not in self.ver]:
      a, b = pre.ver.get(k, NONE), self.ver.get(k, NONE)
      post_ver[k] = a if a is b else mk('vl', a, b)
    # locals first assigned inside the loop
    fresh_locals = {}
    if alive_end:
      for k, v in endsnap.env.items():
        if k not in pre.env:
          fresh_locals[k] = v
    mark_env = endsnap.env if alive_end else (breaks[-1].env if breaks else {})
    finals = {}
    dom = self.loop_dom(uid, li, counter, mus, mark)
    for key, (mu, init) in mus.items():
      vals = []
      if alive_end:
        vals.append(self.deref_new(endsnap_get(endsnap, key, self), mark))
      bvals = [self.with_heap(b.heap, lambda b=b, key=key: self.deref_new(endsnap_get(b, key, self), mark)) for b in breaks]
      finals[key] = self.close_key(uid, dom, mu, init, vals, bvals, li, mus, mark, endsnap)
    self.restore(pre)
    self.ver = post_ver
    for k, v in fresh_locals.items():
      vv = self.deref_new_snap(v, mark, endsnap)
      self.fr.env[k] = self.close_last(uid, dom, vv, UNDEF, mus)
    for key, v in finals.items():
      self.put_key(key, v)
    if counter is not None:
      self.put_key(counter[0], counter[2] if not breaks else mk('unknown', 'counter', uid))
    if test is not None and counter is None and not breaks and li.cond is not None and li.cond is not TRUE:
      pass
    self.alive = True
    if test is not None and li.cond is TRUE and not breaks:
      self.alive = False

  def with_heap(self, heap, f):
    old, self.heap = self.heap, heap
    try:
      return f()
    finally:
      self.heap = old

  def deref_new_snap(self, v, mark, snap):
    return self.with_heap(snap.heap, lambda: self.deref_new(v, mark))

  def find_counter(self, cond, mus, ls):
    if cond.op != 'lt0':
      return None
    p = cond.args[0]
    for key, (mu, init) in mus.items():
      if init is UNDEF or not T.contains_term(p, mu):
        continue
      rest = T.sub(p, mu)
      if any(T.contains_term(rest, m) for m, _ in mus.values()):
        continue
      e = self.get_key(key)
      if T.sub(e, mu) is ONE:
        conts = ls['continues']
        if any(T.sub(endsnap_get(c, key, self), mu) is not ONE for c in conts):
          continue
        return key, init, T.neg(rest)
    return None

  def loop_dom(self, uid, li, counter, mus, mark):
    if li.length is not None:
      d = li.length
    else:
      c = li.cond
      d = mk('whiled', uid_free(c, mus))
    if li.break_conds:
      d = mk('until', d, T.or_(*[uid_free(T.subst(b, lambda x: mk('ixm') if x is mk('ix', uid) else None), mus) for b in li.break_conds]))
    return d

  def get_key(self, key):
    if key[0] == 'env':
      return self.fr.env.get(key[1], UNDEF)
    v = self.heap.get(key[1])
    return v if v is not None else self.heap_default(key[1])

  def put_key(self, key, v):
    if key[0] == 'env':
      self.fr.env[key[1]] = v
    else:
      self.heap[key[1]] = v

  def close_last(self, uid, dom, e, init, mus):
    ix = mk('ix', uid)
    mset = {m for m, _ in mus.values()}
    if not T.contains(e, lambda x: x is ix or x in mset):
      if init is UNDEF or e is init:
        return e
    h = binder_height(e) + 1
    inits = {m: i for m, i in mus.values()}
    b = T.subst(e, lambda x: mk('bv', h) if x is ix else (mk('muv', h, inits[x]) if x in mset else None))
    return mk('last', h, dom, b, init)

  def close_key(self, uid, dom, mu, init, vals, bvals, li, mus, mark, endsnap):
    ix = mk('ix', uid)
    mset = {m for m, _ in mus.values()}
    if vals:
      e = vals[0]
      if bvals and not all(b is e for b in bvals):
        if all(b is mu for b in bvals):
          if dom.op == 'until':
            dom = mk('excl', dom)
        else:
          brk = mk('broke', dom)
          closed = self.close_key(uid, dom, mu, init, vals, [], li, mus, mark, endsnap)
          bl = bvals[-1]
          h = binder_height(bl) + 1
          inits = {m: i for m, i in mus.values()}
          b = T.subst(bl, lambda x: mk('bv', h) if x is ix else (mk('muv', h, inits[x]) if x in mset else None))
          return T.phi(brk, mk('atbreak', h, dom, b), closed)
    elif bvals:
      e = bvals[-1]
      inits = {m: i for m, i in mus.values()}
      h = binder_height(e) + 1
      return mk('atbreak', h, dom, T.subst(e, lambda x: mk('bv', h) if x is ix else (mk('muv', h, inits[x]) if x in mset else None)))
    else:
      return init
    if e is mu:
      return init
    others = mset - {mu}
    has_mu = T.contains_term(e, mu)
    has_other = T.contains(e, lambda x: x in others)
    inits = {m: i for m, i in mus.values()}

    def bv(t, h):
      return T.subst(t, lambda x: mk('bv', h) if x is ix else (mk('muv', h, inits[x]) if x in others else None))
    if not has_mu and not has_other:
      return self.close_last(uid, dom, e, init, mus)
    if has_mu:
      # additive accumulator
      delta = T.sub(e, mu)
      if delta.op != 'concat' and not T.contains_term(delta, mu) and e.op not in ('concat', 'store', 'dset', 'dupdate'):
        h = binder_height(delta) + 1
        return T.add(init, sum_t(h, dom, bv(delta, h)))
      d2 = phi_delta(e, mu)
      if d2 is not None:
        h = binder_height(d2) + 1
        return T.add(init, sum_t(h, dom, bv(d2, h)))
      # list accumulator
      app = append_delta(e, mu)
      if app is not None and not T.contains_term(app, mu):
        lst = self.close_list_dom(uid, dom, app, others, inits)
        return self.concat([self.deref(init) if init.op == 'ref' else init, lst])
      if e.op == 'dset' and e.args[0] is mu and not T.contains_term(mk('tuple', e.args[1], e.args[2]), mu):
        pair = mk('tuple', e.args[1], e.args[2])
        h = binder_height(pair) + 1
        b = bv(pair, h)
        dm = mk('dictmap', h, dom, b.args[0], b.args[1])
        return dm if init.op == 'dict' and not init.args else mk('dupdate', init, dm)
      if e.op == 'store' and e.args[0] is mu and not T.contains_term(mk('tuple', e.args[1], e.args[2]), mu):
        pair = mk('tuple', e.args[1], e.args[2])
        h = binder_height(pair) + 1
        b = bv(pair, h)
        return mk('fill', h, dom, init, ((b.args[0], b.args[1]),))
      chain = store_chain(e, mu)
      if chain is not None:
        pair = mk('tuple', *[mk('tuple', i, v) for i, v in chain])
        h = binder_height(pair) + 1
        b = bv(pair, h)
        return mk('fill', h, dom, init, tuple((p.args[0], p.args[1]) for p in b.args))
    # general recurrence
    order = [mu]
    ends = {}
    for k, (m, i) in mus.items():
      ends[m] = None
    for key, (m, i) in mus.items():
      x = endsnap_get(endsnap, key, self) if endsnap is not None else m
      ends[m] = self.deref_new_snap(x, mark, endsnap) if endsnap is not None else m
    i = 0
    while i < len(order):
      for x in _ordered_subterms(ends[order[i]]):
        if x in mset and x not in order:
          order.append(x)
      i += 1
    h = max(binder_height(ends[m]) for m in order) + 1
    def built(order):
      num = {m: j for j, m in enumerate(order)}
      sub = lambda t: T.subst(t, lambda x: mk('bv', h) if x is ix else (mk('rec', h, num[x]) if x in num else None))
      return mk('fold', h, dom, tuple((inits[m], sub(ends[m])) for m in order))
    if h > 1 or 3 <= len(order) <= 5:
      # the order in which the carried values are met depends on what they are
      # called (sums are kept sorted), so take the smallest of all orders
      return T.rewrite(built(order), least_fold)
    return built(order)

  def close_list_dom(self, uid, dom, body, others, inits):
    ix = mk('ix', uid)
    if others and T.contains(body, lambda x: x in others):
      h0 = binder_height(body) + 1
      body = T.subst(body, lambda x: mk('muv', h0, inits[x]) if x in others else None)
    return self.close_list(uid, dom, body)

  # try / with / match ----------------------------------------------------
  def s_Try(self, s):
    self.ntry += 1
    tid = self.ntry
    s0 = self.snap()
    nret = len(self.fr.returns)
    self.ctx.append(('try', tid, tuple(self.handler_types(h) for h in s.handlers)))
    nctx = len(self.ctx)
    self.block(s.body)
    if self.alive:
      self.block(s.orelse)
    la = self.alive
    sa = self.snap()
    sa.ctx = tuple(list(s0.ctx) + [c for c in sa.ctx[nctx:] if c[0] == 'if'])
    outs = [(None, sa)] if la else []
    for h in s.handlers:
      # state at the handler: anything assigned in the body may or may not have happened
      raised = mk('raised', tid, h.type and self.handler_types(h) or 'any')
      self.restore(s0)
      env = {}
      body_env = sa.env
      for k in list(s0.env) + [k for k in body_env if k not in s0.env]:
        a, b = s0.env.get(k, UNDEF), body_env.get(k, UNDEF)
        env[k] = a if a is b else mk('maybe', a, b, tid) if a is not UNDEF else b
      self.fr.env.clear()
      self.fr.env.update(env)
      heap = {}
      for k in list(s0.heap) + [k for k in sa.heap if k not in s0.heap]:
        a, b = s0.heap.get(k), sa.heap.get(k)
        if a is None:
          a = self.heap_default(k)
        if b is None:
          b = a
        heap[k] = a if a is b or b is UNDEF else (b if a is UNDEF else mk('maybe', a, b, tid))
      self.heap = heap
      if h.name:
        self.fr.env[h.name] = mk('exc', tid)
      self.ctx.append(('except', tid, self.handler_types(h)))
      n2 = len(self.ctx)
      self.emit('handler', h, tid=tid, types=self.handler_types(h))
      self.block(h.body)
      if self.alive:
        sn = self.snap()
        sn.ctx = tuple(list(s0.ctx) + [c for c in sn.ctx[n2:] if c[0] == 'if'])
        outs.append((raised, sn))
    if not outs:
      self.restore(s0)
      self.alive = False
    else:
      cur = outs[0][1]
      if outs[0][0] is None and la:
        pass
      for c, sn in outs[1:]:
        self.restore(cur)
        s00 = Snap(s0.env, s0.heap, s0.ver, s0.ctx)
        c = c if c is not None else TRUE
        # phi(raised, handler, normal)
        keep = cur.ctx if len(cur.ctx) >= len(sn.ctx) else sn.ctx
        self.merge_into(c, Snap(sn.env, sn.heap, sn.ver, s0.ctx), Snap(cur.env, cur.heap, cur.ver, s0.ctx), s00)
        cur = self.snap()
      self.restore(cur)
      if len(outs) == 1:
        self.ctx = list(outs[0][1].ctx)
    if s.finalbody:
      was = self.alive
      snap = self.snap()
      self.alive = True
      self.ctx.append(('finally', tid))
      self.block(s.finalbody)
      self.ctx = [c for c in self.ctx if c != ('finally', tid)]
      self.alive = was and self.alive

  s_TryStar = s_Try

  def handler_types(self, h):
    if h.type is None:
      return ('BaseException',)
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return tuple(self.fr.mod.resolve_name(dotted(t) or '?') for t in ts)

  def s_With(self, s):
    pushed = []
    for i in s.items:
      v = self.ev(i.context_expr)
      vd = self.closed(v)
      self.emit('with_enter', s, value=vd)
      if i.optional_vars is not None:
        if self.cls_of(v) is not None:
          bound = self.enter(v, s)
        elif vd.op in ('call', 'mcall') and not is_exitstack(vd):
          bound = mk('entered', vd)
        else:
          bound = v
        self.assign(i.optional_vars, bound, s)
      self.ctx.append(('with', vd))
      pushed.append(vd)
    self.block(s.body)
    for vd in reversed(pushed):
      self.ctx = [c for c in self.ctx if c != ('with', vd)]
      self.emit('with_exit', s, value=vd)

  s_AsyncWith = s_With

  def enter(self, v, node):
    m = self.prog.lookup(self.cls_of(v), '__enter__')
    if m is None:
      return v
    return self.call_method(v, '__enter__', [], {}, node)

  def s_Match(self, s):
    subj = self.ev(s.subject)

    def go(cases):
      if not cases:
        return
      c = cases[0]
      cond, binds = self.pattern(c.pattern, subj)
      if c.guard is not None:
        for n, v in binds:
          self.fr.env[n] = v
        cond = T.and_(cond, T.truth(self.val(c.guard)))

      def yes():
        for n, v in binds:
          self.fr.env[n] = v
        self.block(c.body)
      if cond is TRUE:
        yes()
      elif cond is FALSE:
        go(cases[1:])
      else:
        self.branch(cond, yes, lambda: go(cases[1:]))
    go(s.cases)

  def pattern(self, p, subj):
    if isinstance(p, ast.MatchValue):
      return self.eq(self.deref(subj), self.val(p.value)), []
    if isinstance(p, ast.MatchSingleton):
      return T.is_(self.deref(subj), const(p.value)), []
    if isinstance(p, ast.MatchAs):
      if p.pattern is None:
        return TRUE, ([(p.name, subj)] if p.name else [])
      c, b = self.pattern(p.pattern, subj)
      return c, b + ([(p.name, subj)] if p.name else [])
    if isinstance(p, ast.MatchOr):
      cs = [self.pattern(x, subj) for x in p.patterns]
      return T.or_(*[c for c, _ in cs]), []
    if isinstance(p, ast.MatchClass):
      k = self.ev(p.cls)
      c = self.isinst(subj, k) if k.op == 'glob' else mk('isinstance', self.deref(subj), k)
      binds = []
      conds = [c]
      for a, q in zip(p.kwd_attrs, p.kwd_patterns):
        cc, bb = self.pattern(q, self.get_attr(subj, a))
        conds.append(cc)
        binds += bb
      return T.and_(*conds), binds
    return mk('unknown', 'pattern', ast.dump(p)[:50]), []


# ---------------------------------------------------------------- helpers

def _is_gen(n):
  from .prog import is_generator
  return is_generator(n)


def _has(body, kind):
  stack = list(body)
  while stack:
    n = stack.pop()
    if isinstance(n, kind):
      return True
    if isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)):
      if kind in (ast.Break, ast.Continue) and isinstance(n, (ast.For, ast.While)):
        stack.extend(n.orelse)
        continue
      if isinstance(n, (ast.FunctionDef, ast.Lambda)):
        continue
    stack.extend(ast.iter_child_nodes(n))
  return False


def _ordered_subterms(t):
  out, seen = [], set()

  def go(x):
    if x in seen:
      return
    seen.add(x)
    out.append(x)
    for c in T.children(x):
      go(c)
  go(t)
  return out


def key_name(key):
  """Printable, deref-proof name of a carried key."""
  if key[0] == 'env':
    return ('env', key[1])
  b, a = key[1]
  return ('heap', f'r{b.args[0]}' if b.op == 'ref' else 'm' + T.skey(b) if b.op == 'mu' else b, a)


def endsnap_get(snap, key, interp):
  if key[0] == 'env':
    return snap.env.get(key[1], UNDEF)
  v = snap.heap.get(key[1])
  return v if v is not None else interp.heap_default(key[1])


def excludes(a, b):
  """The two conditions never hold together."""
  parts = lambda t: list(t.args) if t.op == 'and' else [t]
  for x in parts(a):
    for y in parts(b):
      if T.and_(x, y) is FALSE:
        return True
      if x.op == y.op == 'lt0':
        d = T.add(x.args[0], y.args[0])
        if T.is_num(d) and T.cval(d) >= 0:
          return True
  return False


def uid_free(t, mus):
  inits = {m: i for m, i in mus.values()}
  return T.subst(t, lambda x: mk('muv', 0, inits[x]) if x in inits else None)


def phi_delta(e, mu):
  """e = phi(c, mu + a, mu + b) -> phi(c, a, b)."""
  if e is mu:
    return ZERO
  if e.op == 'phi':
    if T.contains_term(e.args[0], mu):
      return None
    a, b = phi_delta(e.args[1], mu), phi_delta(e.args[2], mu)
    if a is None or b is None:
      return None
    return T.phi(e.args[0], a, b)
  if e.op in ('poly',):
    d = T.sub(e, mu)
    if not T.contains_term(d, mu):
      return d
  return None


def least_fold(t):
  """A fold with its carried values in the smallest of their orders."""
  if t.op != 'fold' or not 3 <= len(t.args[2]) <= 5:
    return None
  h, dom, parts = t.args
  best = None
  for rest in itertools.permutations(range(1, len(parts))):
    order = (0, *rest)
    num = {o: i for i, o in enumerate(order)}
    memo = {}
    sub = lambda b: T.rewrite(T.subst(b, lambda x: mk('rec', h, num[x.args[1]]) if x.op == 'rec' and x.args[0] == h and x.args[1] in num else None, memo), least_fold)
    c = mk('fold', h, dom, tuple((parts[o][0], sub(parts[o][1])) for o in order))
    if best is None or T.skey(c) < T.skey(best):
      best = c
  return best if best is not t else None


def append_delta(e, mu):
  """e = concat(mu, list...) possibly under phi -> the appended list."""
  if e is mu:
    return mk('list')
  if e.op == 'concat' and e.args[0] is mu:
    rest = e.args[1:]
    if any(T.contains_term(r, mu) for r in rest):
      return None
    return rest[0] if len(rest) == 1 else mk('concat', *rest)
  if e.op == 'concat' and e.args[0].op == 'phi':
    a = append_delta(e.args[0], mu)
    if a is None:
      return None
    rest = mk('concat', *e.args[1:]) if len(e.args) > 2 else e.args[1]
    if a.op == 'list' and not a.args:
      return rest
    return mk('concat', a, rest)
  if e.op == 'phi':
    if T.contains_term(e.args[0], mu):
      return None
    a, b = append_delta(e.args[1], mu), append_delta(e.args[2], mu)
    if a is None or b is None:
      return None
    return T.phi(e.args[0], a, b)
  return None


def store_chain(e, mu):
  out = []
  while e.op == 'store':
    if T.contains_term(mk('tuple', e.args[1], e.args[2]), mu):
      return None
    out.append((e.args[1], e.args[2]))
    e = e.args[0]
  if e is not mu or not out:
    return None
  return list(reversed(out))


def is_str(t):
  return t.op in ('strcat', 'fmt', 'strmod', 'strformat') or (
      t.op == 'const' and isinstance(t.args[0], str) and not t.args[0].endswith('#float') and not t.args[0].endswith('#ellipsis'))


def is_seq(t):
  return t.op in ('list', 'concat', 'mapl', 'mapf', 'flatmap', 'tuple', 'seqcopy')


def is_path(t):
  return t.op == 'pathjoin' or (t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0].endswith('Path'))


def flat_path(a, b):
  return (list(a.args) if a.op == 'pathjoin' else [a]) + (list(b.args) if b.op == 'pathjoin' else [b])


def strcat(parts):
  out = []
  for p in parts:
    ps = p.args if p.op == 'strcat' else (p,)
    for q in ps:
      if q.op == 'const' and isinstance(q.args[0], str) and out and out[-1].op == 'const' and isinstance(out[-1].args[0], str):
        out[-1] = const(out[-1].args[0] + q.args[0])
      elif q is const(''):
        continue
      elif T.is_num(q):
        s = str(T.cval(q))
        if out and out[-1].op == 'const' and isinstance(out[-1].args[0], str):
          out[-1] = const(out[-1].args[0] + s)
        else:
          out.append(const(s))
      else:
        out.append(q)
  if not out:
    return const('')
  if len(out) == 1 and is_str(out[0]):
    return out[0]
  return mk('strcat', *out)


def before(t, base):
  """t with the location `base` read as it was before any write."""
  memo = {}

  def go(x):
    if x is base:
      return mk('init', base)
    if x.op == 'init':
      return x
    r = memo.get(x)
    if r is None:
      na = tuple(goa(a) for a in x.args)
      r = memo[x] = T.rebuild(x, na) if na != x.args else x
    return r

  def goa(a):
    if isinstance(a, T.Term):
      return go(a)
    if isinstance(a, tuple):
      return tuple(goa(y) for y in a)
    return a
  return go(t)


def unfilter(h, length, body):
  """A pass over a filtered sequence as a filtered pass over the underlying one: (h, length, element, condition)."""
  bv = mk('bv', h)
  found = set()

  def f(x):
    if x.op == 'item' and x.args[1] is bv and x.args[0].op == 'mapf':
      found.add(x.args[0])
      return mk('bvtmp2', x.args[0])
    return None
  b = T.subst(body, f)
  if len(found) != 1:
    return None
  m, = found
  if T.contains_term(b, bv) or T.contains_term(m, bv) or len_t(m) is not length:
    return None
  tmp = mk('bvtmp')
  hm = m.args[0]
  elem, cond = [T.subst(x, lambda y: tmp if y is mk('bv', hm) else None) for x in m.args[2:4]]
  b = T.subst(b, lambda x: elem if x.op == 'bvtmp2' else None)
  n = max(binder_height(b), binder_height(cond)) + 1
  b, cond = [T.subst(x, lambda y: mk('bv', n) if y is tmp else None) for x in (b, cond)]
  return n, m.args[1], b, cond


def sum_t(h, dom, body):
  """Sum over iterations, linear normal form."""
  if body is ZERO:
    return ZERO
  out = ZERO
  ps = T.poly_terms(body)
  bv = mk('bv', h)
  for c, m in ps:
    inv, dep = [], []
    for a, e in m:
      (dep if T.contains_term(a, bv) else inv).append((a, e))
    t = const(c)
    for a, e in inv:
      t = T.mul(t, T.power(a, const(e)))
    if dep:
      d = ONE
      for a, e in dep:
        d = T.mul(d, T.power(a, const(e)))
      u = unfilter(h, dom, d)
      if u is not None:
        t = T.mul(t, sum_t(u[0], u[1], T.phi(u[3], u[2], ZERO)))
      else:
        t = T.mul(t, mk('sum', h, dom, d))
    else:
      t = T.mul(t, dom if dom.op not in ('until', 'whiled', 'excl') else mk('iters', dom))
    out = T.add(out, t)
  return out


def len_t(d):
  if d.op == 'seqcopy':
    return len_t(d.args[0])
  if d.op in ('list', 'tuple', 'set') and not any(a.op == 'star' for a in d.args):
    return const(len(d.args))
  if d.op == 'dict':
    return const(len(d.args))
  if d.op == 'mapl':
    return d.args[1]
  if d.op == 'mapf':
    return sum_t(d.args[0], d.args[1], T.phi(d.args[3], ONE, ZERO))
  if d.op == 'concat':
    t = ZERO
    for a in d.args:
      t = T.add(t, len_t(a))
    return t
  if d.op == 'call' and d.args[0] is glob('range'):
    a = d.args[1]
    if len(a) == 1:
      return a[0]
    if len(a) == 2:
      return T.sub(a[1], a[0])
  if d.op == 'mcall' and d.args[0] in ('keys', 'values', 'items') and not d.args[2]:
    return len_t(d.args[1])
  if d.op == 'store':
    return len_t(d.args[0])
  return call_t('len', [d])


def max_t(ds):
  ds = sorted(ds)
  nums = [d for d in ds if T.is_num(d)]
  if len(ds) == 2 and nums == [ONE]:
    d = ds[0] if ds[1] is ONE else ds[1]
    if T._is_size(d):
      return T.phi(d, d, ONE)
  return ds[0] if len(ds) == 1 else call_t('max', ds)


def is_exitstack(t):
  return t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0].endswith('ExitStack')


def one_each(b):
  """phi-tree of singleton lists -> phi-tree of the elements."""
  if b.op == 'list' and len(b.args) == 1 and b.args[0].op != 'star':
    return b.args[0]
  if b.op == 'phi':
    x, y = one_each(b.args[1]), one_each(b.args[2])
    if x is not None and y is not None:
      return T.phi(b.args[0], x, y)
  return None


def _scalar_index(t):
  return t.op in ('ix', 'bv', 'ixc') or T.is_num(t) or (t.op == 'poly' and all(
      f.op in ('ix', 'bv', 'ixc', 'len', 'item') for m, _ in t.args for f, _p in m))


def item_t(b, idx):
  if b.op == 'seqcopy' and idx.op != 'slice':
    b = b.args[0]
  if b.op in ('list', 'tuple') and T.is_num(idx):
    i = T.cval(idx)
    if isinstance(i, int) and -len(b.args) <= i < len(b.args) and not any(x.op == 'star' for x in b.args):
      return b.args[i]
  if b.op == 'mapl' and idx.op not in ('slice', 'tuple') and not (T.is_num(idx) and idx.args[0] < 0):
    h, l, body = b.args
    return T.subst(body, lambda x: idx if x is mk('bv', h) else None)
  if b.op == 'dict':
    for k, v in b.args:
      if k is idx:
        return v
  if b.op == 'store':
    if b.args[1] is idx:
      return b.args[2]
    if T.is_num(idx) and T.is_num(b.args[1]):
      return item_t(b.args[0], idx)
  if b.op == 'phi' and is_seq(b.args[1]) and is_seq(b.args[2]):
    return T.phi(b.args[0], item_t(b.args[1], idx), item_t(b.args[2], idx))
  # a[i][j] -> a[i, j] is only valid for arrays; keep as is.
  return mk('item', b, idx)


def dict_of_pairs(interp, r):
  """Sequence of (key, value) pairs -> dict term."""
  if r.op == 'list':
    d = mk('dict')
    for p in r.args:
      if p.op in ('tuple', 'list') and len(p.args) == 2:
        d = interp.dict_set(d, p.args[0], p.args[1])
      else:
        return mk('dictof', r)
    return d
  if r.op == 'mapl' and r.args[2].op == 'tuple' and len(r.args[2].args) == 2:
    return mk('dictmap', r.args[0], r.args[1], r.args[2].args[0], r.args[2].args[1])
  return mk('dictof', r)


T.REBUILD['item'] = item_t
T.LEN.append(len_t)
T.REBUILD['concat'] = lambda *a: Interp.concat(None, a)
T.REBUILD['strcat'] = lambda *a: strcat(a)


def _rb_call(fn, args, kwargs, tag):
  if fn is glob('len') and len(args) == 1 and not kwargs:
    return len_t(args[0])
  return mk('call', fn, args, kwargs, tag)


T.REBUILD['call'] = _rb_call


def _rb_attr(base, name, *ver):
  if base.op == 'new':
    for k, v in base.args[1]:
      if k == name:
        return v
  return mk('attr', base, name, *ver)


T.REBUILD['attr'] = _rb_attr


def _rb_sum(h, dom, body):
  return sum_t(h, dom, body)


T.REBUILD['sum'] = _rb_sum


def run_method(prog, cls_short, name, opaque=(), setup=None, params=None, exact_self=True, **kw):
  """Abstractly runs Class.name with symbolic self/arguments.

  Returns (interp, result term)."""
  c = prog.cls(cls_short)
  f = prog.lookup(c, name)
  if f is None:
    raise AnalysisBroken(f'method {cls_short}.{name} not found')
  it = Interp(prog, opaque=opaque, **kw)
  me = mk('param', 'self')
  it.types[me] = ('cls', c)
  if exact_self:
    it.exact.add(me)
  return it, _run(it, f, me, setup, params)


def _run(it, f, me, setup, params):
  pos, ko, a = f.params()
  env_args, kwargs = [], {}
  names = list(pos)
  if me is not None:
    if f.is_classmethod:
      env_args.append(glob(it.prog.classes[it.types[me][1].qual].qual))
      names = names[1:]
    elif not f.is_static:
      env_args.append(me)
      names = names[1:]
  allann = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs}
  params = params or {}
  for n in names + ko:
    if n in params:
      p = params[n]
      if p is None:
        continue
    else:
      p = mk('param', n)
      ty = it.prog.ann_type(f.mod, allann.get(n))
      if ty is not None:
        it.types[p] = ty
    kwargs[n] = p
  if a.vararg:
    pass
  pseudo = Frame(f, {}, f.mod, f.cls)
  it.frames.append(pseudo)
  if setup:
    setup(it)
  # positional-only parameters
  po = [x.arg for x in a.posonlyargs]
  for n in po:
    if n in kwargs and not (me is not None and n == pos[0] and not f.is_static):
      env_args.append(kwargs.pop(n))
  r = it.run_func(f, env_args, kwargs, f.node, key=f)
  it.result_loc = r
  res = it.deref(r)
  return res


def run_function(prog, short, opaque=(), setup=None, params=None, **kw):
  f = prog.func(short)
  it = Interp(prog, opaque=opaque, **kw)
  return it, _run(it, f, None, setup, params)
