"""Effect analysis for reproducibility over the simulator, material, imaging, goal, adapter, feature, geometry, environment and
agent modules.  (1) no reference (through any import alias) to a source of nondeterminism - global or freshly seeded numpy /
stdlib / jax / tensorflow generators, clock, process identity, uuid, id/hash - except where the value only reaches logging;
library calls that draw noise are given a generator derived from the caller's; (2) seed() installs a generator built from
exactly its argument, and replaces the generator in every component class that keeps one (value graph of seed() per adapter
class; other component classes keep none); (3) no state survives reset: every attribute the step operations of a component
write is rewritten by its reset with a value that does not depend on earlier episodes; (4) no module-level or class-level
mutable state is written by functions; (5) no iteration over sets of strings."""
import ast

from .. import lint, terms as T
from ..core import class_attrs
from ..prog import dotted
from ..terms import mk

MIN_OBLIGATIONS = 40
TECHNIQUE = 'effect analysis (who may draw randomness, write state) over the syntax tree plus value graphs of seed() and reset()'
SCOPE = ('simulator', 'graphene', 'imaging', 'goals', 'action_adapters', 'feature_constructors', 'putting_dune_environment', 'run_helpers',
         'simulator_observers', 'microscope_utils', 'geometry', 'constants', 'agents.agent_lib')
TYPES_OK = {'numpy.random.' + n for n in ('Generator', 'BitGenerator', 'SeedSequence', 'RandomState')}
CLOCK = {'time.' + n for n in ('time', 'time_ns', 'perf_counter', 'perf_counter_ns', 'monotonic', 'monotonic_ns', 'process_time', 'process_time_ns',
                               'localtime', 'gmtime', 'ctime', 'strftime', 'thread_time')} | {
    'datetime.datetime.now', 'datetime.datetime.utcnow', 'datetime.datetime.today', 'datetime.date.today'}
OTHER = {'os.urandom', 'os.getpid', 'os.getppid', 'os.times', 'os.environ', 'os.getenv', 'threading.get_ident', 'id', 'hash', 'socket.gethostname',
         'platform.node', 'os.getlogin'}
NEED = {'skimage.util.random_noise': ('seed', 'rng'), 'skimage.random_noise': ('seed', 'rng')}
NEED_STATE = {'sklearn.cluster.KMeans', 'sklearn.cluster.MiniBatchKMeans', 'sklearn.utils.shuffle', 'sklearn.model_selection.train_test_split',
              'sklearn.mixture.GaussianMixture', 'sklearn.decomposition.PCA'}
LOGGING = ('absl.logging.', 'logging.', 'print', 'warnings.')
GEN_METHODS = {'uniform', 'normal', 'choice', 'integers', 'exponential', 'poisson', 'permutation', 'permuted', 'shuffle', 'random', 'standard_normal',
               'gamma', 'beta', 'binomial', 'multinomial', 'dirichlet', 'geometric', 'lognormal', 'spawn'}


def forbidden(r):
  if r in TYPES_OK:
    return None
  if r == 'numpy.random.default_rng':
    return 'fresh'
  if r.startswith(('numpy.random.', 'random.', 'secrets.', 'uuid.', 'tensorflow.random.', 'tf.random.', 'torch.')) or r in ('random', 'numpy.random'):
    return 'global'
  if r in ('jax.random.PRNGKey', 'jax.random.key'):
    return 'fresh'
  if r in CLOCK:
    return 'clock'
  if r in OTHER or r.startswith('os.environ.'):
    return 'identity'
  return None


def check(A):
  mods = [A.prog.modules[f'putting_dune.{m}'] for m in SCOPE if f'putting_dune.{m}' in A.prog.modules]
  A.ob('modules', 'scope', len(mods) == len(SCOPE), f'{len(mods)} of {len(SCOPE)} modules')
  comp = components(A)
  for m in mods:
    sources(A, m, comp)
    shared_state(A, m)
  seeding(A, comp)
  for c in comp['all']:
    resets(A, c)


def components(A):
  p = A.prog
  bases = {'adapter': 'action_adapters.ActionAdapter', 'feature': 'feature_constructors.FeatureConstructor', 'goal': 'goals.Goal',
           'rates': 'graphene.RateFunction'}
  out = {k: [c for c in p.subclasses('putting_dune.' + b) if c.qual.startswith('putting_dune.')] for k, b in bases.items()}
  out['sim'] = [c for c in p.classes.values() if c.qual in ('putting_dune.simulator.PuttingDuneSimulator',
                                                            'putting_dune.graphene.PristineSingleDopedGraphene')]
  out['sim'] += [c for c in p.subclasses('putting_dune.graphene.DopedGraphene') if c not in out['sim']]
  out['env'] = [p.cls('putting_dune_environment.PuttingDuneEnvironment'), p.cls('run_helpers.StepLimitWrapper')]
  out['all'] = [c for k in ('adapter', 'feature', 'goal', 'sim', 'env') for c in out[k]]
  return out


# ---------------------------------------------------------------- (1) sources
def sources(A, m, comp):
  w = lint.walk(m)
  n, bad = 0, 0
  for node, r in w.references():
    k = forbidden(r)
    n += 1
    if k is None:
      continue
    fn = w.function_of(node)
    call = w.parent.get(node) if isinstance(w.parent.get(node), ast.Call) and w.parent[node].func is node else None
    name = f'{m.name[13:]}.{fn.name if fn else "<module>"}:{r}'
    if k == 'fresh' and r.endswith('default_rng'):
      ok, why = fresh_ok(A, w, node, call, fn)
    elif k == 'clock':
      ok, why = only_logged(w, call or node, fn)
    elif r in ('id', 'hash'):
      ok, why = (fn is not None and fn.name.endswith(('__hash__', '__eq__', '__repr__'))), r
    else:
      ok, why = False, 'not determined by the seed'
    if not ok:
      bad += 1
      A.ob('nondeterminism', name, ok, f'{r} used: {why}', w.where(node))
    else:
      A.ob('generator-source', name, True, why, w.where(node))
  for node in ast.walk(m.tree):
    if isinstance(node, ast.Call):
      noise_calls(A, w, node)
    if isinstance(node, (ast.For, ast.comprehension)):
      set_iteration(A, w, node)
  A.ob('references-scanned', m.name[13:], True, f'{n} resolved references, {bad} forbidden', m.rel)


def gen_names(fn):
  """Names in scope that hold the caller's generator (parameters, and locals computed from them)."""
  out = set()
  s = fn
  while s is not None and isinstance(s.node, lint.FUNCS):
    for a in s.params():
      if is_gen_param(s.mod, a):
        out.add(a.arg)
    s = s.parent
  for _ in range(3):
    for n in ast.walk(fn.node) if fn else []:
      if isinstance(n, ast.Assign) and uses(n.value, out):
        for t in n.targets:
          for x in ast.walk(t):
            if isinstance(x, ast.Name):
              out.add(x.id)
  return out


def is_gen_param(mod, a):
  d = a.annotation
  if d is not None:
    for x in ast.walk(d):
      s = dotted(x) if isinstance(x, (ast.Name, ast.Attribute)) else None
      if s and mod.resolve_name(s) == 'numpy.random.Generator':
        return True
  return a.arg in ('rng', 'generator', 'random_state')


def uses(e, names):
  return any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(e))


def fresh_ok(A, w, node, call, fn):
  if call is None:
    p = w.parent.get(node)
    return False, 'the factory itself is passed around'
  args = call.args + [k.value for k in call.keywords]
  if fn is not None:
    names = {a.arg for a in fn.params()}
    if args and all(uses(a, names) for a in args):
      return True, 'seeded from an argument'
    # fallback when no generator was supplied
    p, c = w.parent.get(call), call
    while p is not None and not isinstance(p, ast.stmt):
      if isinstance(p, ast.IfExp) and c is not p.test and none_test(p.test, names):
        return True, 'only when the caller supplied none'
      if isinstance(p, ast.BoolOp) and isinstance(p.op, ast.Or) and uses(p.values[0], names) and p.values[0] is not c:
        return True, 'only when the caller supplied none'
      c, p = p, w.parent.get(p)
    q = p
    while q is not None and q is not fn.node:
      up = w.parent.get(q)
      if isinstance(up, ast.If) and none_test(up.test, names):
        return True, 'only when the caller supplied none'
      q = up
    # an attribute that seed() replaces
    if isinstance(p, (ast.Assign, ast.AnnAssign)) and fn.cls is not None:
      ts = p.targets if isinstance(p, ast.Assign) else [p.target]
      if len(ts) == 1 and isinstance(ts[0], ast.Attribute) and isinstance(ts[0].value, ast.Name) and not args:
        c = A.prog.classes.get(f'{fn.mod.name}.{fn.cls.name}')
        f = A.prog.lookup(c, 'seed') if c else None
        if f is not None and fn.node.name == '__init__':
          run = A.node_of(c, 'seed')
          v = run.self_attr(ts[0].attr)
          if v is not None and not T.contains(v, lambda x: x is mk('attr', mk('param', 'self'), ts[0].attr)):
            return True, 'replaced by seed()'
          return False, 'seed() does not replace it'
  if not args:
    why = initial_only(A, call)
    if why is not None:
      return why
  return False, 'a generator that is not derived from the seed'


def initial_only(A, call):
  """A fresh generator only constructors obtain, and keep nowhere but where seed() puts another."""
  res = None
  for c in components(A)['all']:
    if A.prog.lookup(c, '__init__') is None:
      continue
    run = A.node_of(c, '__init__')
    made = [e for e in run.events if e.kind == 'call' and e.node is call]
    if not made:
      continue
    ts = {e.result for e in made}
    has = lambda t: isinstance(t, T.Term) and T.contains(t, lambda x: x in ts)
    if any(has(x) for e in run.events if e not in made for x in list(e.d.values()) + list(e.d.get('args') or ()) if e.kind not in ('setattr', 'return', 'leave')):
      return None
    for (b, a), v in run.it.heap.items():
      if isinstance(v, T.Term) and has(run.it.closed(v)):
        if b is not mk('param', 'self') or A.prog.lookup(c, 'seed') is None:
          return None
        s = A.node_of(c, 'seed').self_attr(a)
        if s is None or T.contains(s, lambda x: x is mk('attr', mk('param', 'self'), a)):
          return False, 'seed() does not replace it'
    res = True, 'replaced by seed()'
  if res is None:
    return None
  # nothing else reaches the call
  fn = next((f for f in list(A.prog.funcs.values()) + [m for c in A.prog.classes.values() for m in c.methods.values()] if any(n is call for n in ast.walk(f.node))), None)
  todo, seen = [fn], set()
  while todo:
    f = todo.pop()
    if f is None:
      return None
    if f.name == '__init__' or f.qual in seen:
      continue
    seen.add(f.qual)
    if not f.name.startswith('_') or f.name.startswith('__'):
      return None
    for g in list(A.prog.funcs.values()) + [m for c in A.prog.classes.values() for m in c.methods.values()]:
      if g is not f and any(isinstance(n, ast.Name) and n.id == f.name or isinstance(n, ast.Attribute) and n.attr == f.name for n in ast.walk(g.node)):
        todo.append(g)
  return res


def none_test(t, names):
  return any(isinstance(x, ast.Compare) and any(isinstance(o, (ast.Is, ast.IsNot)) for o in x.ops) and uses(x, names) for x in ast.walk(t)) or (
      isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and uses(t, names))


def only_logged(w, call, fn):
  """The value reaches nothing but logging."""
  if fn is None:
    return False, 'read at import'
  tainted, todo = set(), [call]
  seen = set()
  while todo:
    e = todo.pop()
    if e in seen:
      continue
    seen.add(e)
    c, p = e, w.parent.get(e)
    while p is not None and not isinstance(p, ast.stmt):
      if isinstance(p, ast.Call) and p.func is not c:
        d = dotted(p.func)
        r = w.scope[p].resolve(d) if d else None
        if r and r.startswith(LOGGING):
          break
      c, p = p, w.parent.get(p)
    else:
      if isinstance(p, ast.Assign) and all(isinstance(t, ast.Name) for t in p.targets) or isinstance(p, (ast.AnnAssign, ast.AugAssign)) and isinstance(p.target, ast.Name):
        for t in p.targets if isinstance(p, ast.Assign) else [p.target]:
          if t.id not in tainted:
            tainted.add(t.id)
            todo += [x for x in ast.walk(fn.node) if isinstance(x, ast.Name) and x.id == t.id and isinstance(x.ctx, ast.Load)]
        continue
      if isinstance(p, ast.Expr) and p.value is e:
        continue
      return False, f'its value is used in {ast.unparse(p)[:80] if p is not None else ""}'
  return True, 'only logged'


def noise_calls(A, w, node):
  d = dotted(node.func)
  fn = w.function_of(node)
  if not d:
    if isinstance(node.func, ast.Attribute) and node.func.attr == 'rvs':
      pass
    else:
      return
  r = (w.scope[node].resolve(d) if d else None) or ''
  need = NEED.get(r) or (('random_state',) if r in NEED_STATE or (r.startswith('scipy.stats.') and r.endswith('.rvs')) else None)
  if need is None and isinstance(node.func, ast.Attribute) and node.func.attr == 'rvs':
    need = ('random_state',)
  if need is None:
    return
  vals = [k.value for k in node.keywords if k.arg in need]
  star = any(k.arg is None for k in node.keywords)
  ok = bool(vals) and fn is not None and derived(w, vals[0], fn)
  if star and not vals:
    ok = None
  A.ob('noise-from-generator', f'{w.mod.name[13:]}.{fn.name if fn else ""}:{r or node.func.attr}', ok,
       f'{ast.unparse(node)[:120]}', w.where(node))


def derived(w, e, fn):
  if uses(e, gen_names(fn)):
    return True
  return any(isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self' and 'rng' in x.attr for x in ast.walk(e))


def set_iteration(A, w, node):
  e = node.iter
  src = e
  if isinstance(src, ast.Call) and dotted(src.func) in ('list', 'tuple', 'enumerate', 'iter') and src.args:
    src = src.args[0]
  strings = None
  if isinstance(src, ast.Set):
    strings = any(isinstance(x, (ast.JoinedStr,)) or isinstance(x, ast.Constant) and isinstance(x.value, str) for x in src.elts)
  elif isinstance(src, ast.Call) and dotted(src.func) in ('set', 'frozenset') and src.args:
    strings = any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in ast.walk(src.args[0])) or any(
        isinstance(x, ast.Call) and dotted(x.func) == 'str' for x in ast.walk(src.args[0]))
  if strings is None:
    return
  A.ob('set-iteration', f'{w.mod.name[13:]}.{w.scope[e].name}', not strings, f'iterates over {ast.unparse(e)[:80]}', w.where(e))


# ---------------------------------------------------------------- (4) shared state
MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'setdefault', 'add', 'discard', 'popitem', 'sort', 'reverse'}


def shared_state(A, m):
  w = lint.walk(m)
  mutable = {n for n, (k, _) in m.defs.items() if k == 'value'}
  classes = {n for n, (k, _) in m.defs.items() if k == 'class'}
  n = 0
  for sc in w.funcs:
    for x in ast.walk(sc.node):
      if w.function_of(x) is None:
        continue
      n += 1
      if isinstance(x, ast.Global):
        stored = {y.id for y in ast.walk(sc.node) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)} & set(x.names)
        if stored:
          A.ob('module-state', f'{m.name[13:]}.{sc.name}', False, f'rebinds the module variable {sorted(stored)}', w.where(x))
      tgt = None
      if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)):
        tgt = x.value
      elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
        tgt = x.func.value
      if tgt is None:
        continue
      d = dotted(tgt)
      if not d:
        continue
      head = d.split('.')[0]
      if head == 'cls' and sc.node.args.args and sc.node.args.args[0].arg == 'cls':
        A.ob('module-state', f'{m.name[13:]}.{sc.name}', False, f'writes the class: {ast.unparse(x)[:80]}', w.where(x))
      elif sc.resolve(head) is not None and (head in mutable or head in classes):
        A.ob('module-state', f'{m.name[13:]}.{sc.name}', False, f'writes module-level state: {ast.unparse(x)[:80]}', w.where(x))
      elif d.startswith('self.__class__') or (isinstance(tgt, ast.Call) and dotted(tgt.func) == 'type'):
        A.ob('module-state', f'{m.name[13:]}.{sc.name}', False, f'writes the class: {ast.unparse(x)[:80]}', w.where(x))
  A.ob('module-state-scanned', m.name[13:], True, f'{len(w.funcs)} functions', m.rel)


# ---------------------------------------------------------------- (2) seeding
def generator_attrs(A, c):
  """Attributes in which a component keeps a generator (or something bound to one) between calls."""
  out = {}
  for k in A.prog.mro(c):
    for f in k.methods.values():
      names = {a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs if is_gen_param(f.mod, a)}
      for n in ast.walk(f.node):
        if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
          for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self' and keeps(n.value, names, f.mod):
              out[t.attr] = f'{k.mod.rel}:{n.lineno}'
  return out


def keeps(e, names, mod):
  """The expression is a generator itself or a callable bound to one (not a number drawn from it)."""
  if isinstance(e, ast.Name):
    return e.id in names
  if isinstance(e, ast.Attribute):
    return isinstance(e.value, ast.Name) and e.value.id in names
  if isinstance(e, ast.IfExp):
    return keeps(e.body, names, mod) or keeps(e.orelse, names, mod)
  if isinstance(e, ast.BoolOp):
    return any(keeps(x, names, mod) for x in e.values)
  if isinstance(e, ast.Call):
    d = dotted(e.func)
    r = mod.resolve_name(d) if d else ''
    if r and r.endswith(('default_rng', 'RandomState')):
      return True
    if r in ('functools.partial', 'typing.cast', 'copy.copy', 'copy.deepcopy'):
      return any(keeps(a, names, mod) for a in e.args)
    if r in ('tuple', 'list', 'dict'):
      return any(keeps(a, names, mod) for a in e.args)
    if isinstance(e.func, ast.Attribute) and e.func.attr in ('spawn',) and keeps(e.func.value, names, mod):
      return True
  if isinstance(e, (ast.Tuple, ast.List)):
    return any(keeps(x, names, mod) for x in e.elts)
  if isinstance(e, ast.Lambda):
    return any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(e.body))
  return False


def seeding(A, comp):
  env = A.prog.cls('putting_dune_environment.PuttingDuneEnvironment')
  me = mk('param', 'self')
  q = env.qual[len('putting_dune.'):]
  gens = generator_attrs(A, env)
  init = A.node_of(env, '__init__', no_inline=lambda f: f.cls is not None and f.cls is not env)
  holder = {k: v for (b, k), v in init.it.heap.items() if b is me}
  ad = [k for k, v in holder.items() if init.it.closed(v) is mk('param', 'action_adapter')]
  A.ob('adapter-kept', 'PuttingDuneEnvironment.__init__', len(ad) == 1 or None, f'{ad}', init.where)
  run = A.method(q, 'seed')
  for g, where in gens.items():
    v = run.self_attr(g)
    want = mk('call', mk('glob', 'numpy.random.default_rng'), (mk('param', 'seed'),), (), None)
    ok = v is not None and is_fresh(v)
    A.ob('seed-installs', f'PuttingDuneEnvironment.seed:{g}', ok if v is not None else False,
         f'generator becomes {T.show(v, 4) if v is not None else "unchanged"}', run.where)
  A.ob('generator-found', 'PuttingDuneEnvironment', len(gens) >= 1 or None, f'{sorted(gens)}', run.where)
  for kind in ('feature', 'goal', 'rates', 'sim'):
    for c in comp[kind]:
      ga = generator_attrs(A, c)
      A.ob('keeps-no-generator', c.name, not ga, f'keeps a generator in {ga}, which seeding does not replace' if ga else 'none kept', next(iter(ga.values()), c.mod.rel))
  for c in comp['adapter']:
    ga = generator_attrs(A, c)
    if not ga or not ad:
      A.ob('keeps-no-generator', c.name, True if not ga else None, 'none kept', c.mod.rel)
      continue
    slot = mk('attr', me, ad[0])

    def setup(it, slot=slot, c=c):
      it.types[slot] = ('cls', c)
      it.exact.add(slot)
    r = A.method(q, 'seed', setup=setup)
    for g, where in ga.items():
      v = r.heap(slot, g)
      if v is not None and v.op == 'phi' and v.args[0].op == 'hasattr':
        v = v.args[1] if v.args[0].args[1] is T.const(g) else v
      ok = v is not None and is_fresh(v)
      A.ob('seed-replaces', f'{c.name}.{g}', ok, f'after seed(): {T.show(v, 4) if v is not None else "the generator it was built with"}', where)


def is_fresh(v):
  return (v.op == 'call' and v.args[0].op == 'glob' and v.args[0].args[0] == 'numpy.random.default_rng' and len(v.args[1]) + len(v.args[2]) == 1
          and (list(v.args[1]) + [x for _, x in v.args[2]])[0] is mk('param', 'seed'))


# ---------------------------------------------------------------- (3) reset
OUTSIDE = {'__init__', 'seed', 'add_observer', 'remove_observer', 'close'}


def written(A, c, f, seen=None):
  """Attributes of self that f (or a helper it calls on self) may write."""
  seen = seen if seen is not None else set()
  if f in seen:
    return set()
  seen.add(f)
  out = set()
  for n in ast.walk(f.node):
    if isinstance(n, (ast.Attribute,)) and isinstance(n.value, ast.Name) and n.value.id == 'self':
      if isinstance(n.ctx, (ast.Store, ast.Del)):
        out.add(n.attr)
    t = None
    if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
      t = n.value
    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
      if n.func.attr in MUTATORS:
        t = n.func.value
      if isinstance(n.func.value, ast.Name) and n.func.value.id == 'self':
        g = A.prog.lookup(c, n.func.attr)
        if g is not None and g.name != 'reset':
          out |= written(A, c, g, seen)
    while isinstance(t, (ast.Subscript, ast.Attribute)):
      if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
        out.add(t.attr)
      t = t.value
  return out


def resets(A, c):
  ops, w = [], {}
  for k in reversed(A.prog.mro(c)):
    for f in k.methods.values():
      if f.name in OUTSIDE or f.name == 'reset' or f.name in A.prog.constructors(c) or f.is_static or f.is_classmethod:
        continue
      if A.prog.lookup(c, f.name) is not f:
        continue
      if f.name.startswith('_') and called_only_by(A, c, f.name, {'reset', '__init__'} | OUTSIDE):
        continue
      ops.append(f.name)
      for a in written(A, c, f):
        w.setdefault(a, f.name)
  reset = A.prog.lookup(c, 'reset')
  if reset is None:
    A.ob('state-reset', c.name, not w or None, f'no reset; writes {sorted(w)}', c.mod.rel)
    return
  run = A.node_of(c, 'reset', no_inline=lambda f: f.cls is not None and f.cls not in A.prog.mro(c))
  me = mk('param', 'self')
  steps = dict(w)
  for a in written(A, c, reset):
    w.setdefault(a, 'reset')
  for a, by in sorted(w.items()):
    v = run.self_attr(a)
    if v is None:
      # only state that is read before it is written again matters
      ok = False if reads_old(A, c, a, ops) else True
      A.ob('state-reset', f'{c.name}.{a}', ok, f'written by {by}, not by reset' + ('' if not ok else ', but never read'), run.where)
      continue
    olds = sorted({n for x in T.subterms(v) for n in [old_name(x, me)] if n in w})
    ok = not olds
    if olds and not set(olds) & set(steps) and not reads_elsewhere(A, c, a):
      ok = True       # a counter nobody consumes
    elif olds and not set(olds) & set(steps) and not any(x.op in ('drawn', 'opaque', 'param') and x is not me for x in T.subterms(v)):
      ok = None       # a value computed once from constants only
    A.ob('state-reset', f'{c.name}.{a}', ok, f'reset sets {T.show(v, 4)[:200]}' + (f', which depends on {olds} of the previous episode' if olds else ''), run.where)
  A.ob('state-scanned', c.name, True, f'operations {sorted(ops)} write {sorted(w)}', run.where)


def old_name(x, me):
  if x.op in ('attr', 'hasattr', 'getattr') and len(x.args) >= 2 and x.args[0] is me:
    n = x.args[1]
    return n if isinstance(n, str) else (n.args[0] if hasattr(n, 'op') and n.op == 'const' else None)
  if x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0] in ('hasattr', 'getattr') and len(x.args[1]) >= 2 and x.args[1][0] is me:
    n = x.args[1][1]
    return n.args[0] if n.op == 'const' else None
  return None


def reads_elsewhere(A, c, a):
  for k in A.prog.mro(c):
    for f in k.methods.values():
      if f.name == 'reset' or f.name in A.prog.constructors(c):
        continue
      if any(isinstance(n, ast.Attribute) and n.attr == a and isinstance(n.value, ast.Name) and n.value.id == 'self' for n in ast.walk(f.node)):
        return True
  return False


def reads_old(A, c, a, ops):
  for k in A.prog.mro(c):
    for f in k.methods.values():
      if f.name in A.prog.constructors(c):
        continue
      for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and n.attr == a and isinstance(n.value, ast.Name) and n.value.id == 'self' and isinstance(n.ctx, ast.Load):
          return True
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute) and n.target.attr == a:
          return True
  return False


def called_only_by(A, c, name, who):
  callers = set()
  for k in A.prog.mro(c):
    for f in k.methods.values():
      for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.value, ast.Name) and n.value.id == 'self':
          callers.add(f.name)
  return bool(callers) and callers <= who
