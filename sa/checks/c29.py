"""The registries are evaluated as constants; each entry is then constructed by abstract interpretation. Decided per entry: every component is
built within that construction (no object built at import time, cached, or kept in a default comes back), the components are of the
kinds an experiment needs, and agent, adapter, feature constructor and goal agree on action shape, bounds, observation layout and units.
The lookup functions are evaluated on every registered name and on an unregistered one; registering keeps all earlier entries."""
import ast

from .. import absint, libnf, terms as T
from ..terms import const, mk

MIN_OBLIGATIONS = 120
TECHNIQUE = 'abstract interpretation of the registered constructors; allocation-site (freshness) query; shape and unit agreement'
REG = 'putting_dune.experiments.registry'
EXP = 'putting_dune.experiments.experiments'
KINDS = {'action_adapter': 'putting_dune.action_adapters.ActionAdapter', 'feature_constructor': 'putting_dune.feature_constructors.FeatureConstructor',
         'goal': 'putting_dune.goals.Goal', 'material': 'putting_dune.graphene.Material', 'agent': 'putting_dune.agents.agent_lib.Agent'}
# Agents that read and write fixed units: (feature constructor, adapter), from the agent's own documentation.
UNITS = {'putting_dune.agents.agent_lib.GreedyAgent': ('putting_dune.feature_constructors.SingleSiliconMaterialFrameFeatureConstructor',
                                                       'putting_dune.action_adapters.RelativeToSiliconMaterialFrameActionAdapter')}
CACHES = {'functools.lru_cache', 'functools.cache', 'functools.cached_property'}
DICTS = {'frozendict.frozendict', 'dict', 'types.MappingProxyType', 'immutabledict.immutabledict'}
OTHER = const('<a name nobody registered>')


def entries(t):
  """Key -> value of a dictionary term, or None."""
  if t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] in DICTS and len(t.args[1]) == 1:
    return entries(t.args[1][0])
  if t.op in ('init', 'seqcopy'):
    return entries(t.args[0])
  if t.op == 'dict':
    out = {}
    for k, v in t.args:
      if k is None or not isinstance(k, T.Term):
        return None
      out[k] = v
    return out
  if t.op == 'dupdate':
    a, b = entries(t.args[0]), entries(t.args[1])
    return None if a is None or b is None else {**a, **b}
  if t.op in ('dset', 'store'):
    a = entries(t.args[0])
    return None if a is None else {**a, t.args[1]: t.args[2]}
  return None


def look(t, name, val):
  """t with the name known."""
  def f(x):
    if x is name:
      return val
    if x.op == 'in':
      d = x.args[1]
      if d.op == 'mcall' and d.args[0] == 'keys':
        d = d.args[1]
      d = entries(d)
      if d is not None and T.is_const(x.args[0]):
        return T.TRUE if x.args[0] in d else T.FALSE if all(map(T.is_const, d)) else None
    if x.op == 'item':
      d = entries(x.args[0])
      if d is not None and x.args[1] in d:
        return d[x.args[1]]
      if d is not None and T.is_const(x.args[1]) and all(map(T.is_const, d)):
        return mk('KeyError', x.args[1])
    if x.op == 'mcall' and x.args[0] in ('get', 'pop') and x.args[2]:
      d = entries(x.args[1])
      if d is not None and T.is_const(x.args[2][0]) and all(map(T.is_const, d)):
        return d.get(x.args[2][0]) or (x.args[2][1] if len(x.args[2]) > 1 else T.NONE)
    if x.op == 'is' and x.args[1] is T.NONE and x.args[0].op == 'new' or x.op == 'is' and x.args[0] is T.NONE and x.args[1].op == 'new':
      return T.FALSE
    return None
  return T.rewrite(t, f)


def check(A):
  A.nf, A.vocab = libnf.nf, True
  m = A.prog.modules[REG]
  tables = {}
  for n, (k, node) in sorted(m.defs.items()):
    f = A.prog.funcs.get(f'{REG}.{n}')
    if f is None:
      continue
    if n.startswith('create_') and len(f.params()[0]) == 1:
      tables[n] = lookup(A, f)
  for n in sorted(m.defs):
    f = A.prog.funcs.get(f'{REG}.{n}')
    if f is not None and n.startswith('register_'):
      register(A, f, tables.get('create_' + n[len('register_'):]) or tables.get('create_' + n[len('register_'):].replace('experiment', '').strip('_') + '_experiment'))
  models = {}
  for fn, d in sorted(tables.items()):
    for k, v in (d or {}).items():
      experiment(A, fn.replace('create_', '').replace('_experiment', ''), T.cval(k), v, models)
  for path, uses in sorted(models.items()):
    a = uses[0]
    for u in uses[1:]:
      A.ob('one-model-one-layout', f'{path}: {u[0]}', u[1:] == a[1:] if None not in u[1:] + a[1:] else None, f'{[T.show(x, 4) for x in u[1:] if x is not None]} here, {[T.show(x, 4) for x in a[1:] if x is not None]} in {a[0]}')


def lookup(A, f):
  r = A.node(f)
  name = mk('param', f.params()[0][0])
  want = (f.node.returns and A.prog.ann_type(f.mod, f.node.returns)) or None
  found = {}
  for t in [r.result] + [e.guard() for e in r.events if e.kind == 'raise']:
    for x in T.subterms(t):
      d = entries(x)
      if d and all(k.op == 'const' and isinstance(k.args[0], str) for k in d):
        for k, v in d.items():
          found.setdefault(k, v)
  raises = [e for e in r.events if e.kind == 'raise']

  def active(e, k):
    """Whether the raise is reached for the name."""
    for c in e.ctx:
      if c[0] == 'except':
        if not {'KeyError', 'LookupError', 'Exception'} & set(c[2]):
          return T.FALSE
        failed = any(x.op == 'KeyError' for q in r.events if q.kind in ('return', 'enter') for x in [look(r.it.closed(q.d.get('value', T.NONE)), name, k)])
        got = look(r.result, name, k)
        if not failed and got.op != 'KeyError':
          return T.FALSE if got.op == 'new' else mk('unknown')
    return look(r.it.closed(e.guard()), name, k)
  if not found:
    A.ob('name-resolves', f.name, None, f'returns {T.show(r.result, 4)}', f.where)
    return None
  for k in found:
    got = look(r.result, name, k)
    up = [e for e in raises if active(e, k) is not T.FALSE]
    ok = got.op == 'new' and (want is None or want[0] != 'cls' or got.args[0] == want[1].qual) and not up
    A.ob('name-resolves', f'{f.name}: {T.cval(k)}', ok if ok or got.op in ('new', 'KeyError', 'const') and not up or up and all(active(e, k) is T.TRUE for e in up) else None,
         f'gives {T.show(got, 3)}' if not up else 'raises', f.where)
    if ok and found[k] is not got:
      A.ob('name-resolves', f'{f.name}: {T.cval(k)} as registered', None, f'gives {T.show(got, 4)}', f.where)
    if ok:
      found[k] = got
  up = [e for e in raises if active(e, OTHER) is T.TRUE]
  maybe = [e for e in raises if e not in up and active(e, OTHER) is not T.FALSE]
  got = look(r.result, name, OTHER)
  kinds = {exc_name(e.d.get('exc')) for e in up}
  A.ob('unknown-name-raises', f.name, True if up and kinds == {'ValueError'} else None if maybe and not up else False if up or got.op in ('new', 'const', 'KeyError') or not raises else None,
       f'raises {kinds}' if up else f'gives {T.show(got, 3)}', f.where)
  return found


def exc_name(t):
  if isinstance(t, T.Term):
    if t.op in ('call',) and t.args[0].op == 'glob':
      return t.args[0].args[0].split('.')[-1]
    if t.op == 'glob':
      return t.args[0].split('.')[-1]
    if t.op in ('obj', 'new'):
      return t.args[0].split('.')[-1]
  return T.show(t, 2)


def register(A, f, table):
  r = A.node(f)
  ps = f.params()[0]
  if not table or len(ps) < 2:
    A.ob('registering-adds', f.name, None, '', f.where)
    return
  name, val = mk('param', ps[0]), mk('param', ps[1])
  sets = [e for e in r.events if e.kind == 'setglobal']
  if not sets:
    A.ob('registering-adds', f.name, None, 'no registry is replaced', f.where)
    return

  def after(k):
    """The registry afterwards, or None."""
    out = dict(table)
    for e in sets:
      g = look(r.it.closed(e.guard()), name, k)
      if g is T.FALSE:
        continue
      d = entries(look(r.it.closed(e.value), name, k))
      if g is not T.TRUE or d is None:
        return None
      out = d
    return out
  new = after(OTHER)
  A.ob('registering-adds', f.name, None if new is None else new.get(OTHER) is val, 'the new name resolves to the experiment given', f.where)
  lost = [T.cval(k) for k in table if new is not None and new.get(k) is not table[k]]
  A.ob('registering-keeps', f.name, None if new is None else not lost, f'loses {lost}' if lost else 'all earlier names kept', f.where)
  old = {k: after(k) for k in table}
  A.ob('registered-once', f.name, None if None in old.values() else all(d == table for d in old.values()), 'registering a name again keeps the first experiment', f.where)


def known(t):
  """Seconds are not zero; array bounds by keyword or position."""
  def f(x):
    if x is mk('unit', 'SECOND') or x.op == 'unit':
      return T.ONE
    if x.op == 'attr' and x.args[1] in ('shape', 'minimum', 'maximum', 'dtype'):
      v = spec_arg(x.args[0], x.args[1])
      return v
    return None
  return T.rewrite(t, f)


def spec_arg(t, name):
  if t.op != 'call' or t.args[0].op != 'glob' or not t.args[0].args[0].startswith('dm_env.specs.'):
    return None
  kw = dict(t.args[2])
  if name in kw:
    return kw[name]
  order = ['shape', 'dtype', 'minimum', 'maximum', 'name'] if t.args[0].args[0].endswith('BoundedArray') else ['shape', 'dtype', 'name']
  i = order.index(name) if name in order else 99
  return t.args[1][i] if i < len(t.args[1]) else None


def plain(t):
  return T.rewrite(libnf.nf(t), lambda x: mk('tuple', *x.args) if x.op == 'list' else x.args[0] if x.op == 'seqcopy' and x.args[0].op == 'tuple' else None)


def experiment(A, table, name, v, models):
  tag = f'{table} {name}'
  has = dict(v.args[1])
  rng = mk('param', 'rng')
  run = lambda s: A._register(A.spec('registry.' + s, params={'experiment': v, 'rng': rng}))
  a = run('adapters')
  parts = dict(a.result.args[1]) if a.result.op == 'new' else None
  if parts is None:
    A.ob('components', tag, False if a.result is T.NONE else None, f'get_adapters_and_goal gives {T.show(a.result, 4)}')
    return
  for n in ('action_adapter', 'feature_constructor', 'goal'):
    component(A, tag, n, parts.get(n, absint.UNDEF), a)
  if 'get_simulator_config' in has:
    s = run('simulator')
    c = dict(s.result.args[1]) if s.result.op == 'new' else None
    if c is None:
      A.ob('components', f'{tag}: simulator', False if s.result is T.NONE else None, f'get_simulator_config gives {T.show(s.result, 4)}')
    else:
      component(A, tag, 'material', c.get('material', absint.UNDEF), s)
      d = c.get('image_duration', absint.UNDEF)
      k = known(d)
      A.ob('image-duration', tag, T.cval(k) > 0 and d is not k if T.is_num(k) else None, f'{T.show(d, 4)}')
  shape = plain(known(run('action_shape').result))
  obs = plain(known(run('observation_spec').result))
  fc = A.prog.classes.get(parts['feature_constructor'].args[0]) if parts.get('feature_constructor') is not None and parts['feature_constructor'].op in ('obj', 'new') else None
  goal_fits(A, tag, v)
  if 'get_agent' not in has:
    return
  g = run('agent_with_adapters')
  component(A, tag, 'agent', g.result, g, skip={parts.get(n) for n in parts})
  if g.result.op not in ('obj', 'new'):
    return
  c = A.prog.classes.get(g.result.args[0])
  act = run('act')
  out = plain(known(act.result))
  bounds = plain(known(run('action_bounds').result))
  for q in A.prog.mro(c):
    if q.qual in UNITS:
      for n, w in zip(('feature_constructor', 'action_adapter'), UNITS[q.qual]):
        t = parts.get(n)
        k = A.prog.classes.get(t.args[0]) if t is not None and t.op in ('obj', 'new') else None
        A.ob('agent-units', f'{tag}: {n}', None if k is None else A.prog.is_subclass(k, w), f'{c.name} needs {w.split(".")[-1]}, gets {k.name if k else "?"}')
  w = width(out)
  draw = drawn(out, rng)
  if draw is not None:
    low, high, size = draw
    for n, x, y in (('size', size, shape), ('low', low, bounds.args[0]), ('high', high, bounds.args[1])):
      A.ob('agent-acts-in-spec', f'{tag}: {n}', x is y if x is y or concrete(x) and concrete(y) else None, f'draws with {T.show(x, 4)}, adapter has {T.show(y, 4)}')
  elif w is not None:
    A.ob('agent-acts-in-spec', f'{tag}: size', shape is mk('tuple', const(w)) if concrete(shape) else None, f'{w} numbers for an action of shape {T.show(shape, 3)}')
  for e in act.events:
    if e.kind == 'assert' or e.kind == 'raise':
      need(A, tag, c, e, act, obs)
  for x in T.subterms(out):
    if x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0] == 'tensorflow.saved_model.load':
      model(A, tag, has['get_agent'], x, shape, obs, models)


def drawn(t, rng):
  """(low, high, size) of a uniform draw from the given generator."""
  if t.op == 'mcall' and t.args[0] == 'uniform' and t.args[1] is rng:
    args, kw = t.args[2], dict(t.args[3])
  elif t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[:2] == (rng, 'uniform'):
    args, kw = t.args[1], dict(t.args[2])
  else:
    return None
  out = list(args) + [kw[k] for k in ('low', 'high', 'size')[len(args):] if k in kw]
  return out if len(out) == 3 else None


def concrete(t):
  return not any(x.op in ('param', 'unknown', 'bottom', 'phi', 'maybe', 'attr', 'mcall', 'loopvar') for x in T.subterms(t))


def width(t):
  """Number of components of an action that is a sum or rotation of literal vectors."""
  if t.op == 'rot':
    return 2
  if t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] == 'numpy.array':
    x = t.args[1][0] if t.args[1] else dict(t.args[2]).get('a', dict(t.args[2]).get('object'))
    return len(x.args) if x is not None and x.op in ('tuple', 'list') else None
  return None


def need(A, tag, c, e, act, obs):
  """What the agent asserts of the observation's shape is what is declared."""
  for x in T.subterms(plain(act.it.closed(e.guard() if e.kind == 'raise' else e.d.get('cond') or T.TRUE))):
    if x.op == 'eq':
      for s, o in (x.args, x.args[::-1]):
        if s.op == 'attr' and s.args[1] == 'shape' and s.args[0].op == 'attr' and s.args[0].args[1] == 'observation' and o.op == 'tuple':
          d = spec_arg(obs, 'shape')
          A.ob('agent-reads-layout', f'{tag}', d is o if d is not None and concrete(d) else False if obs.op == 'dict' else None, f'{c.name} asserts {T.show(o, 3)}, the observations have {T.show(obs, 4)}', e.where)


def goal_fits(A, tag, v):
  """get_features does not reject the goal of the experiment."""
  r = A._register(A.spec('registry.features', params={'experiment': v}, types={'observation': 'microscope_utils.MicroscopeObservation'}))
  rs = [e for e in r.events if e.kind == 'raise' and exc_name(e.d.get('exc')) in ('ValueError', 'TypeError') and e.guard() is T.TRUE]
  A.ob('goal-fits', tag, not rs, 'the feature constructor takes this goal' if not rs else 'the feature constructor rejects this goal', rs[0].where if rs else '')


def component(A, tag, role, t, r, skip=()):
  cls = A.prog.classes.get(t.args[0]) if t.op in ('obj', 'new') else None
  if cls is None:
    A.ob('components', f'{tag}: {role}', False if t.op in ('const', 'undef', 'tuple', 'list', 'dict') or t is absint.UNDEF else None, f'is {T.show(t, 4)}')
    shared = t.op == 'call' and T.contains(t.args[0], lambda x: x.op == 'glob' and x.args[0] in CACHES) or t.op == 'glob' or t.op == 'attr' and t.args[0].op in ('glob', 'new') or t.op == 'item' and t.args[0].op in ('glob', 'init')
    A.ob('fresh', f'{tag}: {role}', False if shared else None, f'is {T.show(t, 4)}')
    return
  A.ob('components', f'{tag}: {role}', A.prog.is_subclass(cls, KINDS[role]), f'a {cls.name}')
  todo = [n for k in A.prog.mro(cls) for n, f in k.methods.items() if f.is_abstract and A.prog.lookup(cls, n).is_abstract]
  A.ob('complete', f'{tag}: {role}', not todo, f'{cls.name} leaves {sorted(set(todo))} abstract' if todo else cls.name)
  news = {e.d['result']: e for e in r.events if e.kind == 'new'}
  kept = {}
  for e in r.events:
    if e.kind == 'setglobal' or e.kind in ('setitem', 'mutate') and e.d.get('fresh') is False or e.kind == 'setattr' and e.base.op == 'glob':
      for v in [e.d.get('value')] + list(e.d.get('args') or ()):
        for y in T.subterms(r.it.closed(v)) if isinstance(v, T.Term) else ():
          if y.op in ('obj', 'new') and (e.kind == 'setglobal' or e.base.op != 'obj' and not (e.base.op == 'attr' and T.contains(e.base, lambda z: z.op == 'obj'))):
            kept.setdefault(y, e)
  seen = set()

  def visit(x, path):
    if x in seen or x in skip:
      return
    seen.add(x)
    e = news.get(x)
    c = A.prog.classes.get(x.args[0])
    keep = e and [f for f in e.d.get('stack', ()) if cached(A, f)]
    state = stateful(A, c) if c is not None else []
    top = path == role
    if top and role != 'feature_constructor' or state:
      ok = e is not None and not keep and x not in kept
      if x.op == 'new' and not top and not state:
        ok = True
      A.ob('fresh', f'{tag}: {path}', ok, f'{c.name} built in this construction' if ok else
           f'the same {c.name} comes back in every construction' + (f' ({keep[0].name} is cached)' if keep else ' (it is kept in a module-level object)' if x in kept else ' (built at import time)') + (f'; it changes {", ".join(state[:3])}' if state else ''),
           e.where if e is not None else '')
    for (b, attr), v in list(r.it.heap.items()):
      if b is x and isinstance(v, T.Term):
        held(v, f'{path}.{attr}')
    if x.op == 'new':
      for attr, v in x.args[1]:
        held(v, f'{path}.{attr}')
    if c is not None and e is not None:
      defaults(A, tag, path, c, e, r)

  def held(v, path):
    v = r.it.closed(v)
    for y in T.subterms(v):
      if y.op in ('obj', 'new') and y.args[0] in A.prog.classes:
        visit(y, path)
  visit(t, role)


def cached(A, f):
  return any(d and (d in CACHES or d.split('(')[0] in CACHES) for d in decorators(f))


def decorators(f):
  out = []
  for d in getattr(getattr(f, 'node', None), 'decorator_list', []):
    d = d.func if isinstance(d, ast.Call) else d
    out.append(f.mod.resolve_name(absint.dotted(d) or '') or absint.dotted(d))
  return out


DRAW = {'normal', 'uniform', 'integers', 'choice', 'random', 'shuffle', 'permutation', 'poisson', 'exponential', 'standard_normal', 'permuted'}
CHANGE = {'append', 'extend', 'insert', 'remove', 'clear', 'pop', 'popleft', 'appendleft', 'update', 'setdefault', 'add', 'discard', 'sort', 'reverse', 'fill', 'write'}


def stateful(A, c):
  """Attributes methods other than constructors change, or draw random numbers from."""
  out = []
  for k in A.prog.mro(c):
    for n, f in k.methods.items():
      if n in ('__init__', '__post_init__', '__new__') or not f.node.args.args:
        continue
      out += changed(f)
  return sorted(set(out))


def changed(f):
  me, out = f.node.args.args[0].arg, []

  def root(x):
    a = None
    while isinstance(x, (ast.Attribute, ast.Subscript)):
      if isinstance(x, ast.Attribute):
        a = x.attr
        base = x.value
        if isinstance(base, ast.Name) and base.id == me:
          return a
      x = x.value
    return None
  for n in ast.walk(f.node):
    ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
    for t in ts:
      for u in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
        a = root(u)
        if a:
          out.append(a)
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in CHANGE | DRAW:
      a = root(n.func.value)
      if a:
        out.append(a)
  return out


def inplace(f):
  """Attributes whose object is changed rather than replaced."""
  me, out = f.node.args.args[0].arg if f.node.args.args else None, {}

  def own(x):
    return x.attr if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me else None
  for n in ast.walk(f.node):
    ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, ast.AugAssign) else []
    for t in ts:
      if isinstance(t, ast.Subscript) and own(t.value):
        out.setdefault(own(t.value), n)
      if isinstance(n, ast.AugAssign) and own(t):
        out.setdefault(own(t), n)
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in CHANGE and own(n.func.value):
      out.setdefault(own(n.func.value), n)
  return out


def defaults(A, tag, path, c, e, r):
  """No attribute changed in place starts out as an object kept in the class body, in a default argument or at module level."""
  hit = {}
  for k in A.prog.mro(c):
    for n, f in k.methods.items():
      for a, node in inplace(f).items():
        hit.setdefault(a, (f, node))
  x = e.d['result']
  for a, (f, node) in sorted(hit.items()):
    where = f'{f.mod.rel}:{node.lineno}'
    v = r.it.heap.get((x, a))
    if v is None and x.op == 'new':
      v = dict(x.args[1]).get(a)
    if v is None:
      k = A.prog.lookup_const(c, a)
      if k is not None and isinstance(k[1], (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp, ast.DictComp)) and not (isinstance(k[1], ast.Call) and (absint.dotted(k[1].func) or '').endswith('field')):
        A.ob('own-state', f'{tag}: {path}.{a}', False, f'{k[0].name}.{a} is one object for all instances and is changed in place', where)
      continue
    if v.op == 'ref':
      A.ob('own-state', f'{tag}: {path}.{a}', True, 'created in the constructor', where)
    elif T.is_num(v) or v.op == 'const':
      A.ob('own-state', f'{tag}: {path}.{a}', True, 'a plain value', where)
    else:
      init = A.prog.lookup(c, '__init__')
      src = source(init, a) if init is not None else None
      if v.op == 'default':
        g = A.prog.funcs.get(v.args[0]) if isinstance(v.args[0], str) else None
        A.ob('own-state', f'{tag}: {path}.{a}', False if g is not None and v.args[1] in mutable_defaults(g) else None, f'changed in place; starts as the default of {v.args[1]}, one object for all calls', where)
        continue
      A.ob('own-state', f'{tag}: {path}.{a}', False if src and src in mutable_defaults(init) and src not in (e.d.get('kwargs') or {}) and taken(init, src) >= len(e.d.get('args') or ()) else None,
           f'changed in place; starts as {T.show(v, 4)}' + (f', the default of {src}' if src else ''), where)


def source(init, attr):
  """The parameter an attribute is set to as it is."""
  me = init.node.args.args[0].arg
  for n in ast.walk(init.node):
    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name):
      for t in n.targets:
        if isinstance(t, ast.Attribute) and t.attr == attr and isinstance(t.value, ast.Name) and t.value.id == me:
          return n.value.id
  return None


def mutable_defaults(f):
  a = f.node.args
  out = {}
  for p, d in list(zip((a.posonlyargs + a.args)[::-1], a.defaults[::-1])) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
    if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call)):
      out[p.arg] = d
  return out


def taken(f, name):
  names = [p.arg for p in f.node.args.posonlyargs + f.node.args.args][1:]
  return names.index(name) if name in names else 99


def model(A, tag, creator, load, shape, obs, models):
  path = load.args[1][0] if load.args[1] else mk('unknown')
  lits = [x.args[0] for x in T.subterms(path) if x.op == 'const' and isinstance(x.args[0], str) and x.args[0] not in ('model_weights',)]
  urls = [x.args[0] for x in T.subterms(creator) if x.op == 'const' and isinstance(x.args[0], str) and '://' in x.args[0]]
  names = [l for l in lits if l]
  if len(urls) == 1 and len(names) == 1:
    ok = urls[0].rsplit('/', 1)[-1].split('.')[0] == names[0]
    A.ob('model-name', tag, ok, f'model {names[0]} from {urls[0]}')
  if len(names) == 1:
    models.setdefault(names[0], []).append((tag, shape if concrete(shape) else None, obs if concrete(obs) else None))
