"""Shared: simulator runs against the reference model."""
from .. import terms as T
from ..core import field, call_label
from ..prog import AnalysisBroken
from ..terms import mk

SIM = 'simulator.PuttingDuneSimulator'
# pure queries kept opaque: their own behaviour is decided by other checks
PURE = ('imaging.generate_stem_image', 'graphene.get_silicon_positions')
OBS = ('observe_reset', 'observe_fov_change', 'observe_apply_control', 'observe_take_image', 'observe_generated_image',
       'observe_transition')
_cache = {}


def req(t):
  if t is None:
    raise AnalysisBroken('the simulator does not return a MicroscopeObservation record')
  return t


def material_opaque(f):
  """The material's operations are opaque to the simulator's clauses."""
  return f.qual.startswith('putting_dune.graphene.') and f.cls is not None


def pair(A, name):
  k = (id(A), name)
  if k not in _cache:
    params = {'reset': ['rng', 'return_image'], 'step_and_image': ['rng', 'controls', 'return_image']}[name]
    types = {}
    real = A.method(SIM, name, names=params, pure=PURE, no_inline=material_opaque)
    spec = A.spec(f'simulator.{name}', cls=SIM, types=None, pure=PURE, no_inline=material_opaque,
                  params=real.params or None)
    _cache[k] = (real, spec)
  return _cache[k]


def images_vs_time(A):
  pass


def duration_source(A):
  """The configured duration reaches the attribute the clock uses, and only the constructor writes it."""
  run = A.method(SIM, '__init__')
  real, _ = pair(A, 'reset')
  t = field(real.result, 'elapsed_time')
  if t is None or t.op != 'attr':
    return
  a = t.args[1]
  A.same('image-duration-configured', f'PuttingDuneSimulator.__init__', run.self_attr(a) or mk('undef'),
         mk('param', 'image_duration'), run.where)
  for name, f in sorted(A.prog.cls(SIM).methods.items()):
    if name in A.prog.constructors(A.prog.cls(SIM)):
      continue
    r = A.node(f)
    for e in r.events:
      if e.kind == 'setattr' and e.attr == a and e.base is mk('param', 'self'):
        A.ob('image-duration-constant', f'PuttingDuneSimulator.{name}', False, 'the configured image duration is overwritten', e.where)
  A.ob('image-duration-constant', 'PuttingDuneSimulator', True, f'{a} written in the constructor only')


MAT = 'graphene.PristineSingleDopedGraphene'
ME = mk('param', 'self')


def call_key(e):
  kw = tuple(x for k, v in sorted(e.kwargs.items()) for x in (k, v))
  return tuple(e.args) + kw


def protocol(e):
  if e.kind != 'call':
    return None
  n = e.d.get('name')
  if n in OBS:
    return ('call', n, mk('observer') if False else e.recv) + call_key(e)
  if n in ('apply_control', 'reset') and e.recv is not None and e.recv.op == 'attr' and e.recv.args[1] == 'material':
    return ('call', n, e.recv) + call_key(e)
  if e.d.get('fn') is not None and e.fn.op == 'glob' and e.fn.args[0] == 'putting_dune.imaging.generate_stem_image':
    return ('call', 'generate_stem_image') + call_key(e)
  return None


def material_order(e):
  if e.kind == 'call' and e.d.get('name') in ('apply_control', 'reset') and e.recv is not None and (
      e.recv.op == 'attr' and e.recv.args[1] == 'material'):
    return ('call', e.name)
  return None


def same_state(A, name, attrs):
  real, spec = pair(A, name)
  for a in attrs:
    a2 = A.attr(SIM, a)
    x, y = spec.self_attr(a2), real.self_attr(a2)
    if x is None and y is None:
      continue
    A.same('state-at-exit', f'PuttingDuneSimulator.{name}:{a}', y if y is not None else mk('unchanged'),
           x if x is not None else mk('unchanged'), real.where)


def control_pair(A):
  k = (id(A), 'apply_control')
  if k not in _cache:
    names = ['rng', 'control', 'observers']
    real = A.method(MAT, 'apply_control', names=names)
    spec = A.spec('graphene.apply_control', cls=MAT)
    _cache[k] = (real, spec)
  return _cache[k]


def transitions(e):
  if e.kind == 'call' and e.d.get('name') in OBS:
    return ('call', e.name, e.recv) + call_key(e)
  return grid_writes(e)


def grid_writes(e):
  if e.kind == 'setattr' and e.attr == 'grid' and e.base is ME:
    return ('set', 'grid', e.value)
  return None


def dwell(e):
  r = transitions(e)
  if r is not None:
    return r
  if e.kind == 'call' and not e.pure:
    if e.d.get('name'):
      return ('call', e.name, e.recv) + call_key(e)
    return ('call', e.fn) + call_key(e)
  return None


def observer_attr(A):
  """The attribute the notification loops range over."""
  real, _ = pair(A, 'reset')
  for e in real.events:
    if e.kind == 'call' and e.d.get('name') in OBS:
      for x in T.subterms(e.recv):
        if x.op == 'attr' and x.args[0] is ME:
          return x.args[1]
  return '_observers'


def registers(run, e, obs, how):
  p = mk('param', 'observer')
  base = mk('attr', ME, obs)
  if e.kind == 'mutate':
    return e.how == how and (e.base is base or run.it.deref(e.base) is base) and tuple(e.args) == (p,)
  if e.kind == 'setattr' and e.attr == obs:
    if how == 'append':
      return T.contains_term(e.value, base) and T.contains_term(e.value, p) and e.value.op == 'concat'
    return T.contains_term(e.value, base) and T.contains_term(e.value, p)
  return False


def seq_state(run, attr):
  """Final contents of a sequence attribute of self."""
  v = run.it.heap.get((ME, attr))
  if v is None:
    base = mk('attr', ME, attr)
    v = run.it.heap.get((base, '[]'))
    if v is None:
      return mk('unchanged')
  v = run.it.closed(v)
  return T.subst(v, lambda x: x.args[0] if x.op == 'init' else None)


def exc_name(e):
  t = e.exc
  if t.op == 'call' and t.args[0].op == 'glob':
    return t.args[0].args[0].split('.')[-1]
  if t.op in ('new', 'obj'):
    return t.args[0].split('.')[-1]
  if t.op == 'glob':
    return t.args[0].split('.')[-1]
  return None


def fresh_effect(e):
  b = e.d.get('base')
  return b is not None and b.op == 'ref'


def drive(A, c, ops, fresh=True):
  """Constructs the object abstractly and applies the operations in order."""
  from ..absint import Interp, Frame
  it = Interp(A.prog)
  src = _driver_frame(it, c)
  o = mk('obj', c.qual, 1)
  it.exact.add(o)
  init = A.prog.lookup(c, '__init__')
  out = {'unset_reads': set()}
  if init is not None:
    it.call_func(init, [o], _symbolic(it, init), init.node)
  marks = len(it.events)
  orig = it.raw_attr

  def raw(base, a):
    if base is o:
      out['unset_reads'].add(a)
    return orig(base, a)
  it.raw_attr = raw
  for m in ops:
    f = A.prog.lookup(c, m)
    it.call_func(f, [o], _symbolic(it, f), f.node)
    if not it.alive:
      break
  out['alive'] = it.alive
  out['events'] = it.events[marks:]
  A.analysed |= it.inlined
  out['it'] = it
  return out


def _driver_frame(it, c):
  from ..absint import Frame
  f = next(iter(c.methods.values()))
  fr = Frame(f, {}, c.mod, c)
  it.frames.append(fr)
  return fr


def _symbolic(it, f):
  a = f.node.args
  out = {}
  pos = a.posonlyargs + a.args
  if f.cls is not None and not f.is_static:
    pos = pos[1:]
  dflt = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]] if a.defaults else [], a.defaults))
  for x in pos + a.kwonlyargs:
    p = mk('param', f'{f.name}.{x.arg}')
    ty = it.prog.ann_type(f.mod, x.annotation)
    if ty is not None:
      it.types[p] = ty
    out[x.arg] = p
  return out


def attr_writers(A, attr, cls):
  """Functions writing <material>.attr anywhere in the package (syntactic sites, resolved by base)."""
  import ast
  from ..prog import dotted
  out = []
  for m in A.prog.modules.values():
    if m.name.startswith('pdspec'):
      continue
    for n in ast.walk(m.tree):
      tgts = []
      if isinstance(n, ast.Assign):
        tgts = n.targets
      elif isinstance(n, (ast.AugAssign, ast.AnnAssign)) and (not isinstance(n, ast.AnnAssign) or n.value is not None):
        tgts = [n.target]
      flat = []
      for t in tgts:
        flat += list(t.elts) if isinstance(t, (ast.Tuple, ast.List)) else [t]
      for t in flat:
        if isinstance(t, ast.Attribute) and t.attr == attr:
          base = dotted(t.value) or ''
          owner = enclosing(m, n)
          if base == 'self':
            if owner and owner.split('.')[0] == cls.split('.')[1]:
              out.append((owner, f'{m.rel}:{n.lineno}'))
          elif base.split('.')[-1] in ('material', '_material'):
            out.append((owner or m.name, f'{m.rel}:{n.lineno}'))
  return sorted(set(out))


def enclosing(m, node):
  import ast
  best = None
  for n in ast.walk(m.tree):
    if isinstance(n, ast.ClassDef):
      for f in n.body:
        if isinstance(f, (ast.FunctionDef,)) and f.lineno <= node.lineno <= f.end_lineno:
          best = f'{n.name}.{f.name}'
    elif isinstance(n, ast.FunctionDef) and best is None and n.lineno <= node.lineno <= n.end_lineno:
      best = n.name
  return best


def only_called_from(A, w, allowed):
  """A private helper all of whose call sites are in the allowed methods (transitively)."""
  import ast
  cls, _, name = w.rpartition('.')
  if not name.startswith('_'):
    return False
  c = next((k for k in A.prog.classes.values() if k.name == cls), None)
  if c is None:
    return False
  callers = set()
  for n, f in c.methods.items():
    for x in ast.walk(f.node):
      if isinstance(x, ast.Attribute) and x.attr == name:
        callers.add(n)
  callers.discard(name)
  return bool(callers) and all(x in allowed or only_called_from(A, f'{cls}.{x}', allowed) for x in callers)
