"""Shared: runs of every action adapter, with attributes configured in the constructor replaced by their definition."""
import ast

from .. import arr, terms as T
from ..core import field
from ..terms import mk, const

ME = mk('param', 'self')
ACTION = mk('param', 'action')
KW = dict(names=['previous_observation', 'action'], types={'previous_observation': 'microscope_utils.MicroscopeObservation'},
          no_inline=lambda f: 'frame_to_' in f.name, pure=('graphene.get_silicon_positions',))
KNOWN = {'DirectActionAdapter': 'direct', 'DeltaPositionActionAdapter': 'delta', 'RelativeToSiliconActionAdapter': 'relative',
         'RelativeToSiliconMaterialFrameActionAdapter': 'material'}


class Adapter:
  def __init__(self, A, c):
    self.A, self.c, self.name = A, c, c.name
    self.run = A.node_of(c, 'get_action', **KW)
    self.spec = A.node_of(c, 'action_spec')
    self.where = self.run.where
    self.config = configured(A, c)
    self.shapes = shapes(A, c)
    self.control = self.one_control()

  def sub(self, t):
    """Unversioned, with configured attributes replaced."""
    if t is None:
      return None
    t = self.run.it.closed(t)
    t = T.subst(t, lambda x: self.config.get(x))
    return T.rewrite(t, bare)

  def one_control(self):
    r = self.run.result
    return r.args[0] if r.op in ('list', 'tuple') and len(r.args) == 1 else None

  def controls(self):
    r = self.run.result
    return list(r.args) if r.op in ('list', 'tuple') else None

  def cases(self):
    """[(condition or None, value, spec record)] : the configurations the spec distinguishes."""
    s = self.sub(self.spec.result)
    out = []

    def go(t, facts):
      if t.op == 'phi':
        go(t.args[1], facts + [(t.args[0], T.TRUE)])
        go(t.args[2], facts + [(t.args[0], T.FALSE)])
      else:
        out.append((facts, t))
    go(s, [])
    return out

  def under(self, t, facts):
    for c, v in facts:
      t = T.subst(t, lambda x: v if x is c else None)
    return t


def bare(t):
  """Receiver versions do not matter to a single call of an adapter."""
  if t.op == 'at':
    return t.args[0]
  if t.op == 'mcall' and len(t.args) > 4 and t.args[4] is not None:
    return mk('mcall', *t.args[:4], None)
  if t.op == 'call' and len(t.args) > 3 and t.args[3] is not None:
    return mk('call', *t.args[:3], None)
  return None


def configured(A, c):
  """attr(self, a) -> constructor value, for attributes only the constructor writes."""
  f = A.prog.lookup(c, '__init__')
  if f is None:
    return {}
  run = A.node_of(c, '__init__')
  elsewhere = set()
  for k in A.prog.mro(c):
    for m in k.methods.values():
      for n in ast.walk(m.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and m.name not in A.prog.constructors(c):
          elsewhere.add(n.attr)
  out = {}
  for (base, a), v in list(run.it.heap.items()):
    if base is ME and a not in elsewhere:
      v = run.it.closed(v)
      if not T.contains(v, lambda x: x.op in ('unknown', 'bottom', 'obj')) and not T.contains_term(v, ME):
        out[mk('attr', ME, a)] = v
  return out


def shapes(A, c):
  """Shapes of constructor parameters (by annotation) and of array attributes (by what the methods store in them)."""
  out = {}
  f = A.prog.lookup(c, '__init__')
  if f is not None:
    for a in f.node.args.args + f.node.args.kwonlyargs:
      if isinstance(a.annotation, ast.Name) and a.annotation.id in ('float', 'int', 'bool'):
        out[mk('param', a.arg)] = ()
  for name in ('__init__', 'reset'):
    if A.prog.lookup(c, name) is None:
      continue
    run = A.node_of(c, name)
    for (base, a), v in list(run.it.heap.items()):
      if base is ME:
        s = arr.Canon({}).known(T.rewrite(run.it.closed(v), bare))
        if s is not None:
          out[mk('attr', ME, a)] = s
  return out


def all_adapters(A):
  return [Adapter(A, c) for c in A.prog.subclasses('putting_dune.action_adapters.ActionAdapter')
          if c.qual.startswith('putting_dune.')]


def coords(ad, control, n):
  """The two coordinate expressions of a control's position for an action of n components."""
  p = ad.sub(field(control, 'position'))
  if p is None:
    return None, None
  cn = arr.Canon({**ad.shapes, ACTION: (n,)})
  if p.op == 'call' and p.args[0].op == 'glob' and p.args[0].args[0] in ('shapely.geometry.Point', 'shapely.Point', 'putting_dune.geometry.Point'):
    a = p.args[1]
    if len(a) == 1 and a[0].op in ('star',):
      a = (a[0].args[0],)
    try:
      if len(a) == 1:
        s = cn.shape(a[0])
        if s == (1, 2):
          return [cn.elem(a[0], (T.ZERO, const(k))) for k in (0, 1)], cn
        if s != (2,):
          return None, cn
        return [cn.elem(a[0], (const(k),)) for k in (0, 1)], cn
      if len(a) == 2:
        return [cn.canon(x) for x in a], cn
    except arr.NoShape:
      return None, cn
  return None, cn
