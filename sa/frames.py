"""The coordinate frame of every value in a value graph: microscope (fractions of the field of view) or material (angstroms)."""
import ast

from . import terms as T
from .prog import PKG, dotted

MAT, MIC = 'material', 'microscope'
TO_MAT, TO_MIC = 'microscope_frame_to_material_frame', 'material_frame_to_microscope_frame'
CONVERT = {TO_MAT: (MIC, MAT), TO_MIC: (MAT, MIC)}
FOV = f'{PKG}.microscope_utils.MicroscopeFieldOfView'
KNOWN_FIELDS = {(f'{PKG}.microscope_utils.Drift', 'drift'): MAT, (f'{PKG}.microscope_utils.Drift', 'jitter'): MIC,
                (FOV, 'width'): MAT, (FOV, 'height'): MAT, (FOV, 'offset'): MAT, (FOV, 'lower_left'): MAT, (FOV, 'upper_right'): MAT,
                (f'{PKG}.graphene.PristineSingleDopedGraphene', '_grid'): MAT, (f'{PKG}.simulator.PuttingDuneSimulator', '_fov'): None, (f'{PKG}.simulator.PuttingDuneSimulator', '_fov_scale'): MAT}
_XY = {'grid', 'goal_position', 'control_position'}
KNOWN_PARAMS = {f'{PKG}.plotting_utils.plot_microscope_frame': dict.fromkeys(_XY, MIC), f'{PKG}.plotting_utils.plot_material_frame': dict.fromkeys(_XY, MAT),
                f'{PKG}.plotting_utils.generate_video_from_simulator_events': {'goal_position': MAT},
                f'{PKG}.imaging.generate_grid_mask': {'grid': MIC}, f'{PKG}.imaging.generate_clean_image': {'grid': MIC}, f'{PKG}.imaging.generate_stem_image': {'grid': MIC}}
PARTS = {'atom_positions', 'position', 'coords', 'x', 'y', 'xy', 'T', 'real'}
OUTER = {'fov', 'image', 'label_image', 'elapsed_time', 'shape', 'size', 'ndim', 'dtype', 'atomic_numbers', 'dwell_time', 'voltage_kv', 'current_na'}
ALIKE = {'numpy.' + x for x in ('asarray', 'array', 'copy', 'reshape', 'ravel', 'squeeze', 'atleast_2d', 'atleast_1d', 'expand_dims', 'mean', 'median', 'min', 'max', 'amin', 'amax', 'abs', 'absolute',
                                'sort', 'unique', 'flip', 'transpose', 'nanmean', 'average', 'std', 'ptp', 'take', 'compress', 'repeat', 'tile', 'broadcast_to', 'ascontiguousarray', 'round', 'float32', 'float64',
                                'roll', 'delete', 'sum', 'cumsum', 'linalg.norm', 'diff', 'linspace', 'arange', 'meshgrid', 'negative', 'fabs', 'flatten')} | {
    'shapely.geometry.Point', 'shapely.Point', f'{PKG}.geometry.Point', 'shapely.geometry.point.Point', 'list', 'tuple', 'float', 'copy.deepcopy', 'copy.copy', 'tuple', 'next', 'iter', 'reversed', 'sorted', 'min', 'max', 'abs'}
TOGETHER = {'numpy.' + x for x in ('concatenate', 'stack', 'vstack', 'hstack', 'column_stack', 'minimum', 'maximum', 'append', 'add', 'subtract', 'isclose', 'allclose', 'array_equal', 'less', 'greater', 'less_equal',
                                   'greater_equal', 'equal', 'hypot', 'clip', 'setdiff1d', 'isin', 'insert')} | {'scipy.spatial.distance.cdist', 'scipy.spatial.distance_matrix', f'{PKG}.geometry.nearest_neighbors', 'math.dist', 'math.hypot'}
SAME_METHODS = {'reshape', 'copy', 'astype', 'flatten', 'ravel', 'squeeze', 'mean', 'min', 'max', 'clip', 'round', 'tolist', 'transpose', 'sum', 'item', 'repeat', 'take', '__array__', 'std', 'shift', 'append'}


def alias_frame(full):
  n = (full or '').rsplit('.', 1)[-1]
  return MAT if n.endswith('MaterialFrame') else MIC if n.endswith('MicroscopeFrame') else None


def ann_frame(prog, mod, ann):
  """The one frame named in an annotation."""
  if ann is None:
    return None
  if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
    try:
      ann = ast.parse(ann.value, mode='eval').body
    except SyntaxError:
      return None
  got = set()
  for n in ast.walk(ann):
    if isinstance(n, (ast.Attribute, ast.Name)):
      full = mod.resolve_name(dotted(n) or '') or ''
      if prog.newtype_of(full):
        got.add(alias_frame(full))
      elif prog.named_type(full)[0] == 'cls' and isinstance(ann, ast.Subscript) and any(isinstance(p, ast.Tuple) for p in [ann.slice]):
        pass
    elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n is not ann:
      return None
  got.discard(None)
  return got.pop() if len(got) == 1 else None


def elementwise(ann):
  """Annotations whose parts may have different frames."""
  if isinstance(ann, ast.Subscript):
    b = (dotted(ann.value) or '').split('.')[-1]
    return b in ('Tuple', 'tuple') and isinstance(ann.slice, ast.Tuple) and not any(isinstance(e, ast.Constant) and e.value is Ellipsis for e in ann.slice.elts)
  return False


def named(n):
  return MAT if n.endswith('material_frame') else MIC if n.endswith('microscope_frame') else None


def param_frame(prog, f, x):
  return KNOWN_PARAMS.get(f.qual, {}).get(x.arg) or ann_frame(prog, f.mod, x.annotation) or named(x.arg)


class Frames:
  def __init__(self, A, run):
    self.A, self.prog, self.run, self.it = A, A.prog, run, run.it
    self.memo, self.mixed, self.used = {}, {}, {}
    self.returns = {}
    self.casts = {}
    self.params = {}
    for e in run.events:
      if e.kind == 'cast':
        v, fr = self.it.closed(e.d['value']), alias_frame(e.d['alias'])
        vs = [v]
        if v.op == 'new' and v.args[0].endswith(('.AtomicGrid', '.BeamControl')):
          vs += [x for k, x in v.args[1] if k in ('atom_positions', 'position') and x.op != 'const']
        for x in vs:
          old = self.casts.get(x, fr)
          self.casts[x] = fr if old == fr else None
    self.root()

  def root(self):
    f = self.run.f
    a = f.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
      fr = param_frame(self.prog, f, x)
      if fr and not elementwise(x.annotation):
        self.params[x.arg] = fr

  def __call__(self, t):
    if t in self.memo:
      return self.memo[t]
    self.memo[t] = None
    fr = self.find(t)
    if fr is None and t.op not in ('const',) and self.casts.get(t):
      fr = self.casts[t]
    self.memo[t] = fr
    return fr

  def join(self, ts, where=None):
    got = {}
    for x in ts:
      fr = self(x)
      if fr:
        got.setdefault(fr, x)
    if len(got) == 2:
      if where is not None:
        self.mixed.setdefault(where, (got[MAT], got[MIC]))
      return None
    return next(iter(got), None)

  def field(self, t, name):
    """Frame of an attribute of t from its declaration."""
    c = self.it.cls_of(t)
    while c is not None:
      if (c.qual, name) in KNOWN_FIELDS:
        return KNOWN_FIELDS[(c.qual, name)]
      for n in ast.walk(c.node):
        if isinstance(n, ast.AnnAssign):
          tg = n.target
          nm = tg.id if isinstance(tg, ast.Name) else tg.attr if isinstance(tg, ast.Attribute) and isinstance(tg.value, ast.Name) and tg.value.id == 'self' else None
          if nm == name:
            fr = ann_frame(self.prog, c.mod, n.annotation)
            if fr:
              return fr
      f = self.prog.lookup(c, name)
      if f is not None and f.is_property:
        return ann_frame(self.prog, f.mod, f.node.returns)
      bs = [self.prog.classes.get(b) if isinstance(b, str) else b for b in (getattr(c, 'bases', None) or [])]
      c = next((b for b in bs if b is not None), None)
    return named(name)

  def returned(self, name):
    """Frame all methods of this name return."""
    if name not in self.returns:
      fs = [m for c in self.prog.classes.values() for m in [c.methods.get(name)] if m is not None and m.mod.name.startswith(PKG)]
      got = {ann_frame(self.prog, m.mod, m.node.returns) if not elementwise(m.node.returns) else None for m in fs}
      self.returns[name] = next(iter(got)) if len(got) == 1 else None
    return self.returns[name]

  def find(self, t):
    op = t.op
    if op == 'param':
      return self.params.get(t.args[0])
    if op in ('at', 'init', 'seqcopy', 'mutfree', 'entered', 'rot', 'store', 'sorted', 'slicecopy'):
      if op == 'store':
        return self.join([t.args[0], t.args[2]], t)
      return self(t.args[0])
    if op == 'attr':
      b, n = t.args[0], t.args[1]
      if n in OUTER:
        return None
      return self.field(b, n) or (self(b) if n in PARTS else None)
    if op == 'new':
      d = dict(t.args[1]) if len(t.args) > 1 and isinstance(t.args[1], tuple) else {}
      if t.args[0].endswith(('.AtomicGrid', '.BeamControl')):
        v = d.get('atom_positions') or d.get('position')
        return self(v) if v is not None else None
      return None
    if op == 'item':
      if t.args[0].op in ('tuple', 'list') and T.is_num(t.args[1]):
        return None
      f = self.callee(t.args[0])
      if f is not None and elementwise(f.node.returns):
        es, i = f.node.returns.slice.elts, T.cval(t.args[1]) if T.is_num(t.args[1]) else None
        return ann_frame(self.prog, f.mod, es[i]) if isinstance(i, int) and -len(es) <= i < len(es) else None
      return self(t.args[0])
    if op in ('star', 'muv'):
      return self(t.args[-1]) if isinstance(t.args[-1], T.Term) else None
    if op == 'fold':
      h, carried = t.args[0], t.args[2]
      first = self(carried[0][0])
      memo, self.memo = self.memo, {T.mk('rec', h, j): self(i) for j, (i, _) in enumerate(carried)}
      step = self(carried[0][1])
      self.memo = memo
      return first if step in (None, first) else step if first is None else None
    if op in ('list', 'tuple', 'concat'):
      return self.join(t.args)
    if op in ('mapl', 'mapa', 'mapf'):
      return self(t.args[2])
    if op == 'fill':
      return self.join([v for _, v in t.args[3]])
    if op == 'phi':
      return self.join(t.args[1:])
    if op == 'poly':
      return self.poly(t)
    if op in ('floordiv', 'mod'):
      return None
    if op == 'mcall':
      n = t.args[0]
      if n in CONVERT:
        return CONVERT[n][1]
      if n in SAME_METHODS:
        fr = self(t.args[1])
        if fr or n != 'shift':
          return fr
      return self.returned(n)
    if op == 'call' and t.args[0].op == 'glob':
      g = t.args[0].args[0]
      a = list(t.args[1]) + [v for k, v in t.args[2] if k not in ('axis', 'dtype', 'ord', 'key', 'default')]
      if g in ALIKE:
        return self.join(a)
      if g in TOGETHER:
        return self.join(a, t)
      if g == 'numpy.where' and len(a) == 3:
        return self.join(a[1:], t)
      f = self.prog.funcs.get(g)
      if f is not None and not elementwise(f.node.returns):
        return ann_frame(self.prog, f.mod, f.node.returns)
    if op == 'eq':
      self.join(t.args, t)
    return None

  def callee(self, t):
    """The repository function behind an opaque call."""
    if t.op == 'mcall':
      c = self.it.cls_of(t.args[1]) if isinstance(t.args[1], T.Term) else None
      return self.prog.lookup(c, t.args[0]) if c is not None else None
    if t.op == 'call':
      if t.args[0].op == 'glob' and t.args[0].args[0] in self.prog.funcs:
        return self.prog.funcs[t.args[0].args[0]]
      c = self.it.cls_of(t.args[0])
      return self.prog.lookup(c, '__call__') if c is not None else None

  def poly(self, t):
    got, simple = {}, True
    for c, m in T.poly_terms(t):
      n, mic, odd = 0, 0, False
      for b, e in m:
        fr = self(b)
        if fr == MAT:
          n += e
        elif fr == MIC:
          mic += e
        elif not neutral(b):
          odd = True
      if odd:
        continue
      if n >= 1:
        got.setdefault(MAT, m)
        simple = simple and n == 1
      elif n == 0 and mic >= 1:
        got.setdefault(MIC, m)
        simple = simple and mic == 1
    if len(got) == 2:
      self.mixed.setdefault(t, (got[MAT], got[MIC]))
      return None
    return next(iter(got), None) if simple else None


def neutral(b):
  """Factors known to be plain numbers."""
  return b.op == 'const' or T.is_num(b)
