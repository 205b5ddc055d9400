"""Frame conversions: both conversion methods of the field of view are evaluated abstractly for each supported input kind
(point, array, atomic grid, beam control); every output coordinate must equal, as a rational function, the affine map that
takes microscope (0,0)/(1,1) to the lower-left/upper-right corner (or its inverse); non-position fields must be the input's;
an unsupported kind must raise NotImplementedError. Shift / resize / zoom / offset / size are decided the same way."""
from .. import arr, chosen, libnf, terms as T, vec
from ..core import field
from ..terms import mk, const

MIN_OBLIGATIONS = 20
TECHNIQUE = 'symbolic evaluation to rational functions per coordinate and input kind'
ASSUMPTIONS = ['real arithmetic instead of floating point', 'width and height of a field of view are non-zero']
FOV = 'microscope_utils.MicroscopeFieldOfView'
GRID = 'putting_dune.microscope_utils.AtomicGrid'
CTRL = 'putting_dune.microscope_utils.BeamControl'
ME, P = mk('param', 'self'), mk('param', 'point')


def corner(name, k):
  return mk('attr', mk('attr', ME, name), 'xy'[k])


def size(k):
  return T.sub(corner('upper_right', k), corner('lower_left', k))


def want(name, v, k):
  lo = corner('lower_left', k)
  if name.startswith('microscope'):
    return T.add(T.mul(v, size(k)), lo)
  return T.div(T.sub(v, lo), size(k))


def expand(t):
  """width/height attributes of self in terms of the corners."""
  def f(x):
    if x.op == 'attr' and x.args[0] is ME and x.args[1] in ('width', 'height'):
      return size(0 if x.args[1] == 'width' else 1)
    if x.op == 'comp' and x.args[0].op == 'attr' and x.args[0].args[1] == 'atom_positions':
      return None
    return None
  return T.rewrite(t, f)


def decided(t):
  return not T.contains(t, lambda x: x.op in ('unknown', 'bottom', 'maybe', 'isinstance', 'fill', 'fold', 'mapl', 'store', 'mcall') or (
      x.op == 'call' and x.args[0].op == 'glob' and not x.args[0].args[0].startswith(('numpy.', 'shapely.'))))


LOSSY = {'clip', 'minimum', 'maximum', 'fmin', 'fmax', 'round', 'around', 'rint', 'floor', 'ceil', 'trunc', 'abs', 'absolute', 'fabs', 'nan_to_num', 'min', 'max'}


def lossy(t):
  """An operation on the coordinate that takes different coordinates to one."""
  of = lambda *xs: any(isinstance(a, T.Term) and T.contains(a, lambda y: y is P) for a in xs)
  for x in T.subterms(t):
    if x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0].split('.')[-1] in LOSSY and of(*x.args[1], *(v for _, v in x.args[2])):
      return x
    if x.op == 'mcall' and x.args[0] in ('clip', 'round') and of(x.args[1]):
      return x
    if x.op == 'mcall' and x.args[0] == 'astype' and of(x.args[1]) and any('int' in T.show(a, 2) or 'float16' in T.show(a, 2) for a in x.args[2]):
      return x
  return None


def coordinate(A, rule, construct, got, expect, where):
  try:
    g = expand(got())
  except vec.NoComp as e:
    x = lossy(e.args[0]) if isinstance(e.args[0], T.Term) else None
    if x is not None:
      A.ob(rule, construct, False, f'not invertible: {T.show(x, 5)[:300]}', where)
      return
    A.ob(rule, construct, None, f'not a coordinate expression: {T.show(e.args[0], 6)[:300]}', where)
    return
  e = expect
  if T.rat_equal(g, e):
    A.ob(rule, construct, True, T.show(g, 6)[:200], where)
  else:
    A.ob(rule, construct, False if decided(g) or lossy(g) is not None else None, f'{T.show(g, 7)[:400]} instead of {T.show(e, 7)[:300]}', where)


def check(A):
  kinds = {
      'Point': ('ext', 'shapely.geometry.Point'),
      'ndarray': ('ext', 'numpy.ndarray'),
      'AtomicGrid': ('cls', A.prog.classes[GRID]),
      'BeamControl': ('cls', A.prog.classes[CTRL]),
      'unsupported': ('cls', A.prog.cls(FOV)),
  }
  pt = A.prog.named_type('putting_dune.geometry.Point')
  kinds['Point'] = pt
  for m in ('microscope_frame_to_material_frame', 'material_frame_to_microscope_frame'):
    for kind, ty in kinds.items():
      r = A.method(FOV, m, names=['point'], types={'point': ty}, exact_types=True)
      ts = outcomes(r.result) if kind not in ('unsupported', 'ndarray') else [(r.result, '')]
      for t, when in ts:
        conversion(A, m, kind, r, t, f'MicroscopeFieldOfView.{m}({kind})' + when)
  geometry_of_fov(A)
  A.nf, A.vocab = libnf.nf, True
  A.known |= {'rows'}
  for c, m, ref, names in ((FOV, 'get_atoms_in_bounds', 'atoms_in_view', ['grid', 'tolerance']), ('microscope_utils.BeamControl', 'shift', 'shifted_control', ['shift'])):
    r, s = A.method(c, m, names=names), A.know(A.spec('graphene.' + ref, cls=c))
    for f in A.prog.all_fields(A.prog.classes[GRID if c is FOV else CTRL]):
      if not f.startswith('Proto'):
        x = field(r.result, f)
        if x is None:
          A.ob('region-and-shift', f'{m}.{f}', None, T.show(r.result, 4), r.where)
        else:
          A.same('region-and-shift', f'{m}.{f}', *(chosen.masks(q, (mk('param', 'tolerance'),)) for q in (r.it.closed(x), s.it.closed(field(s.result, f)))), r.where)


def outcomes(t, when=''):
  """Results under each condition on the input; a grid without atoms has no position to convert."""
  if t.op == 'phi' and not T.contains(t.args[0], lambda x: x.op in ('isinstance', 'unknown')):
    c = t.args[0]
    count = lambda x: x.op in ('len', 'dim') or x.op == 'attr' and x.args[1] == 'size' or x.op == 'item' and x.args[0].op == 'attr' and x.args[0].args[1] == 'shape'
    empty = '' if c.op == 'eq' and T.ZERO in c.args and any(map(count, c.args)) else 'not ' if count(c) else None
    return [o for v, n in ((t.args[1], ''), (t.args[2], 'not ')) if n != empty
            for o in outcomes(v, when + f' when {n}{T.show(c, 3)[:80]}')]
  return [(t, when)]


def part(t, f):
  return mk('attr', P, f) if t is P else field(t, f)


def conversion(A, m, kind, r, t, c):
  if kind == 'unsupported':
    rs = [e for e in r.events if e.kind == 'raise']
    names = [exc(e) for e in rs]
    from ..core import unknown
    returns = t.op not in ('bottom', 'undef') and not (t.op == 'const' and t.args[0] is None)
    und = T.contains(t, lambda x: x.op == 'isinstance')
    ok = bool(rs) and all(n == 'NotImplementedError' for n in names) and (not r.it.alive or t.op in ('bottom', 'undef'))
    A.ob('unsupported-kind-refused', c, True if ok else (None if und else False), f'raises {names}, returns {T.show(t, 4)[:200]}', r.where)
    return
  if kind == 'Point':
    for k in (0, 1):
      coordinate(A, 'affine-map', f'{c}.{"xy"[k]}', lambda k=k: vec.point(t, k), want(m, mk('attr', P, 'xy'[k]), k), r.where)
  elif kind == 'ndarray':
    for k in (0, 1):
      coordinate(A, 'affine-map', f'{c}[..., {k}]', lambda k=k: vec.norm(vec.comp(t, k)), want(m, mk('comp', P, k), k), r.where)
    for what, shp in (('one position', (2,)), ('rows of positions', (mk('dim', P), 2))):
      got, cn = with_shape(r.it.closed(t), shp)
      A.ob('shape-kept', f'{c} of {what}', False if cn.mismatch else (None if got is None else got == shp),
           f'shape {got} {cn.mismatch[:1]} for {T.show(t, 4)[:200]}', r.where)
  elif kind == 'AtomicGrid':
    pos, num = part(t, 'atom_positions'), part(t, 'atomic_numbers')
    if pos is None:
      A.ob('affine-map', c, None, T.show(t, 5)[:300], r.where)
      return
    for k in (0, 1):
      coordinate(A, 'affine-map', f'{c}.atom_positions[:, {k}]', lambda k=k: vec.norm(vec.comp(pos, k)),
                 want(m, mk('comp', mk('attr', P, 'atom_positions'), k), k), r.where)
    A.same('carried-over', f'{c}.atomic_numbers', num, mk('attr', P, 'atomic_numbers'), r.where)
  else:
    pos = part(t, 'position')
    if pos is None:
      A.ob('affine-map', c, None, T.show(t, 5)[:300], r.where)
      return
    for k in (0, 1):
      coordinate(A, 'affine-map', f'{c}.position.{"xy"[k]}', lambda k=k: vec.point(pos, k),
                 want(m, mk('attr', mk('attr', P, 'position'), 'xy'[k]), k), r.where)
    for f in A.prog.all_fields(A.prog.classes[CTRL]):
      if f != 'position' and not f.startswith('Proto'):
        A.same('carried-over', f'{c}.{f}', part(t, f), mk('attr', P, f), r.where)


def geometry_of_fov(A):
  for n, k in (('width', 0), ('height', 1)):
    r = A.method(FOV, n)
    coordinate(A, 'fov-size', f'MicroscopeFieldOfView.{n}', lambda: vec.norm(r.result), size(k), r.where)
  mid = lambda k: T.mul(const(0.5), T.add(corner('lower_left', k), corner('upper_right', k)))
  r = A.method(FOV, 'offset')
  for k in (0, 1):
    coordinate(A, 'fov-centre', f'MicroscopeFieldOfView.offset.{"xy"[k]}', lambda: vec.point(r.result, k), mid(k), r.where)
  r = A.method(FOV, 'shift', names=['shift'])
  for n in ('lower_left', 'upper_right'):
    v = field(r.result, n)
    for k in (0, 1):
      coordinate(A, 'fov-shift', f'MicroscopeFieldOfView.shift.{n}.{"xy"[k]}', lambda: vec.point(v, k),
                 T.add(corner(n, k), mk('attr', mk('param', 'shift'), 'xy'[k])), r.where)
  r = A.method(FOV, 'resize', names=['new_width', 'new_height'])
  for n, sg in (('lower_left', -1), ('upper_right', 1)):
    v = field(r.result, n)
    for k, w in ((0, 'new_width'), (1, 'new_height')):
      coordinate(A, 'fov-resize', f'MicroscopeFieldOfView.resize.{n}.{"xy"[k]}', lambda: vec.point(v, k),
                 T.add(mid(k), T.mul(const(sg * 0.5), mk('param', w))), r.where)
  r = A.method(FOV, 'zoom', names=['zoom_factor'])
  for n, sg in (('lower_left', -1), ('upper_right', 1)):
    v = field(r.result, n)
    for k in (0, 1):
      coordinate(A, 'fov-zoom', f'MicroscopeFieldOfView.zoom.{n}.{"xy"[k]}', lambda: vec.point(v, k),
                 T.add(mid(k), T.mul(const(sg * 0.5), T.div(size(k), mk('param', 'zoom_factor')))), r.where)


def with_shape(t, shp):
  """The shape of the value when the point given has this shape."""
  cn = arr.Canon({P: shp})
  axes = lambda x: [const(n) if isinstance(n, int) else mk('dim', P) for n in shp]
  def f(x):
    if x is mk('attr', P, 'ndim') or x.op == 'call' and x.args[0] is mk('glob', 'numpy.ndim') and P in x.args[1]:
      return const(len(shp))
    if x.op == 'attr' and x.args[0] is P and x.args[1] == 'shape' or x.op == 'call' and x.args[0] is mk('glob', 'numpy.shape') and P in x.args[1]:
      return mk('tuple', *axes(x))
    if x.op == 'len' and x.args[0] is P:
      return axes(x)[0]
    return None
  for _ in range(3):
    t = T.rewrite(T.rewrite(t, f), fold)
  return cn.known(t), cn


def fold(x):
  if x.op == 'eq' and all(T.is_num(a) for a in x.args):
    return T.TRUE if x.args[0] is x.args[1] else T.FALSE
  if x.op == 'phi' and x.args[0] in (T.TRUE, T.FALSE):
    return x.args[1] if x.args[0] is T.TRUE else x.args[2]
  return None


def exc(e):
  from .simmodel import exc_name
  return exc_name(e)
