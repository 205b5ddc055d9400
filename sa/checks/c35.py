"""The rotation and angle functions are evaluated component by component on a symbolic coordinate and compared with the
counter-clockwise rotation; every function that measures an angle or rotates is compared with a reference model in which rotation
matrices of any spelling are one operation with a signed angle; every call site of sine, cosine, arctan2 and the rotation helpers
in the package is enumerated."""
import ast

from .. import libnf, lint, terms as T
from ..terms import mk, const

MIN_OBLIGATIONS = 10
TECHNIQUE = 'component-wise symbolic evaluation and value-graph comparison with rotation matrices normalised; call-site enumeration'
USES = [('rate_learning.data_utils.standardize_beam_and_neighbors', 'standardize', None), ('graphene.HumanPriorRatePredictor.predict', 'prior_rates', 'graphene.HumanPriorRatePredictor'),
        ('agents.agent_lib.GreedyAgent.step', 'greedy_step', 'agents.agent_lib.GreedyAgent')]
# functions whose rotation sense is immaterial (uniformly random or zero angle) or which only compare angles with each other
FREE = {'graphene.generate_pristine_graphene', 'graphene.canonical_pristine_graphene_with_centered_silicon', 'alignment.get_lattice_clusterer', 'alignment.classify_lattice_types'}
ELSEWHERE = {'rate_learning.data_utils.get_all_position_rotations': 'C26', 'rate_learning.data_utils.generate_synthetic_data': 'C26', 'plotting_utils.plot_rate_along_arc3': 'arc'}
NAMES = {'get_angles', 'rotate_coordinates', 'jnp_rotate_coordinates', 'arctan2', 'atan2', 'sin', 'cos'}


class NoComp(Exception):
  pass


def plain(t):
  return T.subst(t, lambda x: mk('glob', 'numpy.' + x.args[0][10:]) if x.op == 'glob' and x.args[0].startswith('jax.numpy.') else None)


def comps(t, coord, xy):
  """The two last-axis components of an array expression in the coordinate array."""
  if t is coord:
    return xy
  if t.op == 'poly':
    out = [T.ZERO, T.ZERO]
    for c, m in T.poly_terms(t):
      f = [const(c), const(c)]
      for b, e in m:
        p = comps(b, coord, xy) if T.contains(b, lambda z: z is coord) and not scalarc(b, coord) else [scal(b, coord, xy)] * 2
        f = [T.mul(f[i], T.power(p[i], const(e))) for i in (0, 1)]
      out = [T.add(out[i], f[i]) for i in (0, 1)]
    return out
  if t.op == 'rot':
    a, x = t.args[1], comps(t.args[0], coord, xy)
    c, s = fn('cos', a), fn('sin', a)
    return [T.sub(T.mul(x[0], c), T.mul(x[1], s)), T.add(T.mul(x[0], s), T.mul(x[1], c))]
  if t.op == 'matmul':
    m = libnf.matrix(t.args[1])
    if m:
      x = comps(t.args[0], coord, xy)
      return [T.add(T.mul(x[0], scal(m[0][j], coord, xy)), T.mul(x[1], scal(m[1][j], coord, xy))) for j in (0, 1)]
  if t.op == 'attr' and t.args[1] == 'T' and t.args[0].op == 'matmul':
    a, b = t.args[0].args[:2]
    m = libnf.matrix(a)
    if m and b.op == 'attr' and b.args[1] == 'T':
      x = comps(b.args[0], coord, xy)
      return [T.add(T.mul(scal(m[i][0], coord, xy), x[0]), T.mul(scal(m[i][1], coord, xy), x[1])) for i in (0, 1)]
  if t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] in ('numpy.stack', 'numpy.column_stack', 'numpy.asarray', 'numpy.array'):
    d = dict(t.args[2])
    l = t.args[1][0] if t.args[1] else d.get('arrays') or d.get('a')
    n = t.args[0].args[0].split('.')[-1]
    if n in ('asarray', 'array') and l is not None and l.op not in ('list', 'tuple'):
      return comps(l, coord, xy)
    if l is not None and l.op in ('list', 'tuple') and len(l.args) == 2 and (n == 'column_stack' or (n == 'stack' and d.get('axis') in (const(-1), const(1)))):
      return [scal(l.args[0], coord, xy), scal(l.args[1], coord, xy)]
  raise NoComp(T.show(t, 4))


def scalarc(t, coord):
  return t.op == 'item' and t.args[0] in (coord, mk('attr', coord, 'T')) and sel(t) is not None


def sel(t):
  i = t.args[1]
  if t.args[0].op == 'attr':
    return T.cval(i) if T.is_num(i) else None
  if i.op == 'tuple' and i.args and T.is_num(i.args[-1]) and T.cval(i.args[-1]) in (0, 1):
    return T.cval(i.args[-1])
  return None


def fn(n, a):
  m = T.neg(a)
  if T.skey(m) < T.skey(a):
    r = mk('call', mk('glob', 'numpy.' + n), (m,), (), None)
    return T.neg(r) if n == 'sin' else r
  return mk('call', mk('glob', 'numpy.' + n), (a,), (), None)


def scal(t, coord, xy):
  if t.op == 'poly':
    out = T.ZERO
    for c, m in T.poly_terms(t):
      x = const(c)
      for b, e in m:
        x = T.mul(x, T.power(scal(b, coord, xy), const(e)))
      out = T.add(out, x)
    return out
  if scalarc(t, coord):
    return xy[sel(t)]
  g = libnf.trig(t)
  if g:
    r = fn(g[0], g[1])
    return r if g[2] == 1 else T.neg(r)
  if T.contains(t, lambda z: z is coord):
    raise NoComp(T.show(t, 4))
  return t


def arctan(t, coord, xy):
  """(y, x) of an arctan2 expression."""
  if t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] in ('numpy.arctan2', 'math.atan2') and len(t.args[1]) == 2:
    return tuple(scal(a, coord, xy) for a in t.args[1])
  raise NoComp(T.show(t, 4))


COARSE = ('round', 'around', 'rint', 'floor', 'ceil', 'trunc', 'abs', 'absolute', 'clip', 'maximum', 'minimum', 'nan_to_num')


def spans(c, th):
  """The condition is an inequality on the angle: it holds for more than one angle."""
  cs = [x for x in T.subterms(c) if x.op == 'lt0' and T.contains(x, lambda z: z is th)]
  return bool(cs) and all(x.op != 'eq' for x in T.subterms(c))


def check(A):
  A.nf, A.vocab = libnf.nf, True
  X, Y = mk('param', 'x'), mk('param', 'y')
  coord, th = mk('param', 'coord'), mk('param', 'theta')
  c, s = fn('cos', th), fn('sin', th)
  want = [T.sub(T.mul(X, c), T.mul(Y, s)), T.add(T.mul(X, s), T.mul(Y, c))]
  for n in ('rotate_coordinates', 'jnp_rotate_coordinates'):
    r = A.func('geometry.' + n, names=['coord', 'theta'])
    t = plain(r.result)
    while t.op == 'phi':
      # a shortcut for particular inputs: unturned only where nothing is to turn
      for b, o in ((1, 2), (2, 1)):
        try:
          got = comps(t.args[b], coord, [X, Y])
        except NoComp:
          continue
        if all(T.rat_equal(got[i], want[i]) for i in (0, 1)):
          short = t.args[o]
          A.ob('counter-clockwise', f'{n}: every angle', False if short is coord and spans(t.args[0] if o == 1 else T.not_(t.args[0]), th) else None,
               f'{T.show(short, 4)} where {T.show(t.args[0], 5)}', r.where)
          t = t.args[b]
          break
      else:
        break
    coarse = [x for x in T.subterms(t) if x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0].split('.')[-1] in COARSE and T.contains(x, lambda z: z in (th, coord))]
    if coarse:
      A.ob('counter-clockwise', n, False, f'{T.show(coarse[0], 4)} is not the angle or coordinate given', r.where)
      continue
    try:
      got = comps(t, coord, [X, Y])
      for i in (0, 1):
        ok = T.rat_equal(got[i], want[i])
        A.ob('counter-clockwise', f'{n}:{"xy"[i]}', ok, f'(x, y) turned by theta has {"xy"[i]} = {T.show(got[i], 6)}' + ('' if ok else f', required {T.show(want[i], 6)}'), r.where)
    except NoComp as e:
      A.ob('counter-clockwise', n, None, f'not read component-wise: {e}', r.where)
  r = A.func('geometry.get_angles', names=['coord'])
  try:
    t = plain(libnf.nf(r.result))
    coarse = [x for x in T.subterms(t) if x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0].split('.')[-1] in COARSE]
    if coarse:
      A.ob('angle-from-x-axis', 'get_angles', False, f'{T.show(coarse[0], 4)} is not the angle measured', r.where)
      t = next(x for x in T.subterms(coarse[0]) if x.op == 'call' and x is not coarse[0])
    got = arctan(t, coord, [X, Y])
    ok = T.rat_equal(got[0], Y) and T.rat_equal(got[1], X)
    A.ob('angle-from-x-axis', 'get_angles', ok, f'arctan2({T.show(got[0], 5)}, {T.show(got[1], 5)})' + ('' if ok else ' where arctan2(y, x) is required'), r.where)
  except NoComp as e:
    A.ob('angle-from-x-axis', 'get_angles', None, f'not read component-wise: {e}', r.where)
  m = A.spec_module('rotations')
  for q, sp, cls in USES:
    ps = [a.arg for a in m.defs[sp][1].args.args][1 if cls else 0:]
    if cls:
      r, x = A.method(cls, q.rsplit('.', 1)[1], names=ps), A.know(A.spec('rotations.' + sp, cls=cls))
    else:
      r, x = A.func(q, names=ps), A.know(A.spec('rotations.' + sp))
    A.same('rotated-as-measured', q, plain(r.result), plain(x.result), r.where)
  arc(A)
  sites(A)


def arc(A):
  """The beam positions of the plot along an arc."""
  f = A.prog.func('plotting_utils.plot_rate_along_arc3')
  r = A.node(f, no_inline=lambda g: g.name == '_center_grid_on_single_silicon')
  pts = [e for e in r.calls(name='__call__') if e.recv.op == 'param' and e.recv.args[0] == 'rate_function']
  if not pts:
    return A.ob('angle-plotted', 'plot_rate_along_arc3', None, 'call of the rate function not found', r.where)
  for e in pts:
    p = r.it.closed(e.args[1]) if len(e.args) > 1 else None
    trigs = {} if p is None else {libnf.trig(x)[0]: libnf.trig(x) for x in T.subterms(plain(p)) if libnf.trig(x)}
    pair = next((x for x in T.subterms(plain(p)) if x.op in ('list', 'tuple') and len(x.args) == 2 and any(libnf.trig(z) for z in T.subterms(x))), None) if p is not None else None
    if pair is None or set(trigs) != {'sin', 'cos'}:
      A.ob('angle-plotted', 'plot_rate_along_arc3', None, f'beam position not read: {T.show(p, 5) if p is not None else None}', e.where)
      continue
    a, b = [sorted({libnf.trig(z)[0] for z in T.subterms(q) if libnf.trig(z)}) for q in pair.args]
    A.ob('angle-plotted', 'plot_rate_along_arc3', (a, b) == (['cos'], ['sin']), f'beam at ({T.show(pair.args[0], 5)}, {T.show(pair.args[1], 5)})', e.where)


def sites(A):
  """Every use of the convention lies in an analysed function."""
  seen = set(A.analysed)
  used = {}
  for q, f in A.prog.funcs.items():
    if not q.startswith('putting_dune.') or '_test.' in q or q.split('.')[-2:-1] == ['geometry'] or q.startswith('putting_dune.geometry.'):
      continue
    for n in ast.walk(f.node):
      if isinstance(n, ast.Call):
        name = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ''
        if name in NAMES:
          used.setdefault(q, []).append(n.lineno)
  ok = {'putting_dune.' + x for x in FREE | set(ELSEWHERE)} | {'putting_dune.' + q for q, _, _ in USES} | seen
  for q, lines in sorted(used.items()):
    cov = q in ok or any(q.startswith(o + '.') for o in ok)
    A.ob('site-covered', q[13:], True if cov else None, f'{len(lines)} use(s)' + ('' if cov else ': not compared with a reference model'), f'{A.prog.funcs[q].where}')
