"""One silicon, fixed sites: the grid built by the material's reset and every successor grid built by each rate function
class is compared with its reference (all carbon, a single site overwritten with silicon, positions object unchanged,
site = a nearest neighbour); a who-may-write rule restricts writes of the material grid to reset and to the transition,
whose value must be an offered successor."""
import ast

from . import simmodel as S
from ..core import field, map_field
from .. import terms as T
from ..terms import mk

MIN_OBLIGATIONS = 6


def check(A):
  r = A.method(S.MAT, 'reset', pure=('graphene.generate_pristine_graphene',))
  s = A.spec('graphene.reset', cls=S.MAT, pure=('graphene.generate_pristine_graphene',))
  A.same('initial-grid', 'PristineSingleDopedGraphene.reset', r.self_attr('grid') or mk('undef'), s.self_attr('grid'), r.where)
  base = A.prog.cls('graphene.RateFunction')
  pure = ('graphene.get_single_silicon_position', 'geometry.nearest_neighbors3')
  n = 0
  for c in A.prog.subclasses(base.qual):
    short = c.qual[len('putting_dune.'):]
    if not short.startswith(('graphene.', 'rate_learning.')):
      continue
    n += 1
    r = A.method(short, '__call__', names=['grid', 'beam_position'], pure=pure)
    s = A.spec('graphene.successor_grids', cls=short, pure=pure)
    got = zip_domain(grids(r), s.result)
    A.same('successor-grids', f'{c.name}.__call__', got, s.result, r.where)
  A.ob('rate-functions-found', 'RateFunction', n >= 2, f'{n} rate function classes')
  real, spec = S.control_pair(A)
  A.same_trace('state-update', 'PristineSingleDopedGraphene.apply_control', real.trace(S.grid_writes), spec.trace(S.grid_writes),
               real.where)
  writers = S.attr_writers(A, 'grid', S.MAT)
  for w, where in writers:
    ok = w in ('PristineSingleDopedGraphene.reset', 'PristineSingleDopedGraphene.apply_control')
    if not ok:
      ok = S.only_called_from(A, w, ('reset', 'apply_control'))
    A.ob('grid-writers', w, ok, 'writes the material grid', where)


def grids(r):
  """Sequence of successor grids inside the returned Rates."""
  ss = field(r.result, 'successor_states')
  if ss is None:
    return r.result
  return map_field(ss, 'grid')


def zip_domain(got, want):
  """zip(neighbours, rates) ranges over the neighbours when the rates are asserted to be as many."""
  if got.op == 'mapl' and want.op == 'mapl' and got.args[1].op == 'minlen' and want.args[1] in got.args[1].args:
    return mk('mapl', got.args[0], want.args[1], got.args[2])
  return got
