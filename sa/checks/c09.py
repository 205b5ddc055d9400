"""Coherence of simulator observations: the value graphs of the grid, fov, controls and image fields returned by
PuttingDuneSimulator.reset / step_and_image are compared, branch condition by branch condition, with the reference:
grid = atoms in bounds of exactly the reported field of view, image rendered from exactly that grid and field of view,
field of view recentred on the silicon (same scale) exactly when the silicon is missing or in the outer quarter, controls
= the caller's, in order.  A receiver-version (effect) analysis ties the grid query to the material state after the last
control, and the stored field of view at exit is the reported one.  The material's bounds query is compared with its own
reference (selection by one mask, normalised into the field of view)."""
from . import simmodel as S
from ..core import field
from .. import chosen, libnf, terms as T, vec
from ..terms import mk

MIN_OBLIGATIONS = 14


def check(A):
  for name in ('reset', 'step_and_image'):
    real, spec = S.pair(A, name)
    for f in ('grid', 'fov', 'controls', 'image'):
      A.same(f'observation-{f}', f'PuttingDuneSimulator.{name}', S.req(field(real.result, f)), field(spec.result, f), real.where)
    A.same('no-label-image', f'PuttingDuneSimulator.{name}', field(real.result, 'label_image'), field(spec.result, 'label_image'),
           real.where)
    S.same_state(A, name, ('_fov', '_fov_scale', '_image_parameters'))
    order = lambda e: S.material_order(e)
    A.same_trace('material-effects-order', f'PuttingDuneSimulator.{name}', real.trace(order), spec.trace(order), real.where)
  r = A.method(S.MAT, 'get_atoms_in_bounds', names=['lower_left', 'upper_right'])
  s = A.spec('graphene.atoms_in_bounds', cls=S.MAT)
  name = 'PristineSingleDopedGraphene.get_atoms_in_bounds'
  grids = [{f: field(x.result, f) for f in ('atom_positions', 'atomic_numbers')} for x in (r, s)]
  if None in grids[0].values():
    A.same('atoms-in-bounds', name, r.result, s.result, r.where)
  else:
    (p, n), (q, m) = [[chosen.masks(libnf.nf(x.it.closed(g[f]))) for f in g] for x, g in zip((r, s), grids)]
    A.same('atoms-in-bounds', f'{name}: numbers', n, m, r.where)
    for k in (0, 1):
      try:
        A.same('atoms-in-bounds', f'{name}: {"xy"[k]}', chosen.coordinate(p, k), chosen.coordinate(q, k), r.where)
      except vec.NoComp:
        A.same('atoms-in-bounds', f'{name}: {"xy"[k]}', p, q, r.where)
  r = A.method(S.MAT, 'get_silicon_position')
  s = A.spec('graphene.silicon_position', cls=S.MAT)
  A.same('silicon-position', 'PristineSingleDopedGraphene.get_silicon_position', r.result, s.result, r.where)
