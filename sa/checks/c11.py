"""Reset protocol (typestate): each public operation is driven abstractly on a freshly constructed object; an operation
that would touch state only reset establishes must end in RuntimeError before any effect (attribute write, random draw,
observer or material call).  After construction and reset, every attribute any public operation reads is initialised and
the operations no longer raise."""
from . import simmodel as S
from .. import terms as T
from ..absint import Interp, Frame
from ..terms import mk
import ast

MIN_OBLIGATIONS = 7

CLASSES = [(S.SIM, ['step_and_image'], ['add_observer', 'remove_observer']),
           (S.MAT, ['get_atoms_in_bounds', 'apply_control', 'get_silicon_position'], [])]


def check(A):
  for cls, must, free in CLASSES:
    c = A.prog.cls(cls)
    public = [n for n in sorted(set().union(*[k.methods for k in A.prog.mro(c)]))
              if not n.startswith('_') and n not in ('reset',) + tuple(free)]
    for m in must:
      if m not in public:
        public.append(m)
    for m in public:
      f = A.prog.lookup(c, m)
      if f is None:
        from ..prog import AnalysisBroken
        raise AnalysisBroken(f'{cls}.{m} not found')
      r = S.drive(A, c, [m], fresh=True)
      reads = r['unset_reads']
      if m not in must and not reads:
        continue
      name = f'{c.name}.{m}'
      raises = [e for e in r['events'] if e.kind == 'raise']
      A.ob('raises-before-reset', name, not r['alive'] and any(S.exc_name(e) == 'RuntimeError' for e in raises),
           f'{len(raises)} raise sites reached', f.where)
      eff = [e for e in r['events'] if e.kind in ('setattr', 'setitem', 'mutate', 'inplace') or (e.kind == 'call' and not e.pure)]
      eff = [e for e in eff if not S.fresh_effect(e)]
      A.ob('no-effect-before-check', name, not eff, f'{eff[0]}' if eff else 'no effect before the check', eff[0].where if eff else f.where)
    r = S.drive(A, c, ['reset'] + [m for m in must], fresh=True)
    A.ob('operational-after-reset', c.name, r['alive'], 'reset followed by every operation completes', c.mod.rel)
    A.ob('reset-initialises', c.name, not r['unset_reads'], f'read but never initialised: {sorted(r["unset_reads"])}', c.mod.rel)
