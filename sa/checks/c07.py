"""Ownership analysis of the syntax tree: for every public function and method, whether an object it was handed (an argument, something
inside one, a view of one, a field of a record, a default value) is modified in place, directly, through a view, through a helper, or later
through a field that kept a reference to it; and the record types are frozen."""
import ast

from ..owner import Owner, kind
from ..prog import PKG

MIN_OBLIGATIONS = 150
TECHNIQUE = 'interprocedural ownership (alias and effect) analysis of the syntax tree'
SCOPE = {'action_adapters', 'agents.agent_lib', 'agents.tf_eval_agent', 'alignment', 'atom_detector', 'eval_lib', 'feature_constructors', 'geometry', 'goals', 'graphene',
         'imaging', 'io', 'microscope_agent', 'microscope_utils', 'putting_dune_environment', 'run_helpers', 'simulator', 'simulator_observers',
         'rate_learning.data_utils', 'pipeline.train_rate_learner', 'pipeline.trajectories_to_transitions', 'pipeline.align_trajectories',
         'plotting_utils', 'rate_learning.learn_rates', 'experiments.experiments', 'experiments.registry', 'constants'}
RECORDS = ('microscope_utils.AtomicGrid', 'microscope_utils.BeamControl', 'microscope_utils.MicroscopeFieldOfView', 'microscope_utils.MicroscopeObservation',
           'microscope_utils.Transition', 'microscope_utils.Trajectory', 'microscope_utils.Drift', 'microscope_utils.LabeledAlignmentTrajectory',
           'graphene.SuccessorState', 'graphene.Rates', 'goals.GoalReturn', 'geometry.NearestNeighborsResult', 'simulator_observers.SimulatorEvent',
           'imaging.ImageGenerationParameters', 'eval_lib.EvalResult', 'eval_lib.AggregateEvalResults')


def check(A):
  prog = A.prog
  O = Owner(prog)
  O.learn()
  for r in RECORDS:
    c = prog.classes.get(f'{PKG}.{r}')
    if c is None:
      A.ob('frozen-record', r, None, 'no such class any more')
      continue
    A.ob('frozen-record', r, bool(c.frozen), 'a frozen value type' if c.frozen else 'its fields can be assigned', f'{c.mod.rel}:{c.node.lineno}')
  for q in sorted(prog.funcs):
    f = prog.funcs[q]
    if f.mod.name[len(PKG) + 1:] in SCOPE and not f.name.startswith('_'):
      report(A, f, O.summary(f))
  for q in sorted(prog.classes):
    c = prog.classes[q]
    if c.mod.name[len(PKG) + 1:] not in SCOPE:
      continue
    sums = {}
    for k in reversed(prog.mro(c)):
      for n, m in k.methods.items():
        if not m.is_abstract:
          sums[n] = (m, O.summary(m, c))
    caught_s, caught_i = {}, {}
    for n, (m, s) in sums.items():
      if n.startswith('_') and not n.startswith('__'):
        continue
      for a, v in s.stores.items():
        for r, sure in v.S.items():
          if r[0] == 'p':
            caught_s.setdefault(a, []).append((r[1], sure, m))
        for r, sure in v.reach().items():
          if r[0] == 'p':
            caught_i.setdefault(a, []).append((r[1], sure, m))
    rec = O.record(c)
    for n, (m, s) in sorted(sums.items()):
      if m.cls is not c:
        own = [x for x in s.muts if x.root[0] in ('f', 'rec')]
        if not own:
          continue
      if n.startswith('_') and not n.startswith('__'):
        continue
      extra = []
      for x in s.muts:
        if x.root[0] == 'f':
          if rec and n not in ('__init__', '__post_init__'):
            extra.append((x.sure, x, f'the contents of its field {x.root[1]}'))
            continue
          for p, sure, where in (caught_s if x.root[2] == 0 else caught_i).get(x.root[1], []):
            extra.append((x.sure and sure, x, f'self.{x.root[1]}, which is {where.name}\'s argument {p}'))
      report(A, m, s, extra, c)


def data(f, p):
  """Whether the parameter is plain data (not a service such as a random generator or a plot)."""
  return True


def report(A, f, s, extra=(), c=None):
  nm = (f'{c.qual}.{f.name}' if c is not None else f.qual).replace(PKG + '.', '')
  sure, un = {}, {}
  for x in s.muts:
    if x.root[0] == 'frozen' and x.where.split(' ')[1] == f.qual:
      sure.setdefault((x.where, x.how), 'a frozen record')
    if x.root[0] == 'rec':
      (sure if x.sure else un).setdefault((x.where, x.how), f'the contents of a {x.root[1]}')
    if x.root[0] == 'p':
      (sure if x.sure else un).setdefault((x.where, x.how), f'its argument {x.root[1]}')
  for ok, x, text in extra:
    (sure if ok else un).setdefault((x.where, x.how), text)
  for (w, h), t in sorted(sure.items()):
    A.ob('no-mutation', nm, False, f'modifies {t} in place: {h}', w)
  if sure:
    return
  for (w, h), t in sorted(un.items()):
    A.ob('no-mutation', nm, None, f'may modify {t} in place: {h}', w)
  if not un:
    A.ob('no-mutation', nm, True, 'leaves its arguments and the fields it was handed alone', f.where)
