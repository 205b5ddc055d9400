"""The value graph of transition extraction is computed with the loops unrolled over symbolic trajectories of every small shape and
compared with the pairing of adjacent observations; the carried values of the general loop are shown to depend on the previous
iteration only, so the small shapes determine all lengths. Data-point extraction is compared path by path for one and two
transitions (its loop carries nothing but counters and the result list)."""
from .. import libnf, terms as T
from ..terms import mk

MIN_OBLIGATIONS = 12
TECHNIQUE = 'value-graph comparison over unrolled symbolic trajectories plus a loop-carried dependence argument'
FN = 'pipeline.trajectories_to_transitions.trajectories_to_transitions'
SHAPES = [(), (0,), (1,), (2,), (3,), (4,), (2, 2), (1, 3), (3, 1, 2)]


def trajectories(A, shape):
  t, o, g = (A.prog.cls('microscope_utils.' + c).qual for c in ('Trajectory', 'MicroscopeObservation', 'AtomicGrid'))
  out = []
  for i, n in enumerate(shape):
    obs = []
    for j in range(n):
      f = {k: mk('param', f'{k}_{i}_{j}') for k in ('fov', 'controls', 'elapsed_time', 'image', 'label_image')}
      f['grid'] = mk('new', g, (('atom_positions', mk('param', f'positions_{i}_{j}')), ('atomic_numbers', mk('param', f'numbers_{i}_{j}'))))
      obs.append(mk('new', o, tuple(sorted(f.items()))))
    out.append(mk('new', t, (('observations', mk('list', *obs)),)))
  return mk('list', *out)


def step_only(A, run):
  """Whether every loop-carried value of the general loop is set from the current element alone."""
  bad = []
  for li in run.it.loops.values():
    mus = {mu for mu, _, _ in li.carried.values()}
    for key, (mu, init, end) in li.carried.items():
      if end is None:
        continue
      if T.contains(run.it.closed(end), lambda x: x in mus) and not (end.op in ('concat', 'list') or mu in T.subterms(end) and end.op in ('concat', 'seqcopy')):
        bad.append(key)
  return bad


def check(A):
  A.nf, A.vocab = libnf.nf, True
  for sh in SHAPES:
    l = trajectories(A, sh)
    r, x = A.func(FN, params={'trajectories': l}), A.know(A.spec('transitions.extract', params={'trajectories': l}))
    A.same('adjacent-pairs', 'observations per trajectory: ' + (', '.join(map(str, sh)) or 'no trajectory'), r.result, x.result, r.where)
  r = A.func(FN)
  bad = step_only(A, r)
  A.notes.append('loop-carried values depend only on the previous element: the shapes checked determine all lengths' if not bad else
                 f'loop carries {[str(b) for b in bad][:4]} over several iterations: checked for the shapes listed only')
  F = 'pipeline.train_rate_learner.transitions_to_datapoints'
  ty = {f't{i}': 'microscope_utils.Transition' for i in range(2)}
  kw = dict(types=ty, no_inline=lambda f: 'frame_to_' in f.name or f.name in ('plot_transition', 'standardize_beam_and_neighbors'))
  for n in (0, 1, 2):
    l = mk('list', *[mk('param', f't{i}') for i in range(n)])
    r, x = A.func(F, params={'transitions': l}, **kw), A.know(A.spec('transitions.datapoints', params={'transitions': l}, **kw))
    A.same('datapoint-of-its-transition', f'transitions_to_datapoints: {n} transition(s)', r.result, x.result, r.where)
  r, x = A.func('pipeline.train_rate_learner.load_trajectories_from_records'), A.know(A.spec('transitions.load'))
  A.same('all-trajectories-read', 'load_trajectories_from_records', r.result, x.result, r.where)
