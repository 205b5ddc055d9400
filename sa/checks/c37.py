"""Value graphs of every step of alignment are compared with a reference model: the drift applied to an observation (positions,
field of view, everything else carried over), cumulative drift over a trajectory (loop-carried values identified by initial and
next value, so for any number of observations), the filter's returned drift, merged grid and history, closest-point offsets,
merging and atomic-number propagation, and the image aligner's preprocessing, history and post-processing."""
import ast

from .. import libnf, terms as T
from ..terms import mk
from ..core import call_label

MIN_OBLIGATIONS = 18
TECHNIQUE = 'value-graph comparison (loops by initial/next value) with a reference model of alignment'
M = 'microscope_utils.'
PURE = ['alignment.' + x for x in ('get_lattice_clusterer', 'classify_lattice_types', 'align_latest', 'clique_merge', 'naive_merge', 'propagate_atomic_numbers')]


def stop(f):
  return ('frame_to_' in f.name or f.name in ('process_detection_predictions', 'pad_and_crop_images_by_fov') or
          (f.cls is not None and f.cls.name == 'IterativeAlignmentFiltering') or f.qual.endswith('ImageAligner.reset'))


def params(A, n, method=False):
  return [a.arg for a in A.spec_module('alignment').defs[n][1].args.args][1 if method else 0:]


def contents(run):
  out = {}
  for (b, k), v in run.it.heap.items():
    if k == '[]' and b.op in ('attr', 'attrv', 'at') or (k == '[]' and b.op not in ('ref',)):
      name = next((x for x in b.args if isinstance(x, str)), None)
      if name:
        out[name] = run.it.closed(v)
  return out


def fixed(A, c):
  """The fields of a class that no method but the constructor stores."""
  out, seen = set(), set()
  for m in A.prog.modules.values():
    for f in [n for n in ast.walk(m.tree) if isinstance(n, ast.FunctionDef) and m.name.startswith('putting_dune.')]:
      for n in ast.walk(f):
        if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load):
          (out if f.name == '__init__' else seen).add(n.attr)
  return (out | {n for n in A.prog.all_fields(A.prog.classes[c])}) - seen


def check(A):
  A.nf, A.vocab = libnf.nf, True
  for c, m, s in (('Drift', 'apply_to_observation', 'apply_to_observation'), ('Drift', 'cumulate_drift', 'cumulate_drift'),
                  ('MicroscopeFieldOfView', 'shift', 'fov_shift'), ('AtomicGrid', 'shift', 'grid_shift')):
    r, x = A.method(M + c, m, names=params(A, s, True)), A.spec('alignment.' + s, cls=M + c)
    A.same('moved-by-drift', f'{c}.{m}', r.result, x.result, r.where)
  for n in ('get_offsets', 'align_latest', 'propagate_atomic_numbers', 'naive_merge'):
    pure = ('alignment.get_offsets',) if n == 'align_latest' else ()
    r, x = A.func('alignment.' + n, pure=pure, names=params(A, n)), A.spec('alignment.' + n, pure=pure)
    A.same('step', n, r.result, x.result, r.where)
  F = 'alignment.IterativeAlignmentFiltering'
  for m, s in (('__call__', 'filtering'), ('reset', 'filtering_reset'), ('apply_shift', 'apply_shift')):
    r, x = A.method(F, m, pure=PURE, names=params(A, s, True)), A.spec('alignment.' + s, cls=F, pure=PURE)
    A.same('filter-result', f'IterativeAlignmentFiltering.{m}', r.result, x.result, r.where)
    for a in ('recent_observations', 'recent_classes', 'classifier'):
      p, q = r.self_attr(a), x.self_attr(a)
      if q is not None or p is not None:
        A.same('filter-history', f'IterativeAlignmentFiltering.{m}:{a}', p or T.NONE, q or T.NONE, r.where)
  kw = dict(no_inline=lambda f: f.cls is not None and f.cls.name == 'ImageAligner')
  r, x = A.func('pipeline.align_trajectories.do_alignment', names=params(A, 'do_alignment'), **kw), A.spec('alignment.do_alignment', **kw)
  A.same('cumulative-drift', 'do_alignment', r.result, x.result, r.where)
  kw = dict(no_inline=stop)
  I = 'alignment.ImageAligner'
  once = fixed(A, A.prog.canon('putting_dune.' + I) if I not in A.prog.classes else I)
  # a field that only the constructor stores is the same whenever it is read
  now = lambda t: T.subst(t, lambda y: mk('attr', y.args[0], y.args[1]) if y.op == 'attr' and len(y.args) > 2 and y.args[0] is mk('param', 'self') and y.args[1] in once else None) if isinstance(t, T.Term) else t
  for m, s in (('reset', 'aligner_reset'), ('__call__', 'aligner_call')):
    r, x = A.method(I, m, names=params(A, s, True), **kw), A.know(A.spec('alignment.' + s, cls=I, **kw))
    A.same('aligner-result', f'ImageAligner.{m}', now(r.it.closed(r.result)), now(x.it.closed(x.result)), r.where)
    ca, cb = contents(r), contents(x)
    for a in ('image_history', 'fov_history', 'needs_reset'):
      p, q = r.self_attr(a) or ca.get(a), x.self_attr(a) or cb.get(a)
      if q is not None or p is not None:
        A.same('aligner-history', f'ImageAligner.{m}:{a}', p or T.NONE, q or T.NONE, r.where)
  called = call_label({'reset'})
  # which of the aligner's parts are reset, whenever their names were read
  resets = lambda e: tuple(map(now, called(e) or ())) or None
  r, x = A.method(I, '__call__', names=params(A, 'aligner_call', True), **kw), A.spec('alignment.aligner_call', cls=I, **kw)
  A.same_trace('aligner-reset', 'ImageAligner.__call__', *[[c.under(now(c.guard)) for c in t.trace(resets)] for t in (r, x)], r.where)
  r, x = A.method(F, '__init__'), A.know(A.spec('alignment.filtering_init', cls=F))
  for a in ('history_length', 'alignment_iterations', 'noise_scale', 'max_shift', 'merge_cutoff', 'accumulate_merged', 'clique_merging', 'trim', 'recent_observations'):
    A.same('filter-options', f'IterativeAlignmentFiltering.__init__:{a}', r.self_attr(a) or T.NONE, x.self_attr(a) or T.NONE, r.where)
  r, x = A.method(I, '__init__'), A.know(A.spec('alignment.aligner_init', cls=I))
  for a in ('hybrid', 'model_path'):
    A.same('aligner-options', f'ImageAligner.__init__:{a}', r.self_attr(a) or T.NONE, x.self_attr(a) or T.NONE, r.where)
  parts = [[o for o in T.subterms(y.self_attr('postprocessing_aligner') or T.NONE) if o.op == 'obj'] for y in (r, x)]
  if [len(p) for p in parts] == [1, 1]:
    for a in ('history_length', 'alignment_iterations', 'noise_scale', 'max_shift', 'merge_cutoff', 'accumulate_merged', 'clique_merging', 'trim'):
      got, want = r.heap(parts[0][0], a), x.heap(parts[1][0], a)
      if got is None or want is None:
        A.ob('aligner-options', f'ImageAligner.__init__:postprocessing_aligner.{a}', None, 'not interpreted', r.where)
      else:
        A.same('aligner-options', f'ImageAligner.__init__:postprocessing_aligner.{a}', got, want, r.where)
  else:
    A.ob('aligner-options', 'ImageAligner.__init__:postprocessing_aligner', None, T.show(r.self_attr('postprocessing_aligner') or T.NONE, 5), r.where)
