"""Images are rendered exactly when needed.  Per concrete feature constructor: the value of requires_image is compared with
an attribute-read query over get_features (does any event, guard or the result read the observation's image), and a missing
image raises before any other use of it.  Environment: the return_image argument of every simulator call in reset and step
equals the constructor's declaration.  Simulator: the image field and the guard of the rendering call equal the reference
(rendered iff asked)."""
from . import envmodel as E
from . import simmodel as S
from . import c18
from .. import terms as T
from ..core import field, unknown
from ..terms import mk

MIN_OBLIGATIONS = 14
TECHNIQUE = 'attribute-read (effect) query plus value-graph comparison against a reference model'


def check(A):
  obs = mk('param', 'observation')
  image = mk('attr', obs, 'image')
  for c in A.prog.subclasses(c18.FC):
    f = A.prog.lookup(c, 'get_features')
    if f is None or f.is_abstract or not c.qual.startswith('putting_dune.'):
      continue
    run = A.node_of(c, 'get_features', names=['observation', 'goal'], types={'observation': 'microscope_utils.MicroscopeObservation', 'goal': E.GOAL},
                    exact_types=True)
    req = A.node_of(c, 'requires_image').result
    uses = []
    for e in run.events:
      ts = [e.d.get('recv')] + list(e.d.get('args', ())) + list((e.d.get('kwargs') or {}).values()) + [x for x in e.ctx for x in x if isinstance(x, T.Term)]
      if any(isinstance(x, T.Term) and T.contains_term(run.it.closed(x), image) for x in ts):
        uses.append(e)
    reads = bool(uses) or T.contains_term(run.result, image)
    v = True if req is T.TRUE else False if req is T.FALSE else None
    whole = unknown(run.result)
    A.ob('declared-iff-read', f'{c.name}.requires_image', None if v is None or (whole and not reads) else v == reads,
         f'declares {T.show(req, 3)}, reads the image: {reads}', f.where)
    if reads:
      rs = [e for e in run.events if e.kind == 'raise']
      g = T.or_(*[T.and_(*[run.it.closed(x) for x in e.conds(asserted=False)]) for e in rs])
      ok = c18.holds(g, None, {T.is_(image, T.NONE): True}) is True
      first = [e.seq for e in rs if any(T.contains_term(run.it.closed(x), image) for x in e.conds())]
      early = [e for e in uses if first and e.seq < min(first) and e.kind == 'call' and not e.pure and e.d.get('name') is None and
               T.contains_term(mk('tuple', *[x for x in e.args]), image) and not any(x[0] == 'if' and len(x) == 3 for x in e.ctx)]
      A.ob('missing-image-raises', f'{c.name}.get_features', ok if first or not whole else None,
           f'raise guards {T.show(g, 6)}', rs[0].where if rs else run.where)
      A.ob('raises-before-use', f'{c.name}.get_features', not early, '', early[0].where if early else run.where)
  for name in ('reset', 'step'):
    r, s = E.pair(A, name)
    sims = lambda run: [e for e in run.events if e.kind == 'call' and e.d.get('name') in ('reset', 'step_and_image') and e.recv.op == 'attr' and e.recv.args[1] == 'sim']
    calls = sims(r)
    A.ob('simulator-called', f'PuttingDuneEnvironment.{name}', bool(calls), '', r.where)
    for e in calls:
      a = A.prog.method(S.SIM, e.name).params()[0]
      i = a.index('return_image') - 1 if 'return_image' in a else None
      v = e.kwargs.get('return_image') if e.kwargs.get('return_image') is not None else (e.args[i] if i is not None and len(e.args) > i else mk('default'))
      want = mk('attr', mk('attr', E.ME, A.attr(E.ENV, '_feature_constructor')), 'requires_image')
      A.same('requested-iff-declared', f'PuttingDuneEnvironment.{name}:{e.name}', r.it.closed(v), want, e.where)
  for name in ('reset', 'step_and_image'):
    real, spec = S.pair(A, name)
    A.same('image-iff-asked', f'PuttingDuneSimulator.{name}', S.req(field(real.result, 'image')), field(spec.result, 'image'), real.where)
    gen = lambda e: ('call', 'generate_stem_image') if e.kind == 'call' and e.d.get('fn') is not None and e.fn.op == 'glob' and \
        e.fn.args[0] == 'putting_dune.imaging.generate_stem_image' else None
    A.same_trace('rendered-iff-asked', f'PuttingDuneSimulator.{name}', real.trace(gen), spec.trace(gen), real.where)
