"""Every action adapter's controls as value graphs over a symbolic action, observation and configuration: an interval
analysis (clip/min/max in any spelling, branch conditions, ranges of bounded functions) bounds both beam coordinates inside
[0, 1]; the dwell time, affine in clipped action components, is evaluated at the ends of each clip and must be a convex
combination of the configured minimum and maximum there (or a constant that does not depend on the action).  No path raises
because of the action's value."""
from fractions import Fraction

from . import adapters as D
from .. import arr
from .. import interval as I
from .. import terms as T
from ..core import field
from ..terms import mk

MIN_OBLIGATIONS = 12
TECHNIQUE = 'interval analysis of value graphs'
ASSUMPTIONS = ['actions are real-valued (no NaN)', 'the configured minimum dwell time does not exceed the maximum']


def check(A):
  ads = D.all_adapters(A)
  A.ob('adapters-found', 'ActionAdapter', len(ads) >= 4, f'{[a.name for a in ads]}')
  for ad in ads:
    cs = ad.controls()
    construct = f'{ad.name}.get_action'
    if cs is None:
      A.ob('controls', construct, None, f'not a list of controls: {T.show(ad.run.result, 4)}', ad.where)
      continue
    A.ob('controls', construct, len(cs) >= 1, f'{len(cs)} controls', ad.where)
    for c in cs:
      for facts, spec in ad.cases():
        n = shape_len(ad, spec)
        xy, _ = D.coords(ad, c, n or 2)
        for k in (0, 1):
          if xy is None:
            A.ob('in-view', f'{construct}:{"xy"[k]}', None, f'coordinates not interpreted: {T.show(field(c, "position") or c, 5)}', ad.where)
            continue
          x = ad.under(xy[k], facts)
          i = I.interval(x)
          ok = None if i is None else (i[0] >= 0 and i[1] <= 1)
          A.ob('in-view', f'{construct}:{"xy"[k]}', ok, f'{"xy"[k]} in {i}: {T.show(x, 7)[:300]}', ad.where)
        dwell(A, ad, construct, c, facts)
    for e in ad.run.events:
      if e.kind == 'raise':
        g = [ad.sub(x) for x in e.conds(asserted=False)]
        ok = not any(T.contains_term(x, D.ACTION) and not only_shape(x) for x in g)
        A.ob('accepts-all-actions', construct, ok, 'raises depending on the action: ' + ' and '.join(T.show(x, 5) for x in g)[:300], e.where)


def only_shape(x):
  """The action occurs only through its shape/length."""
  y = T.subst(x, lambda t: mk('param', 'shape') if t.op == 'attr' and t.args[0] is D.ACTION and t.args[1] in ('shape', 'size', 'ndim', 'dtype') or
              t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] == 'len' and t.args[1] == (D.ACTION,) else None)
  return not T.contains_term(y, D.ACTION)


def shape_len(ad, spec):
  s = dict(spec.args[2]).get('shape') if spec.op == 'call' else None
  if s is None and spec.op == 'call' and spec.args[1]:
    s = spec.args[1][0]
  if s is not None and s.op in ('tuple', 'list') and len(s.args) == 1 and T.is_num(s.args[0]):
    return int(T.cval(s.args[0]))
  return None


def dwell(A, ad, construct, c, facts):
  d = ad.under(ad.sub(field(c, 'dwell_time')), facts)
  es = I.ends(d)
  if es is None:
    es = I.ends(cn_scalar(ad, d))
  if es is None:
    A.ob('dwell-in-range', construct, None, f'not affine in clipped quantities: {T.show(d, 8)[:400]}', ad.where)
    return
  free = [e for e in es if T.contains_term(e, D.ACTION)]
  if free:
    A.ob('dwell-in-range', construct, False, f'the dwell time follows the action without bound: {T.show(free[0], 8)[:400]}', ad.where)
    return
  for e in es:
    q = T.div(e, mk('unit', 'SECOND'))
    if T.is_num(q) and not any(k.op == 'item' for v in ad.config.values() for k in T.subterms(v)):
      A.ob('dwell-in-range', construct, len(es) == 1 and T.cval(q) > 0, f'fixed {T.show(e, 5)}', ad.where)
      continue
    ok, why = convex(e)
    A.ob('dwell-in-range', construct, ok, why, ad.where)


def cn_scalar(ad, d):
  return arr.Canon({**ad.shapes, D.ACTION: (3,)}).canon(d)


def convex(e):
  """A combination of dwell_time_range[0], dwell_time_range[1] with weights >= 0 summing to one."""
  rng = mk('param', 'dwell_time_range')
  w, rest = [Fraction(0), Fraction(0)], []
  items = e.args if e.op == 'poly' else (((((e, 1),), Fraction(1)),))
  for m, k in items:
    bases = [b for b, x in m if b.op != 'unit']
    if len(bases) == 1 and bases[0].op == 'item' and bases[0].args[0] is rng and T.is_num(bases[0].args[1]) and T.cval(bases[0].args[1]) in (0, 1) \
        and dict((id(b), x) for b, x in m)[id(bases[0])] == 1:
      w[int(T.cval(bases[0].args[1]))] += Fraction(k)
    else:
      rest.append((m, k))
  if rest:
    if all(b.op in ('unit', 'param') or (b.op == 'item' and b.args[0] is rng) for m, _ in rest for b, _x in m):
      return False, f'not within the configured range for every configuration: {T.show(e, 7)[:300]}'
    return None, f'not a combination of the configured range: {T.show(e, 7)[:300]}'
  ok = sum(w) == 1 and min(w) >= 0
  return ok, f'{w[0]}*minimum + {w[1]}*maximum at an end of the action range'
