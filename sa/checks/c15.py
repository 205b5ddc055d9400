"""For each action adapter and each configuration its spec distinguishes: the declared shape, dtype and bounds (value graph
of action_spec) against the action elements actually read by get_action (element-wise normal form of the control's value
graph).  Every declared component is read, none beyond; the bounds of every clipping of an action component are the declared
bounds of that component; the beam position as a function of the action equals the reference displacement (fraction of the
view, fixed delta, multiples of the configured distance, Angstroms), and the variable dwell time reaches the configured
minimum and maximum at the declared ends."""
from . import adapters as D
from .. import arr
from .. import interval as I
from .. import terms as T
from ..core import field, equivalent
from ..terms import mk, const

MIN_OBLIGATIONS = 25
TECHNIQUE = 'producer/consumer contract comparison on value graphs (element-wise reads of the action vs. the declared spec)'


def record(spec):
  if spec.op == 'call' and spec.args[0].op == 'glob' and spec.args[0].args[0].endswith('BoundedArray'):
    kw = dict(spec.args[2])
    for n, v in zip(('shape', 'dtype', 'minimum', 'maximum', 'name'), spec.args[1]):
      kw.setdefault(n, v)
    return kw
  return None


def bound(t, k, n):
  cn = arr.Canon({})
  try:
    s = cn.shape(t)
    if s == ():
      return t
    if s == (n,):
      return cn.elem(t, (const(k),))
  except arr.NoShape:
    pass
  return None


def check(A):
  ads = D.all_adapters(A)
  A.ob('adapters-found', 'ActionAdapter', len(ads) >= 4, f'{[a.name for a in ads]}')
  for ad in ads:
    for facts, spec in ad.cases():
      case(A, ad, facts, spec)
    reference(A, ad)


def case(A, ad, facts, spec):
  tag = '' if not facts else ':' + ','.join(('' if v is T.TRUE else 'not ') + T.show(c, 4) for c, v in facts)
  cons = f'{ad.name}{tag}'[:160]
  kw = record(spec)
  n = None
  if kw is not None and 'shape' in kw:
    try:
      s = arr.dims(kw['shape'])
      n = s[0] if len(s) == 1 else None
    except arr.NoShape:
      pass
  if kw is None or n is None or not {'minimum', 'maximum'} <= set(kw):
    A.ob('spec', cons, None, f'spec not interpreted: {T.show(spec, 5)}', ad.spec.where)
    return
  A.ob('dtype-declared', cons, kw.get('dtype') is mk('glob', 'numpy.float32'), T.show(kw.get('dtype') or T.NONE, 3), ad.spec.where)
  bounds = [(bound(kw['minimum'], k, n), bound(kw['maximum'], k, n)) for k in range(n)]
  if any(x is None or not T.is_num(x) for b in bounds for x in b):
    A.ob('bounds-shape', cons, False if all(arr.Canon({}).known(kw[m]) is not None for m in ('minimum', 'maximum')) else None,
         f'bounds do not cover {n} components: {T.show(kw["minimum"], 5)}, {T.show(kw["maximum"], 5)}', ad.spec.where)
    return
  A.ob('bounds-shape', cons, all(T.cval(a) < T.cval(b) for a, b in bounds), f'{[(str(T.cval(a)), str(T.cval(b))) for a, b in bounds]}', ad.spec.where)
  used, clips, vague = set(), {}, []
  for c in ad.controls() or []:
    xy, cn = D.coords(ad, c, n)
    cn = cn or arr.Canon({**ad.shapes, D.ACTION: (n,)})
    d = ad.sub(field(c, 'dwell_time'))
    # attributes the adapter keeps between calls are part of what an action does
    for t in list(xy or [ad.sub(field(c, 'position'))]) + [cn.canon(ad.under(d, facts))]:
      t = ad.under(t, facts)
      scan(t, n, used, clips, vague, False)
  if vague:
    t = vague[0]
    cn = arr.Canon({**ad.shapes, D.ACTION: (n,)})
    A.ob('consumed', cons, None, f'the action is read in a way not interpreted: {T.show(t, 6)[:300]}', ad.where)
  else:
    A.ob('every-component-used', cons, set(range(n)) <= used, f'components read: {sorted(used)} of {n} declared', ad.where)
    A.ob('no-component-beyond', cons, all(0 <= k < n for k in used), f'components read: {sorted(used)} of {n} declared', ad.where)
  for k, cs in sorted(clips.items()):
    for lo, hi in cs:
      if k < n and T.is_num(lo) and T.is_num(hi):
        a, b = bounds[k]
        A.ob('saturates-at-bounds', f'{cons}[{k}]', lo is a and hi is b,
             f'component {k} is clipped to [{T.show(lo, 2)}, {T.show(hi, 2)}], declared [{T.show(a, 2)}, {T.show(b, 2)}]', ad.where)
  # the dwell time at the declared ends
  for c in ad.controls() or []:
    d = ad.under(ad.sub(field(c, 'dwell_time')), facts)
    d = arr.Canon({**ad.shapes, D.ACTION: (n,)}).canon(d)
    ks = {int(T.cval(x.args[1])) for x in T.subterms(d) if x.op == 'el' and x.args[0] is D.ACTION and T.is_num(x.args[1])}
    rng = mk('param', 'dwell_time_range')
    if len(ks) == 1 and max(ks) < n:
      k = ks.pop()
      for e, want, what in ((0, mk('item', rng, T.ZERO), 'minimum'), (1, mk('item', rng, T.ONE), 'maximum')):
        v = T.subst(d, lambda x: bounds[k][e] if x.op == 'el' and x.args[0] is D.ACTION else None)
        v = T.rewrite(v, fold)
        ok = equivalent(v, want)
        A.ob('dwell-extreme', f'{cons}:{what}', ok or (False if not T.contains(v, lambda x: x.op in ('call', 'mcall')) or coarse(v, rng) else None),
             f'dwell time at the {what} of component {k}: {T.show(v, 6)}', ad.where)
    elif not ks:
      ok = n <= 2 or None
      if any(T.contains_term(v, rng) for v in ad.config.values()):
        same = T.eq(mk('item', rng, T.ZERO), mk('item', rng, T.ONE))
        known = dict(facts).get(same)
        bound_ = lambda x: any(c.op == 'lt0' and v is T.TRUE and T.contains_term(c, rng) and not T.contains(c, lambda y: y.op in ('call', 'mcall'))
                               for c, v in x)
        ok = True if known is T.TRUE else (False if known is T.FALSE or not facts or bound_(facts) else None)
      A.ob('dwell-varies', cons, ok, f'dwell time does not depend on the action: {T.show(d, 5)}', ad.where)


COARSE = ('round', 'around', 'rint', 'floor', 'ceil', 'trunc', 'int', 'abs', 'absolute', 'norm', 'sign')


def coarse(t, of):
  """Rounding, magnitude or sign of the quantity, none of which a displacement or dwell time declared per component has."""
  for x in T.subterms(t):
    if x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0].split('.')[-1] in COARSE and any(
        T.contains_term(a, of) for a in [*x.args[1], *(v for _, v in x.args[2])] if isinstance(a, T.Term)):
      return x
  return None


def fold(x):
  c = I.as_clip(x)
  if c is None or x.op == 'cast':
    return None
  y, lo, hi = c
  if all(z is None or T.is_num(z) for z in c):
    v = T.cval(y)
    if lo is not None:
      v = max(v, T.cval(lo))
    if hi is not None:
      v = min(v, T.cval(hi))
    return const(v)
  return None


def scan(t, n, used, clips, vague, _):
  """Elements of the action read in t, and the clips applied directly to them."""
  for x in T.subterms(t):
    c = I.as_clip(x)
    if c is not None and c[0].op == 'el' and c[0].args[0] is D.ACTION and T.is_num(c[0].args[1]) and c[1] is not None and c[2] is not None:
      clips.setdefault(int(T.cval(c[0].args[1])), set()).add((c[1], c[2]))
    if x.op == 'el' and x.args[0] is D.ACTION:
      if T.is_num(x.args[1]):
        used.add(int(T.cval(x.args[1])))
  y = T.subst(t, lambda x: T.ZERO if x.op == 'el' and x.args[0] is D.ACTION and T.is_num(x.args[1]) else None)
  if T.contains_term(y, D.ACTION):
    vague.append(y)


def reference(A, ad):
  """Where the beam goes, for the adapters documented."""
  ref = D.KNOWN.get(ad.name)
  if ref is None or ad.control is None:
    return
  s = A.spec(f'adapters.{ref}', cls=ad.c.qual[len('putting_dune.'):], names=['previous_observation', 'action'], types=D.KW['types'],
             no_inline=D.KW['no_inline'], pure=D.KW['pure'])
  t = ad.sub(s.it.closed(s.result))
  for (base, a), v in list(s.it.heap.items()):
    if base is D.ME:
      w = ad.run.heap(D.ME, a)
      A.same('kept-position', f'{ad.name}.get_action:{a}', T.rewrite(ad.sub(w), clipform) if w is not None else mk('attr', D.ME, a),
             T.rewrite(ad.sub(s.it.closed(v)), clipform), ad.where)
  xy, cn = D.coords(ad, ad.control, 3)
  if ad.name in ('DirectActionAdapter', 'DeltaPositionActionAdapter'):
    xy, cn = D.coords(ad, ad.control, 2)
  if xy is None:
    x = coarse(ad.sub(field(ad.control, 'position')), D.ACTION)
    A.ob('beam-position', f'{ad.name}.get_action', None if x is None else False,
         'coordinates not interpreted' if x is None else f'beam position depends on {T.show(x, 4)}', ad.where)
    return
  for k in (0, 1):
    try:
      w = cn.elem(t, (const(k),))
    except arr.NoShape:
      A.ob('beam-position', f'{ad.name}.get_action:{"xy"[k]}', None, f'reference not interpreted {T.show(t, 6)}', ad.where)
      continue
    A.same('beam-position', f'{ad.name}.get_action:{"xy"[k]}', T.rewrite(xy[k], clipform), T.rewrite(w, clipform), ad.where)


def clipform(x):
  c = I.as_clip(x)
  if c is not None and x.op == 'call' and x.args[0].args[0] != 'numpy.clip' and c[1] is not None and c[2] is not None:
    return mk('call', mk('glob', 'numpy.clip'), c, (), None)
  if x.op == 'mcall' and c is not None:
    return mk('call', mk('glob', 'numpy.clip'), c, (), None)
  return None
