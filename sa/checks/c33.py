"""The value graph of every imaging function (atom mask, clean image, each noise effect, the whole rendering pipeline with its
helpers inlined) is compared, after normalising library call spellings, with a reference model; so each effect is applied once,
with its own parameter and the caller's generator, and pixels are laid out with y up in the field of view.  Interval analysis
bounds every sampled imaging parameter from below, and checks each is an independent draw from the given generator."""
from .. import libnf, terms as T
from ..terms import mk

MIN_OBLIGATIONS = 20
TECHNIQUE = 'value-graph comparison with a reference renderer (library-call normal form); interval analysis of sampled parameters'
FUNCS = ('apply_gaussian_noise', 'apply_jitter', 'apply_poisson_noise', 'apply_salt_and_pepper_noise', 'apply_blur', 'apply_contrast',
         'apply_exponential_noise', 'apply_uniform_noise', 'generate_grid_mask', 'generate_clean_image', 'generate_stem_image')
POSITIVE = {'poisson_rate_multiplier', 'contrast_gamma', 'intensity_exponent'}
KW = dict(no_inline=lambda f: 'frame_to_' in f.name)


def check(A):
  A.nf, A.vocab = libnf.nf, True
  for n in FUNCS:
    names = [a.arg for a in A.spec_module('imaging').defs[n][1].args.args]
    r, s = A.func('imaging.' + n, names=names, **KW), A.spec('imaging.' + n, **KW)
    A.same('image', n, r.result, s.result, r.where)
  fields = A.prog.cls('imaging.ImageGenerationParameters')
  for n in ('sample_image_parameters', 'sample_noisy_image_parameters'):
    r = A.func('imaging.' + n, names=['rng', 'image_size'])
    out = r.result
    if out.op != 'new':
      A.ob('parameters', n, None, f'{T.show(out, 4)}', r.where)
      continue
    vals = dict(out.args[1]) if isinstance(out.args[1], tuple) else {}
    rng, seen = mk('param', 'rng'), {}
    for f, v in vals.items():
      if f == 'image_size':
        A.ob('parameter', f'{n}.{f}', v is mk('param', 'image_size'), T.show(v, 4), r.where)
        continue
      lo = lower(v)
      d = [x for x in T.subterms(v) if x.op == 'mcall']
      A.ob('parameter-range', f'{n}.{f}', None if lo is None else lo > 0 if f in POSITIVE else lo >= 0, f'{T.show(v, 4)} >= {lo}', r.where)
      A.ob('parameter-generator', f'{n}.{f}', all(base(x.args[1]) is rng for x in d) if d else None, T.show(v, 4), r.where)
      A.ob('parameter-independent', f'{n}.{f}', v not in seen, f'same draw as {seen.get(v)}' if v in seen else 'own draw', r.where)
      if d:
        seen[v] = f


def base(t):
  while t.op == 'at' or t.op == 'attr':
    t = t.args[0]
  return t


def lower(t):
  if T.is_num(t):
    return T.cval(t)
  if t.op == 'mcall':
    d = libnf.bind(t.args[2], t.args[3], libnf.RNG.get(t.args[0], (None, {})))
    kw = dict(d[1]) if d else {}
    if t.args[0] == 'uniform':
      lo = kw.get('low', T.ZERO)
      return T.cval(lo) if T.is_num(lo) else None
    if t.args[0] in ('exponential', 'poisson', 'gamma', 'beta'):
      return 0
    return None
  if t.op == 'poly':
    s = 0
    for c, m in T.poly_terms(t):
      p = c
      for b, e in m:
        l = lower(b)
        if l is None or l < 0 or e < 0:
          return None
        p *= l ** e
      if c < 0:
        return None
      s += p
    return s
  if t.op == 'phi':
    a, b = lower(t.args[1]), lower(t.args[2])
    return None if a is None or b is None else min(a, b)
  return None
