"""A training run started again: the state from which the epochs start and the first epoch are taken from the value graph of the program
and evaluated, symbolically in the number of the newest checkpoint, for the three cases there are (none, the first epoch's, a later one)."""
from .. import libnf, terms as T
from ..terms import mk
from .c36 import PROGRAMS, is_glob, plain, apply

MIN_OBLIGATIONS = 6
TECHNIQUE = 'value-graph analysis of training loops: case split on the newest checkpoint, polynomial comparison of epoch numbers, inverse renamings'
LATEST = mk('param', 'number of the newest checkpoint')


def check(A):
  A.nf, A.vocab = libnf.nf, False
  for name in PROGRAMS:
    program(A, name)


def newest(t):
  return t.op == 'mcall' and t.args[0] == 'latest_step' and not t.args[2]


def case(t, kind):
  """t when there is no checkpoint, when the newest is that of epoch 0, and when it is a later one."""
  v = {'none': T.NONE, 'first': T.const(0), 'later': LATEST}[kind]
  t = T.subst(t, lambda x: v if newest(x) else None)
  if kind != 'later':
    return t

  def f(x):
    if x.op == 'is' and x.args[0] is LATEST and x.args[1] is T.NONE:
      return T.FALSE
    if x.op == 'phi' and x.args[0] is LATEST:
      return T.subst(x.args[1], f)
    if x.op == 'not' and x.args[0] is LATEST:
      return T.FALSE
    return None
  return T.subst(t, f)


def epochs(t):
  """(first, past the last) of the epochs trained."""
  r = [x for x in T.subterms(t) if x.op == 'call' and is_glob(x.args[0], 'range')]
  if len(r) != 1 or not 1 <= len(r[0].args[1]) <= 2:
    return None, None
  a = r[0].args[1]
  return (T.const(0), a[0]) if len(a) == 1 else a


def program(A, name):
  r = A.func(f'{name}.train.train')
  it = r.it
  saves = [e for e in r.events if e.kind == 'call' and e.d.get('name') == 'save' and 'step' in (e.d.get('kwargs') or {})]
  inside = [e for e in saves if any(c[0] == 'loop' for c in e.ctx)]
  if not inside:
    A.ob('saved-number', f'{name}: checkpoints of the epochs', None, 'no checkpoint is saved in a loop', r.where)
    return
  for e in inside:
    h, dom = [(c[1], c[2]) for c in e.ctx if c[0] == 'loop'][-1]
    num = plain(it.closed(e.d['kwargs']['step']))
    dom = plain(it.closed(dom)) if isinstance(dom, T.Term) else None
    first, stop = epochs(dom) if dom is not None else (None, None)
    if first is None:
      A.ob('saved-number', f'{name}: checkpoints of the epochs', None, 'the epochs are not a range', e.where)
      return
    # the number under which an epoch is saved, as a polynomial in the epoch
    ep = mk('param', 'epoch')
    num = T.subst(num, lambda x: ep if x.op == 'item' and x.args[1].op == 'ix' and x.args[1].args[0] == h else None)
    if num.op == 'poly' or num is ep:
      num = T.subst(num, lambda x: ep if x.op == 'ix' and x.args[0] == h else None)
    if T.sub(num, ep).op != 'const':
      A.ob('saved-number', f'{name}: checkpoints of the epochs', False if num.op == 'const' or not T.contains_term(num, ep) and not T.contains(num, lambda x: x.op == 'ix') else None,
           f'epochs are saved under {T.show(num, 4)[:160]}', e.where)
      continue
    A.ob('saved-number', f'{name}: checkpoints of the epochs', True, f'epochs are saved under {T.show(num, 4)}', e.where)
    g = plain(it.closed(e.guard()))
    ofepoch = T.contains(g, lambda x: x.op in ('ix', 'mod', 'floordiv') and (x.op != 'ix' or x.args[0] == h))
    A.ob('every-epoch-saved', f'{name}: checkpoints of the epochs', True if g is T.TRUE else False if ofepoch and not T.contains(g, lambda x: x.op in ('unknown', 'bottom', 'maybe')) else None,
         'saved after every epoch' if g is T.TRUE else f'only saved when {T.show(g, 5)[:160]}', e.where)
    for kind, want, text in (('none', T.const(0), 'the first without a checkpoint'), ('later', T.add(LATEST, T.const(1)), 'the one after the newest checkpoint')):
      got = case(first, kind)
      if kind == 'later':
        got = T.subst(num, lambda x: got if x is ep else None)
      alike(A, f'{name}: {text}', got, want, e.where)
    zero = case(first, 'first')
    zero = T.subst(num, lambda x: zero if x is ep else None)
    alike(A, f'{name}: the one after the checkpoint of the first epoch', zero, T.const(1), e.where)
    end = stop.op == 'attr' and stop.args[0] is mk('param', 'config') and stop.args[1] == 'epochs'
    A.ob('last-epoch', f'{name}: epochs trained', True if end else False if settled(stop) else None, f'up to {T.show(stop, 4)[:160]}', e.where)
  restored(A, name, r)
  names(A, name, r)


def alike(A, text, got, want, where):
  if settled(got):
    A.same('first-epoch', text, got, want, where)
    return
  odd = [b for b in branches(got) if settled(b) and T.sub(b, want).op == 'const' and T.sub(b, want) is not T.const(0) or b.op == 'const' and want.op != 'const']
  free = got.op == 'phi' and not T.contains(got, lambda x: x.op not in ('phi', 'param', 'const', 'attr', 'v', 'poly', 'lt0', 'le0', 'lt', 'le', 'eq', 'not', 'and', 'or'))
  A.ob('first-epoch', text, False if odd and free else None, T.show(got, 5)[:200], where)


def settled(t):
  return t.op in ('const', 'poly', 'param')


def initial(r):
  """The state with which the loop over the epochs starts."""
  it = r.it
  out = []
  for x in T.subterms(plain(it.closed(r.result))):
    if x.op == 'fold':
      for init, body in x.args[2]:
        if any(y.op == 'call' and is_glob(y.args[0], 'functools.reduce') for y in T.subterms(body)):
          out.append(init)
  return out


def restored(A, name, r):
  inits = initial(r)
  if len({*inits}) != 1:
    A.ob('restored', f'{name}: state at the start', None, f'{len(inits)} initial states', r.where)
    return
  init = inits[0]
  for kind, text in (('none', 'no checkpoint'), ('first', 'the checkpoint of the first epoch'), ('later', 'a later checkpoint')):
    t = T.rewrite(case(init, kind), lambda x: None)
    live = branches(t)
    rs = [[y for y in T.subterms(b) if y.op == 'mcall' and y.args[0] == 'restore'] for b in live]
    if kind == 'none':
      A.ob('restored', f'{name}: {text}', not any(rs), f'{len(live)} possible states, {len([x for x in rs if x])} of them restored', r.where)
      continue
    want = LATEST if kind == 'later' else T.const(0)
    if len(live) > 1 and any(rs) and not all(rs):
      A.ob('restored', f'{name}: {text}', None, f'{len(live)} possible states', r.where)
      continue
    ok = all(rs) and all(x.args[2] and x.args[2][0] is want for b in rs for x in b)
    A.ob('restored', f'{name}: {text}', ok if ok or not any(rs) or all(settled(x.args[2][0]) for b in rs for x in b if x.args[2]) else None,
         f'{"the state restored" if any(rs) else "the state just created"} is trained', r.where)
    if kind == 'later':
      for b in live:
        part = b.op == 'mcall' and b.args[0] in ('replace', '_replace') and not any(y.op == 'mcall' and y.args[0] == 'restore' for y in T.subterms(b.args[1])) and b.args[3]
        if part:
          A.ob('restored', f'{name}: every value', False, f'only {", ".join(str(k) for k, _ in part)} of the state restored is kept', r.where)
        leaf(A, name, b, r)


def branches(t):
  if t.op == 'phi':
    return branches(t.args[1]) + branches(t.args[2])
  return [t]


def leaf(A, name, t, r):
  """Where old and restored values are combined, the restored one is taken."""
  if t.op == 'call' and (is_glob(t.args[0], 'tree_util.tree_map') or is_glob(t.args[0], 'tree.map')) and t.args[1] and t.args[1][0].op == 'lam':
    trees = t.args[1][1:]
    src = [i for i, x in enumerate(trees) if any(y.op == 'mcall' and y.args[0] == 'restore' for y in T.subterms(x))]
    if len(src) == 1:
      vs = [mk('param', f'value of tree {i}') for i in range(len(trees))]
      v = apply(t.args[1][0], vs)
      v = T.subst(v, lambda x: T.FALSE if x.op == 'is' and x.args[0] in vs and x.args[1] is T.NONE else None)
      A.ob('restored', f'{name}: every value', True if v is vs[src[0]] else False if v in vs else None, f'{T.show(v, 4)[:120]} is kept', r.where)


def names(A, name, r):
  """Parameter names are restored by the inverse of the renaming with which they are saved."""
  first = next((i for i, e in enumerate(r.events) if e.kind == 'call' and is_glob(e.d.get('fn'), 'functools.reduce')), None)
  if first is None:
    return
  sides = ([], [])
  for i, e in enumerate(r.events):
    if e.kind == 'call' and e.d.get('name') == 'replace' and len(e.d['args']) == 2 and all(isinstance(x, T.Term) and x.op == 'const' and isinstance(T.cval(x), str) for x in e.d['args']):
      sides[i > first].append(tuple(T.cval(x) for x in e.d['args']))
  if sides[0] or sides[1]:
    back, forth = set(sides[0]), set(sides[1])
    A.ob('names-restored', f'{name}: checkpoint names', {(b, a) for a, b in forth} == back, f'saved with {sorted(forth)}, restored with {sorted(back)}', r.where)
