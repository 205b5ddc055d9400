"""A missing silicon makes the microscope agent rescan.  (1) Exception-flow: both observation-dependent calls of
MicroscopeAgent.step lie in a try whose handler catches exactly the not-found error; the value returned on that path is a
one-element list holding a control with zero dwell and a position inside the unit square; that path reaches neither the
learning agent nor the adapter and leaves the first-step flag as it was.  (2) Every lookup the calls can reach (all concrete
feature constructors, the goal) raises the not-found error under a guard that is decided true for an empty silicon
selection and false for one silicon, before any shape-demanding use of the selection.  (3) The logger's step only calls
the wrapped step and raises nothing itself.  (4) Who-may-catch: no other handler in the package that could catch
the error encloses a call that can reach a lookup without re-raising."""
import ast

from . import envmodel as E
from .. import libnf, terms as T
from ..core import field, unknown
from ..terms import mk

MIN_OBLIGATIONS = 14
TECHNIQUE = 'exception-flow analysis on the value graph, guard evaluation on the empty selection, who-may-catch query'
ERR = 'putting_dune.graphene.SiliconNotFoundError'
FC = 'putting_dune.feature_constructors.FeatureConstructor'


# ------------------------------------------------------------------ guards on the silicon selection
def is_mask(t):
  return t.op == 'eq' and any(T.is_num(x) and T.cval(x) == 14 for x in t.args)


def is_sel(t):
  return t.op == 'item' and is_mask(t.args[1])


def num(t, n):
  if T.is_num(t):
    return T.cval(t)
  if t.op == 'attr' and t.args[1] == 'size' and is_sel(t.args[0]):
    return 2 * n
  if t.op == 'item' and t.args[0].op == 'attr' and t.args[0].args[1] == 'shape' and is_sel(t.args[0].args[0]) and t.args[1] is T.ZERO:
    return n
  if t.op == 'len' and is_sel(t.args[0]):
    return n
  if t.op == 'call' and t.args[1] and t.args[0].op == 'glob':
    g, a = t.args[0].args[0], t.args[1][0]
    if g in ('numpy.sum', 'numpy.count_nonzero', 'sum') and is_mask(a) or g in ('len',) and is_sel(a):
      return n
    if g == 'numpy.size' and is_sel(a):
      return 2 * n
  if t.op == 'floordiv':
    a, b = num(t.args[0], n), num(t.args[1], n)
    return a // b if a is not None and b else None
  if t.op == 'poly':
    out = 0
    for m, c in t.args:
      v = c
      for b, e in m:
        x = num(b, n)
        if x is None or (x == 0 and e < 0):
          return None
        v = v * x ** e
      out += v
    return out
  return None


def holds(t, n, atoms=None):
  """Truth of a guard when n silicon atoms are observed (None: depends on something else)."""
  if atoms and t in atoms:
    return atoms[t]
  if t is T.TRUE or t is T.FALSE:
    return t is T.TRUE
  if t.op == 'not':
    v = holds(t.args[0], n, atoms)
    return None if v is None else not v
  if t.op in ('and', 'or'):
    vs = [holds(x, n, atoms) for x in t.args]
    stop = t.op == 'or'
    if stop in vs:
      return stop
    return None if None in vs else not stop
  if n is not None and is_sel(t):
    return n > 0
  if n is not None and t.op == 'any' and is_mask(t.args[0]):
    return n > 0
  if n is not None and t.op == 'in' and T.is_num(t.args[0]) and T.cval(t.args[0]) == 14:
    return n > 0
  if n is not None and t.op in ('eq', 'lt', 'le'):
    a, b = num(t.args[0], n), num(t.args[1], n)
    if a is None or b is None:
      return None
    return {'eq': a == b, 'lt': a < b, 'le': a <= b}[t.op]
  if n is None:
    return None
  if t.op == 'lt0':
    v = num(t.args[0], n)
    return None if v is None else v < 0
  v = num(t, n)
  return None if v is None else bool(v)


def is_error(t):
  return (t.op in ('obj', 'new') and t.args[0] == ERR) or (t.op == 'glob' and t.args[0] == ERR) or (
      t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] == ERR)


def lookups(A, construct, r):
  raises = [e for e in r.events if e.kind == 'raise' and is_error(e.exc)]
  if not raises:
    uses = [e for e in r.events if any(T.contains(x, is_sel) for x in [e.d.get('recv')] + list(e.d.get('args', ())) if isinstance(x, T.Term))]
    A.ob('not-found-raised', construct, False if uses and not unknown(r.result) else None,
         'no SiliconNotFoundError on any path although the silicon selection is used' +
         (f' at {uses[0].where}' if uses else ''), uses[0].where if uses else r.where)
    return
  g = T.or_(*[T.and_(*[r.it.closed(c) for c in e.conds(asserted=False)]) for e in raises])
  empty, one = holds(g, 0), holds(g, 1)
  A.ob('raised-when-empty', construct, empty, f'guard {T.show(g, 6)} with no silicon is {empty}', raises[0].where)
  A.ob('not-raised-with-one', construct, None if one is None else not one, f'guard {T.show(g, 6)} with one silicon is {one}', raises[0].where)
  first = min(e.seq for e in raises)
  early = [e for e in r.events if e.seq < first and e.kind == 'call' and e.d.get('recv') is not None and is_sel(e.recv)
           and e.name == 'reshape' and not any(T.is_num(a) and T.cval(a) == -1 for a in e.args)]
  A.ob('no-use-before-lookup', construct, not early, 'the possibly empty selection is reshaped first' if early else '',
       early[0].where if early else r.where)


# ------------------------------------------------------------------ who may catch
def covers(prog, names):
  """Whether an exception handler for these types catches the not-found error."""
  sup = {'RuntimeError', 'Exception', 'BaseException', 'builtins.RuntimeError', 'builtins.Exception', 'builtins.BaseException', ERR, 'any'}
  for c in prog.mro(prog.classes[ERR]):
    sup.add(c.qual)
  return any(n in sup for n in names)


def reach_names(prog):
  """Names of functions from which a lookup may be reached (closure over called names)."""
  calls = {}
  every = dict(prog.funcs)
  for c in prog.classes.values():
    every.update({f'{c.qual}.{n}': f for n, f in c.methods.items()})
  for q, f in every.items():
    if not q.startswith('putting_dune.'):
      continue
    s = calls.setdefault(q.rpartition('.')[2], set())
    for n in ast.walk(f.node):
      if isinstance(n, ast.Call):
        s.add(n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', None))
      if isinstance(n, ast.Raise) and n.exc is not None and 'SiliconNotFoundError' in ast.dump(n.exc):
        s.add('!')
  hit = {'!'}
  while True:
    new = {n for n, s in calls.items() if s & hit} - hit - {'__call__', '__init__', 'main', 'get', 'run'}
    if not new:
      return hit - {'!'}
    hit |= new


def always_raises(body):
  if not body:
    return False
  s = body[-1]
  if isinstance(s, ast.Raise):
    return True
  if isinstance(s, ast.If):
    return always_raises(s.body) and always_raises(s.orelse)
  if isinstance(s, ast.With):
    return always_raises(s.body)
  return False


def swallowers(A):
  names = reach_names(A.prog)
  agent = A.prog.cls(E.AGENT)
  seen = 0
  for q, m in sorted(A.prog.modules.items()):
    if not q.startswith('putting_dune') or q.endswith('_test') or '.test' in q:
      continue
    allowed = {id(n) for n in ast.walk(agent.node)} if agent.mod is m else set()
    for t in ast.walk(m.tree):
      if not isinstance(t, ast.Try) or id(t) in allowed:
        continue
      for h in t.handlers:
        types = [] if h.type is None else (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])
        full = ['any'] if h.type is None else [m.resolve_name(ast.unparse(x)) or ast.unparse(x) for x in types]
        full = [A.prog.canon(x) if hasattr(A.prog, 'canon') else x for x in full]
        seen += 1
        if not covers(A.prog, full):
          continue
        called = {c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, 'id', None)
                  for s in t.body for c in ast.walk(s) if isinstance(c, ast.Call)}
        hot = sorted(x for x in called & names if x)
        ok = not hot or always_raises(h.body)
        A.ob('who-may-catch', f'{m.rel}:{enclosing(m.tree, t)}', ok,
             f'a handler for {full} encloses {hot} and does not re-raise' if not ok else f'handler for {full}', f'{m.rel}:{h.lineno}')
  A.ob('handlers-inspected', 'putting_dune', True, f'{seen} handlers, {len(names)} names may reach a lookup')


def enclosing(tree, node):
  best = ''
  for f in ast.walk(tree):
    if isinstance(f, ast.FunctionDef) and any(x is node for x in ast.walk(f)):
      best = f.name
  return best or '<module>'


# ------------------------------------------------------------------ the agent
def branch(t, raised):
  """The value on the handler path / on the normal path."""
  c = t
  while c.op == 'phi' and T.contains(c.args[0], lambda x: x.op == 'raised'):
    c = T.assume(c, [x for x in T.subterms(c.args[0]) if x.op == 'raised'][0], raised)
    if c is t:
      break
    t = c
  return c


def check(A):
  r, s = E.agent_pair(A, 'step')
  tries = [e for e in r.events if e.kind == 'call' and e.d.get('name') in ('get_features', 'calculate_reward_and_terminal')]
  seen = {e.name for e in tries}
  A.ob('observed', 'MicroscopeAgent.step', seen == {'get_features', 'calculate_reward_and_terminal'}, f'{sorted(seen)}', r.where)
  for e in tries:
    hs = [x for c in e.ctx if c[0] == 'try' for x in c[2]]
    caught = any(ERR in h for h in hs)
    A.ob('lookup-guarded', f'MicroscopeAgent.step:{e.name}', caught or any(covers(A.prog, h) for h in hs), 'inside a try that handles the not-found error' if caught else
         f'called where the not-found error is not handled (handlers {hs})', e.where)
    wide = [h for h in hs if covers(A.prog, h) and any(n not in (ERR,) and 'SiliconNotFound' not in n for n in h)]
    A.ob('handler-not-wider', f'MicroscopeAgent.step:{e.name}', not wide, f'handlers {hs}', e.where)
  cond = [x for x in T.subterms(r.result) if x.op == 'raised']
  if not cond:
    A.ob('rescan', 'MicroscopeAgent.step', False if not unknown(r.result) else None, 'no value is returned on the not-found path', r.where)
  else:
    v = branch(r.result, True)
    ends = alternatives(v)
    ok = v.op in ('list', 'tuple') and len(v.args) == 1
    A.ob('rescan-one-control', 'MicroscopeAgent.step',
         ok if len(ends) == 1 and v.op in ('list', 'tuple') else False if any(x.op in ('list', 'tuple', 'const') and len(x.args) != 1 or x is T.NONE for x in ends) else None,
         T.show(v, 6), r.where)
    if ok:
      c = v.args[0]
      d, p = field(c, 'dwell_time'), field(c, 'position')
      A.same('rescan-zero-dwell', 'MicroscopeAgent.step', d if d is not None else mk('unset'), T.ZERO, r.where)
      xy = coords(p)
      A.ob('rescan-inside-view', 'MicroscopeAgent.step', None if xy is None else all(0 <= v <= 1 for v in xy), f'position {T.show(p, 6) if p is not None else p}', r.where)
    A.ob('agent-not-consulted', 'MicroscopeAgent.step', not T.contains(v, lambda x: x.op in ('mcall', 'vcall') and 'step' in map(str, x.args)),
         '', r.where)
  mine = {[c[1] for c in e.ctx if c[0] == 'try' and any(ERR in h or covers(A.prog, h) for h in c[2])][-1] for e in tries
          if any(c[0] == 'try' and any(ERR in h or covers(A.prog, h) for h in c[2]) for c in e.ctx)}
  again = [e for e in r.events if e.kind == 'raise' and any(c[0] == 'except' and c[1] in mine and (ERR in c[2] or covers(A.prog, c[2])) for c in e.ctx)]
  A.ob('rescan-raises-nothing', 'MicroscopeAgent.step', not again, 'the handler of the not-found error raises', again[0].where if again else r.where)
  hot = [e for e in r.events if e.kind == 'call' and any(c[0] == 'except' for c in e.ctx) and e.d.get('recv') is not None
         and T.contains_term(e.recv, E.ME)]
  A.ob('no-effects-on-rescan', 'MicroscopeAgent.step', not hot, f'{[T.show(e.recv, 3) + "." + e.name for e in hot]}' if hot else '', hot[0].where if hot else r.where)
  E.same_attr(A, 'first-step-kept', E.AGENT, 'step', r, s, '_is_first_step')
  # lookups
  for c in A.prog.subclasses(FC):
    f = A.prog.lookup(c, 'get_features')
    if f is None or f.is_abstract or not c.qual.startswith('putting_dune.'):
      continue
    run = A.node_of(c, 'get_features', names=['observation', 'goal'], types={'observation': 'microscope_utils.MicroscopeObservation', 'goal': E.GOAL},
                    exact_types=True)
    lookups(A, f'{c.name}.get_features', run)
  for name, names in (('reset', ['rng', 'observation']), ('calculate_reward_and_terminal', ['observation'])):
    run = A.method(E.GOAL, name, names=names, types={'observation': 'microscope_utils.MicroscopeObservation'})
    lookups(A, f'SingleSiliconGoalReaching.{name}', run)
  several(A)
  # logger
  run = A.method(E.LOGGER, 'step', names=['observation'], no_inline=E.outside(E.LOGGER))
  wrapped = mk('attr', E.ME, '__wrapped__')
  calls = [e for e in run.events if e.kind == 'call' and e.d.get('recv') is not None and T.contains_term(e.recv, wrapped) and not e.pure]
  A.ob('logger-only-steps', 'MicroscopeAgentLogger.step', [e.name for e in calls] == ['step'],
       f'calls on the wrapped agent: {[T.show(e.recv, 4) + "." + e.name for e in calls]}', calls[-1].where if calls else run.where)
  bad = [e for e in run.events if e.kind == 'raise']
  A.ob('logger-raises-nothing', 'MicroscopeAgentLogger.step', not bad, '', bad[0].where if bad else run.where)
  st = [e for e in calls if e.name == 'step']
  A.ob('logger-returns-controls', 'MicroscopeAgentLogger.step', bool(st) and run.it.closed(st[0].result) is run.result if not unknown(run.result) else None,
       T.show(run.result, 4), run.where)
  swallowers(A)


def several(A):
  """One silicon is read as it is, of several the one nearest the centre of the view."""
  name = 'get_single_silicon_position'
  r = A.func(f'graphene.{name}', names=['grid'], types={'grid': 'microscope_utils.AtomicGrid'})
  raises = [e for e in r.events if e.kind == 'raise']
  g = T.or_(*[T.and_(*[r.it.closed(c) for c in e.conds(asserted=False)]) for e in raises])
  for n in (1, 2, 3):
    v = holds(g, n)
    A.ob('found-with-several', f'{name}: {n}', None if v is None else not v, f'raises when {T.show(g, 6)}', r.where)
  nf, vocab = A.nf, A.vocab
  A.nf, A.vocab = libnf.nf, True
  for n, ref in ((1, 'only_silicon'), (2, 'central_silicon'), (3, 'central_silicon')):
    s = A.know(A.spec('graphene.' + ref))
    v, w = r.it.closed(r.result), s.it.closed(s.result)
    for _ in range(4):
      v = T.rewrite(v, lambda x: {True: x.args[1], False: x.args[2], None: None}[holds(x.args[0], n)] if x.op == 'phi' else None)
    A.same('silicon-read', f'{name}: {n}', libnf.nf(flat(v)), libnf.nf(flat(w)), r.where)
  A.nf, A.vocab = nf, vocab


def flat(t):
  """A position flattened twice is flattened."""
  f = lambda x: mk('mcall', 'reshape', x.args[1].args[1], *x.args[2:]) if x.op == x.args[1].op == 'mcall' and x.args[0] == x.args[1].args[0] == 'reshape' else None
  return T.rewrite(t, lambda x: f(x) if x.op == 'mcall' and isinstance(x.args[1], T.Term) else None)


def alternatives(t):
  return alternatives(t.args[1]) + alternatives(t.args[2]) if t.op == 'phi' else [t]


def coords(p):
  while p is not None and p.op in ('new', 'call') and p.args and p.op == 'new':
    v = field(p, 'point') or field(p, 'position')
    if v is None:
      break
    p = v
  if p is not None and p.op == 'call' and p.args[1]:
    a = p.args[1]
    xs = list(a[0].args) if len(a) == 1 and a[0].op in ('tuple', 'list') else list(a)
    if len(xs) == 2 and all(T.is_num(x) for x in xs):
      return [T.cval(x) for x in xs]
  return None
