"""Each built-in agent is constructed with symbolic settings and stepped; the action as a value of those settings, the observation and the agent's
generator is compared with a reference model, for one step and for a later one."""
import ast

from .. import libnf, terms as T
from ..terms import mk
from .c36 import is_glob, plain

MIN_OBLIGATIONS = 5
TECHNIQUE = 'value graphs of construction followed by a step, compared with a reference model'


def absent(c):
  return c.op in ('is', 'eq') and T.NONE in c.args and any(a.op == 'param' for a in c.args)


def given(t):
  """Every setting that may be left out was given."""
  for _ in range(8):
    u = T.subst(t, lambda x: None if x.op != 'phi' else x.args[2] if absent(x.args[0]) else x.args[1] if x.args[0].op == 'not' and absent(x.args[0].args[0]) else None)
    if u is t:
      break
    t = u
  return t


def whole(t):
  if t.op == 'item' and t.args[1] is T.NONE:
    return t.args[0]  # a leading axis of one, for broadcasting
  if name(t) in ('numpy.argmin', 'numpy.argmax'):
    kw = dict(t.args[2])
    u = squared(kw.get('a', T.NONE))
    if u is not None:
      if kw.get('axis') in (T.const(0), T.const(-1)):
        del kw['axis']  # the lengths of a list of vectors
      return mk('call', t.args[0], t.args[1], tuple(sorted({**kw, 'a': u}.items(), key=lambda x: x[0])), None)
  return None


def name(t):
  return t.args[0].args[0] if t.op == 'call' and t.args[0].op == 'glob' else None


def squared(t):
  """The order of euclidean lengths is that of their squares."""
  if name(t) == 'numpy.linalg.norm' and set(dict(t.args[2])) <= {'x', 'axis'}:
    kw = dict(t.args[2])
    return mk('call', mk('glob', 'numpy.sum'), (), tuple(sorted({**kw, 'a': T.mul(kw['x'], kw['x'])}.items() - {('x', kw['x'])}, key=lambda x: x[0])), None)
  if name(t) == 'numpy.sum' and dict(t.args[2]).get('axis') == T.const(-1):
    return t
  if name(t) == 'numpy.sqrt':
    return (list(t.args[1]) + list(dict(t.args[2]).values()) + [None])[0]
  return None


def of(r):
  return T.subst(T.subst(libnf.nf(plain(given(r.it.closed(r.result)))), lambda t: whole(t) if t.op == 'item' else None), whole)


def check(A):
  A.nf, A.vocab = libnf.nf, True
  where = lambda c, m: A.prog.method(c, m)
  L = 'agents.agent_lib.'
  A.know(A.spec('agents.others'))
  A.known |= {f'{m}.StepType.{n}' for m in ('dm_env', 'pdmodel.dm_env') for n in ('FIRST', 'MID', 'LAST')}
  for d, ref, rule, name, cls in (('run_random', 'random', 'random', 'UniformRandomAgent: action', 'UniformRandomAgent'), ('run_random_twice', 'random_twice', 'random', 'UniformRandomAgent: later action', 'UniformRandomAgent'),
                                  ('run_greedy', 'greedy', 'greedy', 'GreedyAgent: action', 'GreedyAgent'), ('run_greedy_found', 'greedy_found', 'greedy', 'GreedyAgent: action from a rate function', 'GreedyAgent'),
                                  ('run_both', 'greedy_both', 'greedy', 'GreedyAgent: a rate function beats a fixed aim', 'GreedyAgent'),
                                  ('run_greedy_twice', 'greedy_twice', 'greedy', 'GreedyAgent: later action', 'GreedyAgent'),
                                  ('run_given', 'greedy_given', 'greedy', 'GreedyAgent: what it aims at', 'GreedyAgent'), ('run_tf', 'tf', 'policy', 'TfEvalAgent: action', None)):
    r, s = A.spec('agents.' + d), A.know(A.spec('agents.' + ref))
    f = A.prog.funcs.get(f'putting_dune.{L}{cls}.step') if cls else A.prog.funcs.get('putting_dune.agents.tf_eval_agent.TfEvalAgent.step')
    w = f'putting_dune/{"agents/agent_lib.py" if cls else "agents/tf_eval_agent.py"}:{f.node.lineno}' if f else ''
    A._register(r)
    A.same(rule, name, of(r), of(s), w)
    if d in ('run_random_twice',):
      n = [len([e for e in x.events if e.kind == 'call' and e.d.get('name') == 'uniform']) for x in (r, s)]
      A.ob('random', 'UniformRandomAgent: one draw for each action', n[0] == n[1], f'{n[0]} draws in two steps', w)
  raises(A)


def raises(A):
  """Nothing to aim at is refused."""
  r = A.spec('agents.run_none')
  A._register(r)
  got = [e for e in r.events if e.kind == 'raise']
  sure = [e for e in got if plain(given(r.it.closed(e.guard()))) is T.TRUE] if got and callable(getattr(got[0], 'guard', None)) else got
  A.ob('greedy', 'GreedyAgent: nothing to aim at', any('ValueError' in T.show(e.d['exc'], 3) if isinstance(e.d.get('exc'), T.Term) else 'ValueError' in str(e.d) for e in sure) if sure else False if not got else None, f'{len(got)} exceptions', '')
