"""Goal selection and success, as value graphs over a symbolic observation, generator and previous counter: the goal stored
on reset (selection mask, draw from the supplied generator, conversion to material frame), the counter after reset and after
each evaluation, the RuntimeError guard, and the three fields of the goal return equal the reference; the success counter is
a transition function of one step, so any evaluation history is covered by induction."""
from . import envmodel as E
from .. import terms as T
from ..core import field
from ..terms import mk

MIN_OBLIGATIONS = 10
TECHNIQUE = 'value-graph comparison (symbolic transition function) against a reference model'


def raises(e):
  return ('raise',) if e.kind == 'raise' else None


def draws(e):
  if e.kind == 'call' and e.d.get('recv') is mk('param', 'rng'):
    return ('call', e.name) + tuple(e.args)
  if e.kind == 'call' and e.d.get('fn') is not None and e.fn.op == 'glob' and e.fn.args[0].startswith(('numpy.random.', 'random.')):
    return ('call', e.fn.args[0])
  return None


def check(A):
  g = 'SingleSiliconGoalReaching'
  r, s = E.goal_pair(A, 'goal_reset')
  E.same_attr(A, 'goal-chosen', E.GOAL, 'reset', r, s, 'goal_position_material_frame')
  E.same_attr(A, 'count-restarted', E.GOAL, 'reset', r, s, '_consecutive_goal_steps')
  A.same_trace('draws', f'{g}.reset', r.trace(draws), s.trace(draws), r.where)
  conds = lambda run: T.or_(*[T.and_(*[run.it.closed(c) for c in e.conds(asserted=False)]) for e in run.events if e.kind == 'raise'])
  A.same('no-goal-raises', f'{g}.reset', conds(r), conds(s), r.where)
  kinds = [e.exc for e in r.events if e.kind == 'raise']
  A.ob('raises-RuntimeError', f'{g}.reset', bool(kinds) and all('RuntimeError' in T.show(k, 3) for k in kinds), f'{[T.show(k, 3) for k in kinds]}', r.where)
  r, s = E.goal_pair(A, 'goal_result')
  E.same_attr(A, 'count', E.GOAL, 'calculate_reward_and_terminal', r, s, '_consecutive_goal_steps')
  E.same_attr(A, 'goal-unchanged', E.GOAL, 'calculate_reward_and_terminal', r, s, 'goal_position_material_frame')
  for f in ('reward', 'is_terminal', 'is_truncated'):
    E.same_field(A, 'goal-return', f'{g}.calculate_reward_and_terminal', r, s, f)
  # the required count and range are configured once and never rewritten by the operations
  for name in ('reset', 'calculate_reward_and_terminal'):
    run = E.goal_pair(A, {'reset': 'goal_reset'}.get(name, 'goal_result'))[0]
    for a in ('_required_consecutive_goal_steps_for_termination', 'goal_range_angstroms'):
      a2 = A.attr(E.GOAL, a)
      v = run.self_attr(a2)
      A.same('configuration-kept', f'{g}.{name}:{a}', v if v is not None else mk('attr', E.ME, a2), mk('attr', E.ME, a2), run.where)
  init = A.method(E.GOAL, '__init__')
  n = init.self_attr(A.attr(E.GOAL, '_required_consecutive_goal_steps_for_termination'))
  A.ob('required-count-positive', f'{g}.__init__', None if n is None or not T.is_num(n) else T.cval(n) >= 1, T.show(n, 3) if n is not None else '', init.where)
  p = A.method(E.GOAL, 'current_goal')
  s = A.spec('environment.current_goal', cls=E.GOAL)
  A.same('current-goal', f'{g}.current_goal', p.result, s.result, p.where)
