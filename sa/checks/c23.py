"""Aggregate statistics: every field of the returned record, as a value over the symbolic sequence of results (loops and
comprehensions closed into sums with the inclusion condition), equals the reference value: sums over exactly the results
that reached the goal, divided by their number (one when there are none); the success rate over all results; total times
are agent plus environment time."""
from .. import terms as T
from ..core import field
from ..terms import mk

MIN_OBLIGATIONS = 7
TECHNIQUE = 'value-graph comparison of the aggregated fields (sum normal form) against a reference model'
FIELDS = ('average_num_times_reached_goal', 'average_num_actions_taken', 'average_agent_seconds_to_goal',
          'average_environment_seconds_to_goal', 'average_total_reward')


def check(A):
  r = A.func('eval_lib.aggregate_results', names=['results'])
  s = A.spec('evaluation.aggregate_results')
  for f in FIELDS:
    v = field(r.result, f)
    if v is None:
      A.ob('aggregate', f'eval_lib.aggregate_results:{f}', None, 'field not found', r.where)
      continue
    A.same('aggregate', f'eval_lib.aggregate_results:{f}', v, field(s.result, f), r.where)
  for c, p, parts in (('EvalResult', 'seconds_to_goal', ('agent_seconds_to_goal', 'environment_seconds_to_goal')),
                      ('AggregateEvalResults', 'average_seconds_to_goal',
                       ('average_agent_seconds_to_goal', 'average_environment_seconds_to_goal'))):
    m = A.method('eval_lib.' + c, p)
    me = mk('param', 'self')
    A.same('total-time', f'eval_lib.{c}.{p}', m.result, T.add(*[mk('attr', me, x) for x in parts]), m.where)
