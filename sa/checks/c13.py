"""Dwell loop: the guarded event trace (rate evaluation, exponential draw with its scale, successor draw with its
probabilities, state update, notification) of apply_control is compared with the reference process; loop-carried
quantities are identified by their initial and next values, so the comparison covers every number of iterations."""
from . import simmodel as S

MIN_OBLIGATIONS = 2


def check(A):
  real, spec = S.control_pair(A)
  A.same_trace('dwell-process', 'PristineSingleDopedGraphene.apply_control', real.trace(S.dwell), spec.trace(S.dwell), real.where)
  r = A.method('graphene.Rates', 'total_rate')
  s = A.spec('graphene.total_rate', cls='graphene.Rates')
  A.same('total-rate', 'Rates.total_rate', r.result, s.result, r.where)
