"""Elapsed time: the value graph of the elapsed_time field of the observation returned by
PuttingDuneSimulator.reset / step_and_image (private helpers inlined, loops closed into sums, time differences in
exact rational arithmetic) is compared with the reference: sum of the dwell times of the given controls, plus one
configured image duration for every image taken, including the conditional recentring image.  The constructor is
checked to keep the configured image duration, and nothing else to write it."""
from . import simmodel as S
from ..core import field
from .. import terms as T

MIN_OBLIGATIONS = 4


def check(A):
  for name in ('reset', 'step_and_image'):
    real, spec = S.pair(A, name)
    A.same('elapsed-time-term', f'PuttingDuneSimulator.{name}', S.req(field(real.result, 'elapsed_time')),
           field(spec.result, 'elapsed_time'), real.where)
  S.images_vs_time(A)
  S.duration_source(A)
