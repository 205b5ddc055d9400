"""Observer protocol: the ordered, guarded trace of observer notifications, material operations and image synthesis of
reset / step_and_image / apply_control (value-graph arguments, loops abstracted to their domains) is compared with the
reference protocol; registration methods and the event recorder's state transformers are compared with their references."""
from . import simmodel as S
from ..core import field
from .. import terms as T
from ..terms import mk

MIN_OBLIGATIONS = 11


def check(A):
  for name in ('reset', 'step_and_image'):
    real, spec = S.pair(A, name)
    A.same_trace('notification-trace', f'PuttingDuneSimulator.{name}', real.trace(S.protocol), spec.trace(S.protocol), real.where)
  real, spec = S.control_pair(A)
  A.same_trace('transition-notification', 'PristineSingleDopedGraphene.apply_control', real.trace(S.transitions),
               spec.trace(S.transitions), real.where)
  me = mk('param', 'self')
  obs = S.observer_attr(A)
  r = A.method(S.SIM, '__init__')
  v = r.self_attr(obs)
  p = mk('param', 'observers')
  ok = v is not None and T.contains_term(v, p) and v is not p
  A.ob('observer-list-copied', 'PuttingDuneSimulator.__init__', ok, f'{obs} = {T.show(v) if v else None}', r.where)
  for m, how in (('add_observer', 'append'), ('remove_observer', 'remove')):
    r = A.method(S.SIM, m, names=['observer'])
    evs = [e for e in r.events if e.kind in ('mutate', 'setattr', 'setitem')]
    ok = any(S.registers(r, e, obs, how) for e in evs) and len(evs) == 1
    if ok and evs[0].guard() is not T.TRUE:
      g = evs[0].guard()  # a membership test of the observer itself is left open
      ok = None if T.contains(g, lambda x: x.op in ('in', 'unknown') and mk('param', 'observer') in x.args) else False
    A.ob('observer-registration', f'PuttingDuneSimulator.{m}', ok, '; '.join(map(repr, evs))[:300], r.where)
  for m, params in (('observe_reset', ['grid', 'fov']), ('observe_transition', ['time_since_control_was_applied', 'grid']),
                    ('observe_apply_control', ['control']), ('observe_take_image', ['duration', 'fov']),
                    ('observe_generated_image', ['image'])):
    c = 'simulator_observers.EventObserver'
    r = A.method(c, m, names=params)
    s = A.spec(f'observers.{m}', cls=c)
    A.same('recorded-event', f'EventObserver.{m}', S.seq_state(r, 'events'), S.seq_state(s, 'events'), r.where)
