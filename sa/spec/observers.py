"""Reference model of the event recorder and of observer registration."""
from putting_dune.simulator_observers import SimulatorEvent, SimulatorEventType
from putting_dune import simulator


def observe_reset(self, grid, fov):
  self.events = [SimulatorEvent(SimulatorEventType.RESET, {'grid': grid, 'fov': fov})]


def observe_transition(self, time_since_control_was_applied, grid):
  self.events.append(SimulatorEvent(SimulatorEventType.TRANSITION, {
      'time_since_control_was_applied': time_since_control_was_applied, 'grid': grid}))


def observe_apply_control(self, control):
  self.events.append(SimulatorEvent(SimulatorEventType.APPLY_CONTROL, {
      'dwell_time': control.dwell_time, 'position': control.position}))


def observe_take_image(self, duration, fov):
  self.events.append(SimulatorEvent(SimulatorEventType.TAKE_IMAGE, {'duration': duration, 'fov': fov}))


def observe_generated_image(self, image):
  self.events.append(SimulatorEvent(SimulatorEventType.GENERATED_IMAGE, {'image': image}))
