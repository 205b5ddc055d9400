"""Reference model of the action adapters: where the beam goes for an action."""
import numpy as np
from putting_dune import geometry
from putting_dune import graphene


def direct(self, previous_observation, action):
  return np.clip(action, 0.0, 1.0)


def delta(self, previous_observation, action):
  self.beam_pos = np.clip(self.beam_pos + action, 0.0, 1.0)
  return self.beam_pos


def relative(self, previous_observation, action):
  fov = previous_observation.fov
  silicon = graphene.get_silicon_positions(previous_observation.grid).reshape(2)
  radius = self._max_distance_angstroms / np.asarray([fov.upper_right.x - fov.lower_left.x, fov.upper_right.y - fov.lower_left.y])
  return np.clip(silicon + np.clip(action[:2], -1.0, 1.0) * radius, 0.0, 1.0)


def material(self, previous_observation, action):
  fov = previous_observation.fov
  silicon = graphene.get_silicon_positions(previous_observation.grid).reshape(2)
  target = fov.microscope_frame_to_material_frame(silicon) + action[:2]
  return np.clip(fov.material_frame_to_microscope_frame(target), 0.0, 1.0)
