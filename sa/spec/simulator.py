"""Reference model of the simulator (what each public operation must do)."""
import datetime as dt
from typing import Sequence
import numpy as np
from putting_dune import geometry
from putting_dune import graphene
from putting_dune import imaging
from putting_dune.microscope_utils import BeamControl, MicroscopeFieldOfView, MicroscopeObservation


def recentred(self):
  si = self.material.get_silicon_position()
  half = self._fov_scale / 2.0
  return MicroscopeFieldOfView(geometry.Point(si - half), geometry.Point(si + half))


def take_image(self):
  grid = self.material.get_atoms_in_bounds(self._fov.lower_left, self._fov.upper_right)
  for o in self._observers:
    o.observe_take_image(duration=self._image_duration, fov=self._fov)
  return grid


def render(self, grid, rng):
  image = imaging.generate_stem_image(grid, self._fov, self._image_parameters, rng)
  for o in self._observers:
    o.observe_generated_image(image)
  return image


def reset(self, rng, return_image):
  self._has_been_reset = True
  self.material.reset(rng)
  self._fov_scale = rng.uniform(15, 30)
  self._fov = recentred(self)
  for o in self._observers:
    o.observe_reset(self.material.grid, self._fov)
    o.observe_fov_change(self._fov)
  grid = take_image(self)
  self._image_parameters = imaging.sample_image_parameters(rng)
  image = None
  if return_image:
    image = render(self, grid, rng)
  return MicroscopeObservation(grid=grid, fov=self._fov, controls=(), elapsed_time=self._image_duration, image=image)


def step_and_image(self, rng, controls: Sequence[BeamControl], return_image):
  if not self._has_been_reset:
    raise RuntimeError('')
  elapsed = dt.timedelta(seconds=0)
  for control in controls:
    control = self._fov.microscope_frame_to_material_frame(control)
    for o in self._observers:
      o.observe_apply_control(control)
    self.material.apply_control(rng, control, self._observers)
    elapsed += control.dwell_time
  grid = take_image(self)
  elapsed += self._image_duration
  si = graphene.get_silicon_positions(grid)
  if not si.size or ((si.reshape(-1) < 0.25) | (si.reshape(-1) > 0.75)).any():
    self._fov = recentred(self)
    for o in self._observers:
      o.observe_fov_change(self._fov)
    grid = take_image(self)
    elapsed += self._image_duration
  image = None
  if return_image:
    image = render(self, grid, rng)
  return MicroscopeObservation(grid=grid, fov=self._fov, controls=tuple(controls), elapsed_time=elapsed, image=image)
