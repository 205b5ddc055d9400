"""Reference model of the doped graphene material and its rate functions."""
import datetime as dt
import numpy as np
from putting_dune import constants
from putting_dune import geometry
from putting_dune.graphene import Rates, SuccessorState, get_single_silicon_position
from putting_dune import graphene
from putting_dune.microscope_utils import AtomicGrid, BeamControl, SimulatorObserver
from typing import Sequence


def reset(self, rng):
  self._has_been_reset = True
  positions = graphene.generate_pristine_graphene(rng, self._grid_columns)
  numbers = np.full(positions.shape[0], constants.CARBON)
  numbers[np.argmin(np.linalg.norm(positions, axis=1))] = constants.SILICON
  self.grid = AtomicGrid(positions, numbers)


def apply_control(self, rng, control: BeamControl, observers: Sequence[SimulatorObserver]):
  elapsed = dt.timedelta(seconds=0)
  while elapsed < control.dwell_time:
    rates = self._rate_function(self.grid, control.position)
    wait = min(rng.exponential(scale=1.0 / rates.total_rate), 3600)
    elapsed += dt.timedelta(seconds=wait)
    if elapsed <= control.dwell_time:
      p = np.asarray([s.rate for s in rates.successor_states], dtype=np.float32) / rates.total_rate
      k = rng.choice(p.size, p=p)
      self.grid = rates.successor_states[k].grid
      for o in observers:
        o.observe_transition(time_since_control_was_applied=elapsed, grid=self.grid)


def successor_grids(self, grid: AtomicGrid, beam_position: geometry.Point):
  si = get_single_silicon_position(grid)
  neighbours = geometry.nearest_neighbors3(grid.atom_positions, si).neighbor_indices.reshape(-1)
  out = []
  for k in neighbours:
    numbers = np.full_like(grid.atomic_numbers, constants.CARBON)
    numbers[k] = constants.SILICON
    out.append(AtomicGrid(grid.atom_positions, numbers))
  return out


def silicon_position(self):
  return self.grid.atom_positions[self.grid.atomic_numbers == constants.SILICON].reshape(-1)


def atoms_in_bounds(self, lower_left: geometry.Point, upper_right: geometry.Point):
  lo = np.asarray(lower_left.coords)
  hi = np.asarray(upper_right.coords)
  inside = np.all((lo <= self.grid.atom_positions) & (self.grid.atom_positions <= hi), axis=1)
  p = self.grid.atom_positions[inside]
  return AtomicGrid((p - lo.reshape(1, -1)) / (hi - lo).reshape(1, -1), self.grid.atomic_numbers[inside])


def atoms_in_view(self, grid: AtomicGrid, tolerance: float = 0):
  lo = np.asarray(self.lower_left.coords) - tolerance
  hi = np.asarray(self.upper_right.coords) + tolerance
  inside = np.all((lo <= grid.atom_positions) & (grid.atom_positions <= hi), axis=1)
  return AtomicGrid(grid.atom_positions[inside], grid.atomic_numbers[inside])


def shifted_control(self, shift: geometry.Point):
  return BeamControl(geometry.Point(self.position.x + shift.x, self.position.y + shift.y), self.dwell_time, self.voltage_kv, self.current_na)


def total_rate(self):
  return sum([x.rate for x in self.successor_states])


def only_silicon(grid: AtomicGrid):
  return grid.atom_positions[grid.atomic_numbers == constants.SILICON].reshape(-1)


def central_silicon(grid: AtomicGrid):
  found = grid.atom_positions[grid.atomic_numbers == constants.SILICON]
  away = np.linalg.norm(np.asarray([[0.5, 0.5]]) - found, axis=1)
  return found[np.argmin(away)].reshape(-1)
