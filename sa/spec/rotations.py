"""Reference model of angle and rotation conventions at every use."""
import dm_env
import numpy as np
from putting_dune import constants, geometry, graphene, microscope_utils


def get_angles(coordinates: np.ndarray):
  return np.arctan2(coordinates[:, 1], coordinates[:, 0])


def rotate(coord: np.ndarray, theta: float):
  return geometry.rotate_coordinates(coord, theta)


def standardize(beam_position: np.ndarray, neighbor_position: np.ndarray):
  nearest = np.argmin(np.linalg.norm(neighbor_position.reshape(-1, 2) - beam_position.reshape(1, 2), axis=1))
  angles = geometry.get_angles(neighbor_position)
  turn = -angles[nearest]
  return (geometry.rotate_coordinates(beam_position, turn), geometry.rotate_coordinates(neighbor_position, turn),
          np.argsort((angles + turn) % (2 * np.pi)))


def prior_rates(self, grid: microscope_utils.AtomicGridMaterialFrame, beam_position: geometry.PointMaterialFrame, silicon_position: np.ndarray, neighbor_indices: np.ndarray):
  beam = (np.asarray([[beam_position.x, beam_position.y]]) - silicon_position) / constants.CARBON_BOND_DISTANCE_ANGSTROMS
  angles = geometry.get_angles(grid.atom_positions[neighbor_indices, :] - silicon_position)
  rates = np.zeros(neighbor_indices.shape, dtype=float)
  for i, angle in enumerate(angles):
    rates[i] = np.asarray(graphene.single_silicon_prior_rates(beam, geometry.rotate_coordinates(self.mean, angle), self.cov, self.max_rate))
  return rates


def greedy_step(self, time_step: dm_env.TimeStep):
  deltas = time_step.observation[2:-2].reshape(3, 2)
  best = np.argmin(np.linalg.norm(deltas - time_step.observation[-2:][None], axis=-1), axis=-1)
  aim = self._argmax + self._fixed_offset + self._rng.normal(0, self._position_noise_sigma, size=2)
  return geometry.rotate_coordinates(aim, geometry.get_angles(deltas)[best])
