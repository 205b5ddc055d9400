"""Reference models of the simulated rate functions."""
import numpy as np
import scipy.stats
from jax.scipy import stats
from sklearn import neighbors
from putting_dune import constants, geometry, graphene, microscope_utils


def inverse_square(grid: microscope_utils.AtomicGridMaterialFrame, beam_position: geometry.PointMaterialFrame, silicon_position: np.ndarray, neighbor_indices: np.ndarray):
  away = np.linalg.norm(np.asarray([[beam_position.x, beam_position.y]]) - grid.atom_positions[neighbor_indices, :], axis=-1)
  return 1 / (1 + (4 * away / constants.CARBON_BOND_DISTANCE_ANGSTROMS)**2)


def prior(context: np.ndarray, mean: np.ndarray, cov: np.ndarray, max_rate: float):
  return max_rate * stats.multivariate_normal.pdf(context, mean, cov) / stats.multivariate_normal.pdf(mean, mean, cov)


def neighbours(grid):
  silicon = graphene.get_single_silicon_position(grid)
  return silicon, geometry.nearest_neighbors3(grid.atom_positions, silicon).neighbor_indices.reshape(-1)


def paired(self, grid: microscope_utils.AtomicGridMaterialFrame, beam_position: geometry.PointMaterialFrame):
  silicon, near = neighbours(grid)
  rates = np.asarray(self.canonical_rate_prediction_fn(grid, beam_position, silicon, near)).astype(np.float32)
  return [rates[i] for i in range(len(near))]


def peak(self):
  best = 0.0
  for i in range(len(self.mixture_weights)):
    best = max(best, scipy.stats.multivariate_normal.pdf(np.zeros(2), np.zeros(2), np.diag(self.variances[i])) * self.mixture_weights[i])
  return self.max_rate / best


def mixture(self, grid: microscope_utils.AtomicGridMaterialFrame, beam_position: geometry.PointMaterialFrame):
  silicon, near = neighbours(grid)
  towards = grid.atom_positions[near] - silicon.reshape(1, 2)
  across = np.empty_like(towards)
  across[:, 0] = -towards[:, 1]
  across[:, 1] = towards[:, 0]
  along = towards / np.linalg.norm(towards, axis=-1, keepdims=True)
  across = across / np.linalg.norm(across, axis=-1, keepdims=True)
  scale = peak(self)
  rates = []
  for i in range(len(near)):
    axes = np.transpose(np.vstack((along[i], across[i])))
    rate = 0.0
    for k in range(len(self.mixture_weights)):
      density = scipy.stats.multivariate_normal.pdf(
          np.asarray(beam_position.coords), silicon + towards[i] * self.loc_distances[k], axes @ np.diag(self.variances[k]) @ np.linalg.pinv(axes))
      rate += scale * density * self.mixture_weights[k]
    rates.append(rate)
  return rates


def nearest(atom_positions, query, *, include_self=False):
  distances, indices = neighbors.NearestNeighbors(n_neighbors=4, metric='l2').fit(atom_positions).kneighbors(query.reshape(-1, 2))
  if not include_self:
    distances, indices = distances[:, 1:], indices[:, 1:]
  if query.ndim == 1:
    distances, indices = distances.reshape(-1), indices.reshape(-1)
  return geometry.NearestNeighborsResult(distances, indices)
