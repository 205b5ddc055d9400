"""Reference model of the feature constructors' content."""
import cv2
import numpy as np
from putting_dune import graphene
from putting_dune import microscope_utils
from sklearn import neighbors


def goal_delta(observation, goal):
  silicon = graphene.get_single_silicon_position(observation.grid).reshape(2)
  return goal.goal_position_material_frame - observation.fov.microscope_frame_to_material_frame(silicon)


def nearest(grid, silicon):
  search = neighbors.NearestNeighbors(n_neighbors=4, metric='l2', algorithm='brute').fit(grid.atom_positions)
  distances, indices = search.kneighbors(silicon.reshape(1, 2))
  return distances[0, 1:], grid.atom_positions[indices[0, 1:]]


def pristine(self, observation, goal):
  silicon = graphene.get_single_silicon_position(observation.grid).reshape(2)
  distances, positions = nearest(observation.grid, silicon)
  directions = (positions - silicon.reshape(1, 2)) / distances.reshape(3, 1)
  return np.concatenate([silicon, directions.reshape(6), goal_delta(observation, goal)]).astype(np.float32)


def material(self, observation, goal):
  grid = observation.fov.microscope_frame_to_material_frame(observation.grid)
  silicon = graphene.get_single_silicon_position(grid).reshape(2)
  _, positions = nearest(grid, silicon)
  deltas = positions - silicon.reshape(1, 2)
  return np.concatenate([silicon, deltas.reshape(6), goal_delta(observation, goal)]).astype(np.float32)


def image(self, observation, goal):
  return {
      'image': cv2.resize(observation.image, (128, 128)).reshape(128, 128, 1).astype(np.float32),
      'goal_delta_angstroms': goal_delta(observation, goal).astype(np.float32),
  }
