"""Reference model of the lattice steps: scale of a lattice, merging of detections, re-framing of images, classes of lattice atoms."""
import networkx as nx
import numpy as np
import scipy
import tensorflow as tf
from putting_dune import alignment
from putting_dune import constants
from putting_dune import geometry
from putting_dune import microscope_utils


def scale(coordinates: np.ndarray):
  distances = np.sort(np.linalg.norm(coordinates[:, None] - coordinates[None], axis=-1), axis=-1)
  return scipy.stats.trim_mean(distances[:, 1:4].reshape(-1), 0.25) / constants.CARBON_BOND_DISTANCE_ANGSTROMS


def merge(coordinates: np.ndarray, min_distance=1.0, max_iterations=100, counts=None):
  if counts is None:
    counts = np.ones(coordinates.shape[0])
  for _ in range(max_iterations):
    pairs = scipy.spatial.cKDTree(coordinates).query_pairs(r=min_distance, output_type='ndarray')
    if not pairs.shape[0]:
      return coordinates, counts
    g = nx.Graph()
    g.add_nodes_from(range(len(coordinates)))
    g.add_edges_from(pairs)
    groups = list(nx.find_cliques(g))
    new = np.stack([np.sum(coordinates[c] * counts[c, None] / np.sum(counts[c]), axis=0) for c in groups], 0)
    counts = np.stack([np.sum(counts[c]) for c in groups])
    coordinates = new
  return coordinates, counts


def reframe(image: np.ndarray, original_fov: microscope_utils.MicroscopeFieldOfView, new_fov: microscope_utils.MicroscopeFieldOfView):
  if image.ndim == 2:
    image = np.expand_dims(image, -1)
  ll, ur = np.array(original_fov.lower_left), np.array(original_fov.upper_right)
  nll, nur = np.array(new_fov.lower_left), np.array(new_fov.upper_right)
  factor = (ur - ll) / (nur - nll)
  resized = image
  if (factor != 1).any():
    resized = tf.image.resize(image, tuple(np.round(np.array(image.shape[:-1]) * factor).astype(np.int32)), method='nearest')
  padded = np.pad(resized, ((image.shape[0], image.shape[0]), (image.shape[1], image.shape[1]), (0, 0)), mode='constant')
  shift = np.array([-(nur[1] - ur[1]), nll[0] - ll[0]]) * np.array(image.shape)[:-1] / (nur - nll)
  start = shift + np.array(image.shape)[:-1]
  start[0] = np.clip(start[0], 0, padded.shape[0] - image.shape[0])
  start[1] = np.clip(start[1], 0, padded.shape[1] - image.shape[1])
  start = np.round(start).astype(np.int32)
  return padded[start[0]:start[0] + image.shape[0], start[1]:start[1] + image.shape[1]]


def centred(grid):
  return grid[:, :2] - grid[:, :2].mean(0, keepdims=True)


def clusterer(grid: np.ndarray):
  g = centred(grid)
  distances = np.linalg.norm(g[None] - g[:, None], axis=-1)
  around = g[np.argsort(distances, axis=-1)[:, 1:4]] - g[:, None]
  model = alignment.cluster.KMeans(2)
  model.fit(np.sort(np.stack([geometry.get_angles(x) for x in around]), axis=-1))
  return model


def classify(grid: np.ndarray, clusters):
  g = centred(grid)
  distances = np.linalg.norm(g[None] - g[:, None], axis=-1)
  distances = distances + np.eye(distances.shape[0]) * 1000
  around = g[np.argsort(distances, axis=-1)[:, :3]] - g[:, None]
  classes = clusters.predict(np.stack([geometry.get_angles(x) for x in around]))
  return alignment.propagate_graphene_classes(classes, g)


def outward(classes: np.ndarray, grid: np.ndarray):
  g = centred(grid)
  distances = np.linalg.norm(g[None] - g[:, None], axis=-1)
  distances = distances + np.eye(distances.shape[0]) * 1000
  near = distances < np.sort(distances, axis=-1)[:, :3].mean() * 1.1
  known = near.sum(-1) >= 3
  classes = classes.copy()
  while True:
    links = near.copy()
    links[:, ~known] = False
    frontier = ~known & (links.sum(-1) >= 1)
    if frontier.sum() == 0:
      return classes
    around = (links[frontier] * classes[None]).sum(-1) / links[frontier].sum(-1)
    classes[frontier] = np.nan_to_num(1 - around, True, 0, 0, 0)
    known[frontier] = True


def paired(left_coords, right_coords, mask_above=np.inf):
  distances = np.linalg.norm(left_coords[:, None] - right_coords[None], axis=-1)
  nearest = np.argmin(distances, -1)
  offsets = right_coords[nearest] - left_coords
  return offsets[distances[np.arange(len(nearest)), nearest] < mask_above]


def aligned(new_coordinates, reference_coordinates, new_classes, reference_classes, iterations=20, noise_scale=0.0, max_shift=2.0, mask_above=np.inf, trim=0.0, init_shift=np.zeros((2,))):
  shift = np.zeros(new_coordinates.shape[-1]) if init_shift is None else init_shift.copy()
  scales = np.linspace(noise_scale, 0, num=iterations)
  own = [new_classes == i for i in set(new_classes)]
  other = [reference_classes == i for i in set(new_classes)]
  for i in range(iterations):
    noise = 0 if scales[i] == 0 else np.random.normal(size=(2,)) * scales[i]
    moved = new_coordinates + shift + noise
    offsets = np.concatenate([alignment.get_offsets(moved[a], reference_coordinates[b], mask_above) for a, b in zip(own, other)])
    if trim > 0:
      offsets = offsets[np.argsort(np.linalg.norm(offsets, axis=-1))[:int((1 - trim) * len(offsets))]]
    shift += noise + offsets.mean(axis=0)
    length = np.linalg.norm(shift)
    if length > max_shift:
      shift = max_shift * shift / length
  return shift


def joined(coordinates, cutoff=0.7):
  coordinates = [c for c in coordinates if c.shape[0]]
  positions = coordinates[0].copy()
  counts = np.ones(coordinates[0].shape[:1])
  for m in coordinates[1:]:
    appended = []
    distances = ((m[None] - positions[:, None]) ** 2).sum(-1) ** 0.5
    for current, target in enumerate(distances.argmin(0)):
      if distances[target, current] < cutoff:
        positions[target] = (positions[target] * counts[target] + m[current]) / (counts[target] + 1)
        counts[target] += 1
      else:
        appended.append(m[current])
    if appended:
      positions = np.concatenate([positions, np.stack(appended, 0)], 0)
      counts = np.concatenate([counts, np.array([1] * len(appended))], 0)
  return positions, counts
