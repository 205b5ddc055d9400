"""Reference models of the two atom detectors' post-processing."""
import cv2
import numpy as np
import tensorflow as tf

from sklearn import neighbors

from putting_dune import constants, microscope_utils


def middle(contour, width, height):
  m = cv2.moments(contour)
  x, y = 0, 0
  if m['m00'] != 0:
    x, y = int(m['m10'] / m['m00']), int(m['m01'] / m['m00'])
  return x / width, 1.0 - y / height


def aligner_centroids(cls, classes, class_index, erode_iters=1):
  mask = classes.copy()
  mask[classes != class_index] = 0
  mask = (255 * mask).astype(np.uint8)
  if erode_iters:
    mask = cv2.erode(mask, np.ones((2, 2)), iterations=erode_iters)
  contours, _ = cv2.findContours(mask, cv2.RETR_LIST, method=cv2.CHAIN_APPROX_SIMPLE)
  return [middle(c, classes.shape[0], classes.shape[1]) for c in contours]


def table(found):
  found = np.array(found)
  return found if found.size else np.zeros((0, 2))


def aligner_grid(cls, probs, buffer_width=0.05):
  classes = np.argmax(probs, axis=-1)
  c = table(aligner_centroids(cls, classes, 1, erode_iters=1))
  si = table(aligner_centroids(cls, classes, 2, erode_iters=3))
  xy = np.concatenate([c, si])
  z = np.concatenate([np.array([constants.CARBON] * len(c)), np.array([constants.SILICON] * len(si))]).astype(np.int32)
  keep = (xy > buffer_width).all(-1) & (xy < (1 - buffer_width)).all(-1)
  return microscope_utils.AtomicGrid(xy[keep], z[keep])


def detector_centroids(image, value, threshold_value):
  masked = np.zeros_like(image)
  masked[np.where(image == value)] = 1
  dists = (cv2.distanceTransform(masked, cv2.DIST_L2, cv2.DIST_MASK_PRECISE) * 255).astype(np.uint8)
  _, dists = cv2.threshold(dists, threshold_value, 255, cv2.THRESH_BINARY)
  contours, *_ = cv2.findContours(dists, cv2.RETR_LIST, cv2.CHAIN_APPROX_SIMPLE)
  return [middle(c, 256, 256) for c in contours]


def detector_grid(self, image):
  image = tf.image.resize(image, (256, 256), method='nearest')
  lo, hi = tf.reduce_min(image), tf.reduce_max(image)
  image = (image - lo) / (hi - lo)
  probs = tf.nn.softmax(self.model.signatures['serving_default'](preprocessed_inputs_0=image)['output_0'])
  _, carbon = cv2.threshold(np.asarray(probs[:, :, 1]), 0.025, 1.0, cv2.THRESH_BINARY)
  cover = cv2.erode(cv2.dilate(carbon, np.ones((2, 2)), iterations=4), np.ones((2, 2)), iterations=2)
  silicon = cv2.bitwise_xor(np.asarray(probs[:, :, 2]), cover)
  c = detector_centroids(carbon.astype(np.uint8), 1, 25)
  si = detector_centroids(silicon.astype(np.uint8), 1, 140)
  xy = np.concatenate([np.array(c).reshape(-1, 2), np.array(si).reshape(-1, 2)])
  z = np.concatenate([np.array([constants.CARBON] * len(c)), np.array([constants.SILICON] * len(si))]).astype(np.int32)
  return microscope_utils.AtomicGrid(xy, z)


def same_atoms(self, other):
  if self.atom_positions.shape != other.atom_positions.shape or self.atomic_numbers.shape != other.atomic_numbers.shape:
    return False
  far, nearest = neighbors.NearestNeighbors(n_neighbors=1).fit(self.atom_positions).kneighbors(other.atom_positions)
  if (other.atomic_numbers != self.atomic_numbers[nearest.reshape(-1)]).any():
    return False
  return not (far > 1e-3).any()
