"""Reference model of alignment: positions, fields of view and histories moved by the reported drift."""
import collections
import typing
import numpy as np
import tensorflow as tf
from skimage import exposure
from putting_dune import alignment
from putting_dune import constants
from putting_dune import geometry
from putting_dune import microscope_utils
from putting_dune.microscope_utils import AtomicGrid, AtomicGridMaterialFrame, AtomicGridMicroscopeFrame, Drift, MicroscopeObservation, Trajectory, MicroscopeFieldOfView


def apply_to_observation(self, observation: MicroscopeObservation):
  return MicroscopeObservation(
      grid=AtomicGridMicroscopeFrame(AtomicGrid(observation.grid.atom_positions - self.jitter, observation.grid.atomic_numbers)),
      fov=moved(observation.fov, self.drift[0], self.drift[1]),
      controls=observation.controls, elapsed_time=observation.elapsed_time, image=observation.image, label_image=observation.label_image)


def moved(fov: MicroscopeFieldOfView, x, y):
  return MicroscopeFieldOfView(geometry.Point(fov.lower_left.x + x, fov.lower_left.y + y), geometry.Point(fov.upper_right.x + x, fov.upper_right.y + y))


def cumulate_drift(self, drift: Drift):
  return Drift(drift=self.drift + drift.drift, jitter=self.jitter)


def fov_shift(self, shift: geometry.Point):
  return moved(self, shift.x, shift.y)


def grid_shift(self, shift_vector: np.ndarray):
  return AtomicGrid(self.atom_positions + shift_vector.reshape(1, 2), self.atomic_numbers)


def do_alignment(trajectory: Trajectory, args, aligner: alignment.ImageAligner):
  n = args.alignment_iterations
  for i in range(1, n + 1):
    out = []
    total = np.zeros((2,))
    aligner.reset(args.history_length)
    for o in trajectory.observations:
      found, drift, _ = aligner(o.image, o.fov.shift(geometry.Point(-total)))
      total = total + drift * (args.base_step_size + (1 - args.base_step_size) * i / n)
      out.append(MicroscopeObservation(
          found if args.relabel else o.grid, o.fov.shift(geometry.Point(-total)), o.controls, o.elapsed_time, o.image, o.label_image))
    trajectory = Trajectory(out)
  return trajectory


def get_offsets(left_coords: np.ndarray, right_coords: np.ndarray, mask_above=np.inf):
  distances = np.linalg.norm(left_coords[:, None] - right_coords[None], axis=-1)
  nearest = np.argmin(distances, -1)
  keep = distances[np.arange(len(nearest)), nearest] < mask_above
  return (right_coords[nearest] - left_coords)[keep]


def align_latest(new_coordinates: np.ndarray, reference_coordinates: np.ndarray, new_classes: np.ndarray, reference_classes: np.ndarray,
                 iterations=20, noise_scale=0.0, max_shift=2.0, mask_above=np.inf, trim=0.0, init_shift=np.zeros((2,))):
  total = np.zeros(new_coordinates.shape[-1]) if init_shift is None else init_shift.copy()
  scales = np.linspace(noise_scale, 0, num=iterations)
  for i in range(iterations):
    noise = 0 if scales[i] == 0 else np.random.normal(size=(2,)) * scales[i]
    moved = new_coordinates + total + noise
    offsets = np.concatenate([alignment.get_offsets(moved[new_classes == k], reference_coordinates[reference_classes == k], mask_above) for k in set(new_classes)])
    if trim > 0:
      offsets = offsets[np.argsort(np.linalg.norm(offsets, axis=-1))[:int((1 - trim) * len(offsets))]]
    total = total + noise + offsets.mean(axis=0)
    size = np.linalg.norm(total)
    if size > max_shift:
      total = max_shift * total / size
  return total


def filtering_reset(self):
  self.recent_observations = []
  self.recent_classes = []
  self.classifier = None
  self.step = 0


def apply_shift(self, shift: np.ndarray):
  self.recent_observations = [o + shift for o in self.recent_observations]


def filtering(self, new_observation: AtomicGrid):
  self.step = 1
  if not self.recent_observations:
    self.recent_observations.append(new_observation.atom_positions)
    self.classifier = alignment.get_lattice_clusterer(new_observation.atom_positions)
    self.recent_classes.append(alignment.classify_lattice_types(new_observation.atom_positions, self.classifier))
    return new_observation, -np.zeros((2,))
  classes = alignment.classify_lattice_types(new_observation.atom_positions, self.classifier)
  shift = alignment.align_latest(
      new_observation.atom_positions, np.concatenate(self.recent_observations), classes, np.concatenate(self.recent_classes),
      iterations=self.alignment_iterations, noise_scale=self.noise_scale, max_shift=self.max_shift, mask_above=2.0, init_shift=np.zeros((2,)), trim=self.trim)
  aligned = new_observation.atom_positions + shift.reshape(1, 2)
  everything = list(self.recent_observations) + [aligned]
  if self.clique_merging:
    merged, _ = alignment.clique_merge(np.concatenate(everything, 0), self.merge_cutoff)
  else:
    merged, _ = alignment.naive_merge(everything, self.merge_cutoff)
  if self.accumulate_merged:
    self.recent_observations.append(merged)
    self.recent_classes.append(alignment.classify_lattice_types(merged, self.classifier))
  else:
    self.recent_observations.append(aligned)
    self.recent_classes.append(classes)
  if len(self.recent_observations) > self.history_length:
    extra = len(self.recent_observations) - self.history_length
    self.recent_observations = self.recent_observations[extra:]
    self.recent_classes = self.recent_classes[extra:]
  numbers = alignment.propagate_atomic_numbers(aligned, merged, new_observation.atomic_numbers)
  return AtomicGridMaterialFrame(AtomicGrid(merged, numbers)), -shift


def propagate_atomic_numbers(original_atom_positions: np.ndarray, merged_atom_positions: np.ndarray, original_atomic_numbers: np.ndarray,
                             new_atomic_numbers=None, default_atomic_number=6, threshold=0.8):
  distances = np.linalg.norm(original_atom_positions[:, None] - merged_atom_positions[None], axis=-1)
  near = distances.min(-1) < threshold
  if new_atomic_numbers is None:
    out = np.full(merged_atom_positions.shape[0], default_atomic_number, dtype=original_atomic_numbers.dtype)
  else:
    out = new_atomic_numbers.copy()
  out[distances.argmin(-1)[near]] = original_atomic_numbers[near]
  return out


def naive_merge(coordinates, cutoff=0.7):
  parts = [c for c in coordinates if c.shape[0]]
  positions = parts[0].copy()
  counts = np.ones(parts[0].shape[:1])
  for m in parts[1:]:
    extra = []
    distances = ((m[None] - positions[:, None]) ** 2).sum(-1) ** 0.5
    for i, t in enumerate(distances.argmin(0)):
      if distances[t, i] < cutoff:
        positions[t] = (positions[t] * counts[t] + m[i]) / (counts[t] + 1)
        counts[t] += 1
      else:
        extra.append(m[i])
    if extra:
      extra = np.stack(extra, 0)
      positions = np.concatenate([positions, extra], 0)
      counts = np.concatenate([counts, np.array([1] * len(extra))], 0)
  return positions, counts


def aligner_reset(self, history_length=5, example_image=np.zeros((512, 512, 1))):
  self.image_history = collections.deque(maxlen=history_length - 1)
  self.fov_history = collections.deque(maxlen=history_length - 1)
  blank = np.zeros_like(example_image)
  for _ in range(history_length):
    self.image_history.append(blank)
    self.fov_history.append(MicroscopeFieldOfView(geometry.Point(0, 0), geometry.Point(20, 20)))
  if self.hybrid:
    self.postprocessing_aligner.reset()
  self.needs_reset = False


def aligner_call(self, image: np.ndarray, fov: MicroscopeFieldOfView, grid: AtomicGridMicroscopeFrame = None, time_index=-1):
  if image.ndim == 2:
    image = np.expand_dims(image, -1)
  image = image.astype(np.float32)
  if self.adaptive_normalization:
    image = exposure.equalize_adapthist(image)
  image = tf.image.resize(image, (512, 512), method='nearest')
  low, high = tf.reduce_min(image), tf.reduce_max(image)
  image = (image - low) / (high - low)
  if self.needs_reset:
    self.reset(history_length=self.history_length, example_image=image)
  stack = [alignment.pad_and_crop_images_by_fov(i, f, fov) for i, f in zip(self.image_history, self.fov_history)]
  stack.append(image)
  out = self.model.signatures['serving_default'](image=np.concatenate(stack, -1))
  logits = out['output_0']
  drift = out['output_1'].numpy()
  drift = np.reshape(drift, (*drift.shape[:-1], -1, 2))[..., time_index, :]
  logits = tf.reshape(logits, (*logits.shape[:-1], -1, 3))[..., time_index, :]
  probs = tf.nn.softmax(logits).numpy()
  if grid is None:
    grid = alignment.ImageAligner.process_detection_predictions(probs)
  self.image_history.append(image)
  self.fov_history.append(fov)
  if self.hybrid:
    try:
      material = fov.shift(geometry.Point(*-drift)).microscope_frame_to_material_frame(grid)
      merged, extra = typing.cast(alignment.IterativeAlignmentFiltering, self.postprocessing_aligner)(material)
      drift = drift + extra
      grid = fov.shift(geometry.Point(*-drift)).material_frame_to_microscope_frame(merged)
    except Exception as e:
      print('Postprocessing failed; {}'.format(str(e)))
      self.postprocessing_aligner.reset()
  return grid, drift, probs


def filtering_init(self, history_length: int = 10, alignment_iterations: int = 20, noise_scale: float = 0.0, max_shift: float = 2.0,
                   merge_cutoff: float = 1.1, accumulate_merged: bool = False, clique_merging: bool = False, trim: float = 0):
  self.history_length, self.alignment_iterations, self.noise_scale, self.max_shift = history_length, alignment_iterations, noise_scale, max_shift
  self.merge_cutoff, self.accumulate_merged, self.clique_merging, self.trim = merge_cutoff, accumulate_merged, clique_merging, trim
  self.reset()


def aligner_init(self, model_path, hybrid: bool = False):
  self.model_path = model_path
  self.hybrid = hybrid
  if hybrid:
    reach = constants.CARBON_BOND_DISTANCE_ANGSTROMS / 2
    self.postprocessing_aligner = alignment.IterativeAlignmentFiltering(
        history_length=1, alignment_iterations=1, noise_scale=0.0, max_shift=reach, merge_cutoff=reach, accumulate_merged=False, clique_merging=True, trim=0.5)
