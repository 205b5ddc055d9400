"""Reference model of transition extraction."""
import collections.abc
import numpy as np
from sklearn import neighbors
from putting_dune import constants
from putting_dune import io
from putting_dune import microscope_utils
from putting_dune.pipeline import train_rate_learner
from putting_dune.rate_learning import data_utils
from putting_dune.microscope_utils import Trajectory, Transition


def extract(trajectories: list[Trajectory], *, previous_controls_at_current_timestep: bool = False):
  out = []
  for trajectory in trajectories:
    for a, b in zip(trajectory.observations[:-1], trajectory.observations[1:]):
      out.append(Transition(
          grid_before=a.grid, grid_after=b.grid, fov_before=a.fov, fov_after=b.fov,
          controls=b.controls if previous_controls_at_current_timestep else a.controls,
          image_before=a.image, image_after=b.image, label_image_before=a.label_image, label_image_after=b.label_image))
  return out


def datapoints(transitions, args, plot_transitions=False, save_path=None, show_plots=False):
  out = []
  for t in transitions:
    if len(t.controls) != 1:
      continue
    before = t.fov_before.microscope_frame_to_material_frame(t.grid_before)
    after = t.fov_after.microscope_frame_to_material_frame(t.grid_after)
    control = t.fov_before.microscope_frame_to_material_frame(t.controls[0])
    here = before.atom_positions[before.atomic_numbers == constants.SILICON]
    if here.shape != (1, 2):
      continue
    order = nearest(before, here, 10)
    near = before.atom_positions[order]
    if near.shape != (10, 2) or order.shape != (10,):
      continue
    far = np.linalg.norm(here - near, axis=-1)
    if np.abs(far[1] - far[4]) < 0.5 or not ((far[1:4] < 2.0).all() and (far[4:] > 2.0).all()):
      continue
    near = near[:4]
    order = nearest(after, here, 4)
    near_after = after.atom_positions[order]
    numbers = after.atomic_numbers[order]
    there = after.atom_positions[after.atomic_numbers == constants.SILICON]
    if there.shape != (1, 2) or not (numbers == constants.SILICON).any() or near_after.shape != (4, 2) or order.shape != (4,) or numbers.shape != (4,):
      continue
    apart = np.min(np.linalg.norm(near.reshape(4, 1, 2) - near_after.reshape(1, 4, 2), axis=-1), axis=-1)
    if apart.mean() > args.neighbor_distance_cutoff:
      continue
    beam, _, neighbours = data_utils.standardize_beam_and_neighbors(np.asarray(control.position) - here.reshape(-1), (near - here)[1:])
    closest = np.argmin(np.linalg.norm(near - there, axis=-1))
    state = np.argsort(neighbours)[closest - 1] + 1 if closest > 0 else 0
    out.append(train_rate_learner.DataPoint(next_state=state, beam_pos=beam, seconds_between=control.dwell_time.total_seconds(),
                                            current=control.current_na, voltage=control.voltage_kv))
  return out


def nearest(grid, where, n):
  return neighbors.NearestNeighbors(n_neighbors=n, metric='l2', algorithm='brute').fit(grid.atom_positions).kneighbors(where)[1].reshape(-1)


def stack_data(data, use_current=False, use_voltage=False, dwell_time_in_context=False, *, num_neighbors=3):
  states = np.stack([d['next_state'] for d in data])
  times = np.stack([d['seconds_between'] for d in data])
  columns = []
  if use_current:
    columns.append(np.stack([d['current'] for d in data]))
  if use_voltage:
    columns.append(np.stack([d['voltage'] for d in data]))
  if dwell_time_in_context:
    columns.append(times)
  return train_rate_learner.Dataset(
      next_state=states, position=np.stack([d['beam_pos'] for d in data]), dt=times,
      rates=np.zeros((states.shape[0], num_neighbors)), context=np.stack(columns, axis=-1) if columns else np.zeros((len(data), 0)))


def load(path):
  if isinstance(path, collections.abc.Sequence):
    files = path
  elif path.is_dir():
    files = path.iterdir()
  else:
    files = [path]
  out = []
  for f in files:
    out.extend(io.read_records(f, microscope_utils.Trajectory))
  return out
