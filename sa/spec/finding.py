"""Reference model of finding the silicon."""
import numpy as np
from putting_dune import constants
from putting_dune import graphene
from putting_dune import microscope_utils


def all_of(grid):
  return grid.atom_positions[grid.atomic_numbers == constants.SILICON].reshape(-1, 2)


def one_of(grid):
  found = graphene.get_silicon_positions(grid)
  n = found.size // 2
  if n == 0:
    raise graphene.SiliconNotFoundError()
  if n > 1:
    found = found[np.argmin(np.linalg.norm(found - np.asarray([[0.5, 0.5]]), axis=1))]
  return found.reshape(-1)
