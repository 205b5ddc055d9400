"""Reference model of the image generator: rows run from the top of the field of view (largest y) down, columns along x."""
import numpy as np
import skimage
from scipy import ndimage
from skimage import exposure
from putting_dune import constants
from putting_dune import microscope_utils


def pixel_centres(low, high, count):
  edges = np.linspace(low, high, count + 1, endpoint=True)
  return (edges[:-1] + edges[1:]) / 2


def generate_grid_mask(grid: microscope_utils.AtomicGrid, fov: microscope_utils.MicroscopeFieldOfView, *, intensity_exponent=1.7, image_dimensions=(512, 512)):
  width, height = image_dimensions
  xx, yy = np.meshgrid(pixel_centres(fov.lower_left.x, fov.upper_right.x, width), pixel_centres(fov.lower_left.y, fov.upper_right.y, height))
  atoms = fov.microscope_frame_to_material_frame(grid)
  mask = np.zeros((height, width), dtype=np.uint8)
  for position, number in zip(atoms.atom_positions, atoms.atomic_numbers):
    mask[(xx - position[0]) ** 2.0 + (yy - position[1]) ** 2.0 < (number / constants.CARBON) ** intensity_exponent * 0.1] = number
  return np.flipud(mask)


def generate_clean_image(grid: microscope_utils.AtomicGrid, fov: microscope_utils.MicroscopeFieldOfView, *, intensity_exponent=1.7, image_size=512, buffer_size=0.0):
  pad = int(buffer_size * image_size)
  total = image_size + 2 * pad
  image = np.zeros((total, total), dtype=np.float64)
  for number in set(grid.atomic_numbers):
    positions = grid.atom_positions[grid.atomic_numbers == number]
    counts, _, _ = np.histogram2d(positions[:, 0], positions[:, 1], bins=total,
                                  range=((-buffer_size, 1 + buffer_size), (-buffer_size, 1 + buffer_size)), density=False)
    image = image + counts * number**intensity_exponent
  image = np.flipud(np.transpose(image))
  width = fov.upper_right.x - fov.lower_left.x
  height = fov.upper_right.y - fov.lower_left.y
  image = ndimage.gaussian_filter(image, (image_size / (2.15 * height), image_size / (2.15 * width)), mode='constant')
  image = image[pad:pad + image_size, pad:pad + image_size]
  return image / np.max(image)


def apply_gaussian_noise(image: np.ndarray, variance, rng: np.random.Generator):
  return skimage.util.random_noise(image, mode='gaussian', var=variance, seed=rng)


def apply_jitter(image: np.ndarray, jitter_rate, rng: np.random.Generator):
  rows, _ = image.shape
  shifts = rng.poisson(jitter_rate, size=rows)
  return np.stack([np.roll(image[i, :], shifts[i]) for i in range(rows)])


def apply_poisson_noise(image: np.ndarray, poisson_rate_multiplier, rng: np.random.Generator):
  image = rng.poisson(image * poisson_rate_multiplier)
  return image / np.max(image)


def apply_salt_and_pepper_noise(image: np.ndarray, amount, rng: np.random.Generator):
  return skimage.util.random_noise(image, mode='s&p', amount=amount, seed=rng)


def apply_blur(image: np.ndarray, amount):
  image = ndimage.gaussian_filter(image, amount)
  return image / np.max(image)


def apply_contrast(image: np.ndarray, gamma):
  return exposure.adjust_gamma(image, gamma)


def apply_exponential_noise(image: np.ndarray, noise_scale, rng: np.random.Generator):
  image = image + rng.exponential(noise_scale, size=image.shape)
  return image / np.max(image)


def apply_uniform_noise(image: np.ndarray, noise_scale, rng: np.random.Generator):
  image = image + rng.uniform(0.0, noise_scale, size=image.shape)
  return image / np.max(image)


def generate_stem_image(grid: microscope_utils.AtomicGrid, fov: microscope_utils.MicroscopeFieldOfView, image_params, rng: np.random.Generator, buffer_size=0.0):
  image = generate_clean_image(grid, fov, image_size=image_params.image_size, intensity_exponent=image_params.intensity_exponent, buffer_size=buffer_size)
  image = apply_blur(image, image_params.blur_amount)
  image = apply_poisson_noise(image, image_params.poisson_rate_multiplier, rng)
  image = apply_jitter(image, image_params.jitter_rate, rng)
  image = apply_salt_and_pepper_noise(image, image_params.salt_and_pepper_amount, rng)
  image = apply_contrast(image, image_params.contrast_gamma)
  image = apply_uniform_noise(image, image_params.uniform_noise_scale, rng)
  image = apply_exponential_noise(image, image_params.exponential_lambda, rng)
  image = apply_gaussian_noise(image, image_params.gaussian_variance, rng)
  return exposure.equalize_adapthist(image, clip_limit=0.01)
