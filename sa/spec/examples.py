"""Reference models of the training examples: how they are read, and what they consist of."""
import grain.tensorflow as grain
import jax
import tensorflow as tf


def read(name, split, config, seed, start):
  loader = grain.load_from_tfds(name=name, split=split, data_dir=config.data_dir, shuffle=True, seed=seed,
                                shard_options=grain.ShardByJaxProcess(drop_remainder=True), batch_size=config.batch_size)
  return loader.as_dataset(start_index=start)


def detection(config, seed):
  return read('atom_detection', 'train', config, seed, config.start_index), read('atom_detection', 'test', config, seed, config.start_index)


def alignment(config, seed):
  start = (config.start_index // jax.process_count()) * jax.process_count() + jax.process_index()
  return read('image_alignment', 'train', config, seed, start), read('image_alignment', 'test', config, seed, start)


def graphs(config, seed):
  return read('graph_alignment', 'train', config, seed, config.start_index), read('graph_alignment', 'test', config, seed, config.start_index)


def hot(mask):
  return tf.squeeze(tf.one_hot(mask, 3, axis=-1), axis=-2)


def detection_example(features, config):
  size = (config.image_size, config.image_size)
  return {'image': tf.image.resize(features['image'], size, 'nearest'), 'mask': hot(tf.image.resize(features['mask'], size, 'nearest'))}


def alignment_example(features, config):
  size = (config.image_size, config.image_size)
  mask, drift = features['mask'], features['drift']
  if config.final_only:
    mask, drift = mask[-1:], drift[-1:]
  images = tf.transpose(tf.image.convert_image_dtype(features['images'], dtype=tf.float32), [1, 2, 0, 3])
  images = tf.reshape(images, (*images.shape[:2], -1))
  return {'images': tf.image.resize(images, size, 'nearest'), 'mask': hot(tf.transpose(tf.image.resize(mask, size, 'nearest'), [1, 2, 0, 3])), 'drift': drift}


def graphs_example(features, config):
  return features
