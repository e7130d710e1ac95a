"""Stand-in for the part of tensorflow_probability the code uses."""
import types

import numpy as np
import tensorflow as tf


def _histogram(x, edges, axis=None, weights=None, extend_lower_interval=False, extend_upper_interval=False, dtype=None, name=None):
  x = tf.convert_to_tensor(x)
  e = tf.convert_to_tensor(edges, x.dtype).numpy()
  if weights is not None or e.ndim != 1:
    raise tf.Unsupported('histogram options')
  a = x.numpy()
  ax = tuple(range(a.ndim)) if axis is None else tuple(np.atleast_1d(axis) % a.ndim)
  rest = [i for i in range(a.ndim) if i not in ax]
  k = len(e) - 1
  b = np.searchsorted(e, a, 'right') - 1
  b = np.where(a == e[-1], k - 1, b)
  if extend_lower_interval:
    b = np.where(a < e[0], 0, b)
  if extend_upper_interval:
    b = np.where(a > e[-1], k - 1, b)
  cnt = np.stack([np.sum(b == i, axis=ax) for i in range(k)], 0)
  return tf.convert_to_tensor(cnt.astype(x.dtype.as_numpy_dtype if dtype is None else tf.as_dtype(dtype).as_numpy_dtype))


class _Categorical:

  def __init__(self, logits=None, probs=None, dtype=tf.int32, **kw):
    if (logits is None) == (probs is None):
      raise ValueError('Must pass probs or logits, but not both.')
    with np.errstate(divide='ignore'):
      l = tf.convert_to_tensor(logits).numpy() if logits is not None else np.log(tf.convert_to_tensor(probs).numpy())
    m = l.max(-1, keepdims=True)
    m = np.where(np.isfinite(m), m, 0)
    with np.errstate(divide='ignore'):
      self._l = l - m - np.log(np.exp(l - m).sum(-1, keepdims=True))

  def log_prob(self, value):
    v = np.asarray(tf.convert_to_tensor(value).numpy()).astype(np.int64)
    batch = np.broadcast_shapes(self._l.shape[:-1], v.shape)
    l = np.broadcast_to(self._l, batch + self._l.shape[-1:])
    v = np.broadcast_to(v, batch)
    if v.size and (v.min() < 0 or v.max() >= l.shape[-1]):
      raise tf.errors.InvalidArgumentError(None, None, 'Received a label value outside the valid range')
    return tf.convert_to_tensor(np.take_along_axis(l, v[..., None], -1)[..., 0])

  def prob(self, value):
    return tf.exp(self.log_prob(value))


class _Bernoulli:

  def __init__(self, logits=None, probs=None, dtype=tf.int32, **kw):
    if probs is None:
      raise tf.Unsupported('Bernoulli of logits')
    self._p = tf.convert_to_tensor(probs).numpy()

  def log_prob(self, value):
    v = tf.convert_to_tensor(value).numpy().astype(self._p.dtype)
    with np.errstate(divide='ignore', invalid='ignore'):
      r = np.where(v == 0, 0, v * np.log(self._p)) + np.where(v == 1, 0, (1 - v) * np.log1p(-self._p))
    return tf.convert_to_tensor(r.astype(self._p.dtype))


stats = types.SimpleNamespace(histogram=_histogram)
distributions = types.SimpleNamespace(Categorical=_Categorical, Bernoulli=_Bernoulli)


def __getattr__(name):
  if name.startswith('_'):
    raise AttributeError(name)
  raise tf.Unsupported('tfp.' + name)
