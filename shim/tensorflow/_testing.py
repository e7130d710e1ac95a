"""tf.test for running the repository's own TensorFlow tests on the stand-in."""
import contextlib

import numpy as np
from absl.testing import absltest
import tensorflow as tf


def main(*a, **k):
  absltest.main(*a, **k)


def _n(x):
  if isinstance(x, tf.Tensor):
    return x.numpy()
  if isinstance(x, dict):
    return {k: _n(v) for k, v in x.items()}
  if isinstance(x, (list, tuple)) and not hasattr(x, '_fields'):
    return type(x)(_n(v) for v in x)
  return x


class _Session:

  def run(self, x, feed_dict=None):
    if feed_dict:
      raise tf.Unsupported('feeds')
    return _n(x)


class TestCase(absltest.TestCase):

  def setUp(self):
    super().setUp()
    tf.random.set_seed(1)
    np.random.seed(1)

  def evaluate(self, x):
    return _n(x)

  @contextlib.contextmanager
  def session(self, *a, **k):
    yield _Session()

  cached_session = session

  def __getattr__(self, n):
    if n == 'test_session':
      return self.session
    raise AttributeError(n)

  def assertAllEqual(self, a, b, msg=None):
    a, b = np.asarray(_n(a)), np.asarray(_n(b))
    if a.dtype.kind == 'O' or b.dtype.kind in 'OSU':
      f = lambda v: [x.encode() if isinstance(x, str) else x for x in v.reshape(-1).tolist()]
      self.assertEqual(a.shape, b.shape)
      self.assertEqual(f(a), f(b))
      return
    self.assertEqual(a.shape, b.shape, msg)
    np.testing.assert_array_equal(a, b)

  def assertAllClose(self, a, b, rtol=1e-6, atol=1e-6, msg=None):
    a, b = _n(a), _n(b)
    if isinstance(a, dict):
      self.assertEqual(set(a), set(b))
      for k in a:
        self.assertAllClose(a[k], b[k], rtol, atol)
      return
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
      try:
        np.array(a, dtype=float), np.array(b, dtype=float)
      except (ValueError, TypeError):
        self.assertEqual(len(a), len(b))
        for x, y in zip(a, b):
          self.assertAllClose(x, y, rtol, atol)
        return
    a, b = np.asarray(a), np.asarray(b)
    self.assertEqual(a.shape, b.shape, msg)
    np.testing.assert_allclose(a, b, rtol=rtol, atol=atol)

  def assertNotAllClose(self, a, b, **k):
    try:
      self.assertAllClose(a, b, **k)
    except AssertionError:
      return
    raise AssertionError('all close')

  def assertNear(self, a, b, err, msg=None):
    self.assertLessEqual(abs(float(a) - float(b)), err)

  def assertDTypeEqual(self, a, d):
    self.assertEqual(tf.as_dtype(np.asarray(_n(a)).dtype), tf.as_dtype(d))

  def assertShapeEqual(self, a, b, msg=None):
    self.assertEqual(tuple(np.shape(_n(a))), tuple(np.shape(_n(b))))

  def assertProtoEquals(self, a, b, msg=None):
    if isinstance(a, str):
      from google.protobuf import text_format
      a = text_format.Parse(a, type(b)())
    self.assertEqual(a, b)
