import numpy as np


class KernelDensity:

  def __init__(self, *, bandwidth=1.0, kernel='gaussian', **kw):
    if kernel != 'gaussian' or kw:
      raise NotImplementedError(kernel)
    self.bandwidth = bandwidth

  def fit(self, X, y=None, sample_weight=None):
    self._x = np.asarray(X, dtype=float)
    if self._x.ndim != 2 or not len(self._x) or not np.isfinite(self._x).all():
      raise ValueError('Expected a finite 2D array with samples')
    return self

  def score_samples(self, X):
    x = np.asarray(X, dtype=float)
    if x.ndim != 2 or x.shape[1] != self._x.shape[1] or not np.isfinite(x).all():
      raise ValueError('Expected a finite 2D array')
    d = x.shape[1]
    z = -0.5 * np.sum((x[:, None] - self._x[None]) ** 2, -1) / self.bandwidth ** 2
    m = z.max(1, keepdims=True)
    return (np.log(np.exp(z - m).sum(1)) + m[:, 0] - np.log(len(self._x)) - d * (np.log(self.bandwidth) + 0.5 * np.log(2 * np.pi)))
