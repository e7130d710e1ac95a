import numpy as np


class PCA:

  def __init__(self, n_components=None, **kw):
    self.n_components = n_components

  def fit(self, X, y=None):
    x = np.asarray(X, dtype=float)
    self.mean_ = x.mean(0)
    _, s, vt = np.linalg.svd(x - self.mean_, full_matrices=False)
    k = self.n_components if self.n_components is not None else min(x.shape)
    if k > min(x.shape):
      raise ValueError('n_components=%d must be between 0 and min(n_samples, n_features)=%d' % (k, min(x.shape)))
    sign = np.sign(vt[np.arange(len(vt)), np.argmax(np.abs(vt), 1)])
    self.components_ = (vt * sign[:, None])[:k]
    self.explained_variance_ = (s ** 2 / (len(x) - 1))[:k]
    return self

  def transform(self, X):
    return (np.asarray(X, dtype=float) - self.mean_) @ self.components_.T

  def inverse_transform(self, X):
    return np.asarray(X, dtype=float) @ self.components_ + self.mean_

  def fit_transform(self, X, y=None):
    return self.fit(X).transform(X)
