import numpy as np


class StandardScaler:

  def __init__(self, *, copy=True, with_mean=True, with_std=True):
    self.copy, self.with_mean, self.with_std = copy, with_mean, with_std

  def fit(self, X, y=None):
    x = np.asarray(X, dtype=float)
    self.mean_ = x.mean(0)
    self.var_ = x.var(0)
    self.scale_ = np.sqrt(self.var_)
    self.scale_[self.scale_ < 10 * np.finfo(float).eps] = 1.0
    return self

  def transform(self, X):
    return (np.asarray(X, dtype=float) - (self.mean_ if self.with_mean else 0)) / (self.scale_ if self.with_std else 1)

  def inverse_transform(self, X):
    return np.asarray(X, dtype=float) * (self.scale_ if self.with_std else 1) + (self.mean_ if self.with_mean else 0)

  def fit_transform(self, X, y=None):
    return self.fit(X).transform(X)
