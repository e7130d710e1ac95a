class Pipeline:

  def __init__(self, steps, **kw):
    self.steps = list(steps)

  named_steps = property(lambda s: dict(s.steps))

  def fit(self, X, y=None):
    for _, s in self.steps:
      s.fit(X)
      X = s.transform(X)
    return self

  def transform(self, X):
    for _, s in self.steps:
      X = s.transform(X)
    return X

  def fit_transform(self, X, y=None):
    return self.fit(X).transform(X)

  def inverse_transform(self, X):
    for _, s in reversed(self.steps):
      X = s.inverse_transform(X)
    return X

  def __getitem__(self, i):
    return dict(self.steps)[i] if isinstance(i, str) else self.steps[i][1]


def make_pipeline(*steps, **kw):
  return Pipeline([(type(s).__name__.lower(), s) for s in steps])
