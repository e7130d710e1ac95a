"""linear_sum_assignment by the shortest augmenting path method."""
import numpy as np


def linear_sum_assignment(cost_matrix, maximize=False):
  c = np.array(cost_matrix, dtype=float)
  if c.ndim != 2:
    raise ValueError('expected a matrix (2-D array), got a %r array' % (c.shape,))
  if maximize:
    c = -c
  if np.isnan(c).any() or np.isneginf(c).any():
    raise ValueError('matrix contains invalid numeric entries')
  swap = c.shape[0] > c.shape[1]
  if swap:
    c = c.T
  n, m = c.shape
  u, v = np.zeros(n + 1), np.zeros(m + 1)
  p, way = np.zeros(m + 1, int), np.zeros(m + 1, int)
  for i in range(1, n + 1):
    p[0] = i
    j0 = 0
    minv = np.full(m + 1, np.inf)
    used = np.zeros(m + 1, bool)
    while True:
      used[j0] = True
      i0, delta, j1 = p[j0], np.inf, -1
      for j in range(1, m + 1):
        if not used[j]:
          cur = c[i0 - 1, j - 1] - u[i0] - v[j]
          if cur < minv[j]:
            minv[j], way[j] = cur, j0
          if minv[j] < delta:
            delta, j1 = minv[j], j
      if j1 < 0:
        raise ValueError('cost matrix is infeasible')
      for j in range(m + 1):
        if used[j]:
          u[p[j]] += delta
          v[j] -= delta
        else:
          minv[j] -= delta
      j0 = j1
      if p[j0] == 0:
        break
    while j0:
      j1 = way[j0]
      p[j0] = p[j1]
      j0 = j1
  pairs = sorted((p[j] - 1, j - 1) for j in range(1, m + 1) if p[j])
  if swap:
    pairs = sorted((j, i) for i, j in pairs)
  return (np.array([a for a, _ in pairs], dtype=np.int64), np.array([b for _, b in pairs], dtype=np.int64))
