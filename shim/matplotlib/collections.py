import numpy as np


class Collection:

  def __init__(self, **kw):
    self._kw = kw

  def get_linewidths(self):
    return np.atleast_1d(self._kw.get('linewidths'))

  get_linewidth = get_linewidths

  def get_colors(self):
    return self._kw.get('colors')

  get_color = get_colors


class LineCollection(Collection):

  def __init__(self, segments, **kw):
    super().__init__(**kw)
    self._s = [np.asarray(s, float) for s in segments]

  def get_segments(self):
    return self._s


class EllipseCollection(Collection):

  def __init__(self, widths, heights, angles, units='points', offsets=None, **kw):
    super().__init__(**kw)
    self._widths, self._heights, self._angles, self._units = map(lambda v: v, (widths, heights, angles, units))
    self._off = np.asarray(offsets, float)

  def get_offsets(self):
    return self._off
