class Rectangle:

  def __init__(self, xy, width, height, *, angle=0.0, color=None, **kw):
    self._xy, self._w, self._h, self.angle, self._color, self._kw = tuple(map(float, xy)), float(width), float(height), float(angle), color, kw
    self._axes = None

  def get_xy(self):
    return self._xy

  def get_width(self):
    return self._w

  def get_height(self):
    return self._h

  def get_angle(self):
    return self.angle

  def get_facecolor(self):
    return tuple(self._color)

  def remove(self):
    self._axes.artists_.remove(self)
    self._axes = None
