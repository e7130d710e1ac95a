"""Plain reference geometry (double precision, independent of the tree)."""
import math

import numpy as np

from hypothesis import strategies as st


def corners(cx, cy, l, w, h):
  """Counter-clockwise corners."""
  c, s = math.cos(h), math.sin(h)
  return [(cx + x * c - y * s, cy + x * s + y * c)
          for x, y in ((-l / 2, -w / 2), (l / 2, -w / 2), (l / 2, w / 2),
                       (-l / 2, w / 2))]


def area(poly):
  if len(poly) < 3:
    return 0.0
  x0, y0 = poly[0]
  return 0.5 * sum((poly[i][0] - x0) * (poly[(i + 1) % len(poly)][1] - y0) -
                   (poly[(i + 1) % len(poly)][0] - x0) * (poly[i][1] - y0)
                   for i in range(len(poly)))


def clip(poly, convex):
  """Sutherland-Hodgman: poly clipped by the CCW convex polygon."""
  out = poly
  n = len(convex)
  for i in range(n):
    ax, ay = convex[i]
    bx, by = convex[(i + 1) % n]
    dx, dy = bx - ax, by - ay
    src, out = out, []
    if not src:
      return []
    side = [dx * (y - ay) - dy * (x - ax) for x, y in src]
    m = len(src)
    for k in range(m):
      s0, s1 = side[k], side[(k + 1) % m]
      if s0 >= 0:
        out.append(src[k])
      if (s0 > 0 > s1) or (s0 < 0 < s1):
        t = s0 / (s0 - s1)
        (x0, y0), (x1, y1) = src[k], src[(k + 1) % m]
        out.append((x0 + (x1 - x0) * t, y0 + (y1 - y0) * t))
  return out


def inter_area(p, q):
  # Work near the origin to keep the arithmetic well conditioned.
  ox, oy = p[0]
  p = [(x - ox, y - oy) for x, y in p]
  q = [(x - ox, y - oy) for x, y in q]
  return max(0.0, area(clip(p, q)))


def inter_1d(c1, h1, c2, h2):
  return max(0.0, min(c1 + h1 / 2, c2 + h2 / 2) - max(c1 - h1 / 2, c2 - h2 / 2))


def rect_inter(a, b):
  return inter_area(corners(a[0], a[1], a[3], a[4], a[6]),
                    corners(b[0], b[1], b[3], b[4], b[6]))


def iou(a, b, kind):
  """a, b: cx, cy, cz, l, w, h, heading; kind '3d', '2d' or 'aa'."""
  if kind == 'aa':
    i = inter_1d(a[0], a[3], b[0], b[3]) * inter_1d(a[1], a[4], b[1], b[4])
    u = a[3] * a[4] + b[3] * b[4] - i
  elif kind == '2d':
    i = rect_inter(a, b)
    u = a[3] * a[4] + b[3] * b[4] - i
  else:
    i = rect_inter(a, b) * inter_1d(a[2], a[5], b[2], b[5])
    u = a[3] * a[4] * a[5] + b[3] * b[4] * b[5] - i
  return min(1.0, max(0.0, i / u))


# ---- generators -----------------------------------------------------------
def f(lo, hi):
  lo, hi = float(np.float32(lo)), float(np.float32(hi))
  return st.floats(lo, hi, allow_nan=False, allow_infinity=False, width=32)


def coord(lim=50):
  """Grid values (shared edges, exact coincidences) or arbitrary ones."""
  return st.one_of(st.integers(-8 * 4, 8 * 4).map(lambda k: k / 4), f(-lim, lim))


dim = st.one_of(st.integers(1, 40).map(lambda k: k / 4), f(0.03125, 30))
heading = st.one_of(
    st.sampled_from([0.0, math.pi / 2, math.pi, -math.pi / 2, math.pi / 4,
                     -3 * math.pi / 4, 2 * math.pi, -math.pi]),
    f(-3.2, 3.2), f(-30, 30))
