"""Helpers for checks of the TensorFlow code (run on the numpy stand-in)."""
import struct
import zlib

import numpy as np
from hypothesis import strategies as st


def seeds():
  return st.integers(0, 2**31 - 1)


def rot(roll, pitch, yaw):
  """Rotation matrices Rz(yaw) Ry(pitch) Rx(roll), float64."""
  r, p, y = np.broadcast_arrays(*[np.asarray(v, np.float64) for v in (roll, pitch, yaw)])
  cr, sr, cp, sp, cy, sy = np.cos(r), np.sin(r), np.cos(p), np.sin(p), np.cos(y), np.sin(y)
  return np.stack([
      np.stack([cy * cp, cy * sp * sr - sy * cr, cy * sp * cr + sy * sr], -1),
      np.stack([sy * cp, sy * sp * sr + cy * cr, sy * sp * cr - cy * sr], -1),
      np.stack([-sp, cp * sr, cp * cr], -1)], -2)


def pose(rng, spread=50.0, tilt=0.1, yaw=np.pi):
  """A 4x4 rigid transform."""
  m = np.eye(4)
  m[:3, :3] = rot(rng.uniform(-tilt, tilt), rng.uniform(-tilt, tilt), rng.uniform(-yaw, yaw))
  m[:3, 3] = rng.uniform(-spread, spread, 3) * [1, 1, 0.1]
  return m


def apply(m, p):
  """m: [..., 4, 4], p: [..., 3] with leading dimensions that broadcast."""
  return np.einsum('...ij,...j->...i', m[..., :3, :3], p) + m[..., :3, 3]


def inv(m):
  out = np.zeros(m.shape)
  r = np.swapaxes(m[..., :3, :3], -1, -2)
  out[..., :3, :3] = r
  out[..., :3, 3] = -np.einsum('...ij,...j->...i', r, m[..., :3, 3])
  out[..., 3, 3] = 1
  return out


def wrap(a):
  """Angle in [-pi, pi)."""
  return (np.asarray(a, np.float64) + np.pi) % (2 * np.pi) - np.pi


def png(a):
  """PNG bytes of an [h, w, 3] or [h, w] uint8/uint16 array."""
  a = np.asarray(a)
  h, w = a.shape[:2]
  depth = 16 if a.dtype == np.uint16 else 8
  rows = a.astype('>u2' if depth == 16 else 'u1').reshape(h, -1)
  raw = b''.join(b'\0' + r.tobytes() for r in rows)

  def chunk(k, v):
    return struct.pack('>I', len(v)) + k + v + struct.pack('>I', zlib.crc32(k + v))
  return (b'\x89PNG\r\n\x1a\n' + chunk(b'IHDR', struct.pack('>IIBBBBB', w, h, depth, 2 if a.ndim == 3 and a.shape[2] == 3 else 0, 0, 0, 0))
          + chunk(b'IDAT', zlib.compress(raw)) + chunk(b'IEND', b''))


def corners2d(b):
  """[..., 7] -> [..., 4, 2] counter-clockwise from the front left."""
  b = np.asarray(b, float)
  s = np.array([[1, 1], [-1, 1], [-1, -1], [1, -1]]) * 0.5
  p = s * b[..., None, 3:5]
  c, si = np.cos(b[..., 6])[..., None], np.sin(b[..., 6])[..., None]
  return np.stack([c * p[..., 0] - si * p[..., 1], si * p[..., 0] + c * p[..., 1]], -1) + b[..., None, :2]


def hull(p):
  """Convex hull (counter-clockwise) of an [n, 2] array."""
  p = sorted(map(tuple, np.asarray(p, float)))
  def half(pts):
    out = []
    for q in pts:
      while len(out) > 1 and (out[-1][0] - out[-2][0]) * (q[1] - out[-2][1]) - (out[-1][1] - out[-2][1]) * (q[0] - out[-2][0]) <= 0:
        out.pop()
      out.append(q)
    return out
  lo, up = half(p), half(p[::-1])
  return np.array(lo[:-1] + up[:-1])


def signed_distance(q, poly):
  """Distance from q to the boundary of a convex polygon; negative inside."""
  q = np.asarray(q, float)
  best, inside = np.inf, True
  for k in range(len(poly)):
    a, b = poly[k], poly[(k + 1) % len(poly)]
    e = b - a
    l2 = e @ e
    if l2 == 0:
      best = min(best, np.linalg.norm(q - a))
      continue
    t = min(1.0, max(0.0, (q - a) @ e / l2))
    best = min(best, np.linalg.norm(q - a - t * e))
    if e[0] * (q - a)[1] - e[1] * (q - a)[0] < 0:
      inside = False
  return -best if inside else best
