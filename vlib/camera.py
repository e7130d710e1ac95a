"""Cameras: generators, protos and a reference projection model."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib import wod
from vlib.driver import d, i, pack, ud
from vlib.geo import f

TOP, LEFT, BOTTOM, RIGHT, GLOBAL = 1, 2, 3, 4, 5
f32 = lambda x: float(np.float32(x))


def rot(a):
  """From yaw, pitch, roll."""
  (cy, cp, cr), (sy, sp, sr) = np.cos(a), np.sin(a)
  return np.array([[cy * cp, cy * sp * sr - sy * cr, cy * sp * cr + sy * sr],
                   [sy * cp, sy * sp * sr + cy * cr, sy * sp * cr - cy * sr], [-sp, cp * sr, cp * cr]])


def pose(p):
  m = np.eye(4)
  m[:3, :3] = rot(p[:3])
  m[:3, 3] = p[3:]
  return m


@st.composite
def poses(draw, far):
  a = draw(st.sampled_from([1.0, 1.0, 0.0]))
  return [draw(f(-3.2, 3.2)) * a, draw(f(-1.5, 1.5)) * a, draw(f(-3.2, 3.2)) * a] + [draw(f(-far, far)) for _ in range(3)]


@st.composite
def intrinsics(draw, distortion=True):
  w, h = draw(st.integers(60, 2000)), draw(st.integers(60, 2000))
  fu = w * draw(f(0.5, 3))
  fv = fu * draw(f(0.8, 1.25))
  k = [0.0] * 5
  if distortion and draw(st.integers(0, 4)):
    k = [draw(f(-0.35, 0.35)), draw(f(-0.1, 0.1)), draw(f(-0.01, 0.01)), draw(f(-0.01, 0.01)), draw(f(-0.05, 0.05))]
  return dict(w=w, h=h, k=[fu, fv, w * draw(f(0.3, 0.7)), h * draw(f(0.3, 0.7))] + k)


@st.composite
def cameras(draw, shutter, distortion=True):
  c = dict(draw(intrinsics(distortion)), ext=draw(poses(3)), shutter=shutter)
  c['images'] = [draw(image()) for _ in range(draw(st.sampled_from([1, 1, 2])))]
  return c


@st.composite
def image(draw):
  still = draw(st.integers(0, 5)) == 0
  v = [0.0] * 6 if still else [f32(draw(f(-25, 25))), f32(draw(f(-25, 25))), f32(draw(f(-3, 3)))] + [
      draw(f(-0.6, 0.6)) for _ in range(3)]
  t0 = draw(st.sampled_from([0.0, 100.0, 1.5e9]))
  exposure = draw(f(0, 0.015))
  return dict(pose=draw(poses(draw(st.sampled_from([0, 50, 20000])))), v=v, shutter=exposure, trig=t0,
              done=t0 + exposure + draw(f(0.002, 0.05)), t=t0 + draw(f(-0.03, 0.06)))


@st.composite
def points(draw, n=4):
  """In the camera frame at the pose time: depth and normalized direction."""
  out = []
  for _ in range(n):
    z = draw(st.sampled_from([1, 1, 1, 1, -1])) * draw(f(1, 90))
    a, b = draw(st.one_of(st.just(0.0), f(-1.3, 1.3))), draw(st.one_of(st.just(0.0), f(-1.3, 1.3)))
    out.append([z, a, b] + [draw(f(-15, 15)) for _ in range(3)])
  return out


def calibration(cam):
  pb = wod.pb('dataset_pb2')
  c = pb.CameraCalibration(width=cam['w'], height=cam['h'], intrinsic=cam['k'],
                           rolling_shutter_direction=cam['shutter'])
  c.extrinsic.transform.extend(pose(cam['ext']).ravel().tolist())
  return c


def image_proto(im):
  p = wod.pb('dataset_pb2').CameraImage(pose_timestamp=im['t'], shutter=im['shutter'], camera_trigger_time=im['trig'],
                                        camera_readout_done_time=im['done'])
  p.pose.transform.extend(pose(im['pose']).ravel().tolist())
  for k, x in zip(('v_x', 'v_y', 'v_z', 'w_x', 'w_y', 'w_z'), im['v']):
    setattr(p.velocity, k, x)
  return p


def world(cam, p):
  """A camera-frame (depth, u, v) as a point of the world, at the pose time."""
  m = pose(cam['images'][-1]['pose']) @ pose(cam['ext'])
  return (m @ np.array([p[0], -p[0] * p[1], -p[0] * p[2], 1.0]))[:3]


def run(ctx, cam, pts, bounds=False, pixels=()):
  """-> (ok u v depth) by three calls, world+vehicle positions, inside."""
  out = ctx.env['drv'].call(
      'camera', calibration(cam).SerializeToString(), pack([image_proto(im).SerializeToString() for im in cam['images']]),
      d(np.ravel(pts) if len(pts) else []), i(int(bounds)), d(np.ravel(pixels) if len(pixels) else []))
  return [np.reshape(ud(o), (-1, w)) for o, w in zip(out, (4, 4, 3, 6, 1))]


# ---- the model ------------------------------------------------------------
def distort(k, u, v):
  """-> pixel, radial factor."""
  fu, fv, cu, cv, k1, k2, p1, p2, k3 = k
  r2 = u * u + v * v
  rd = 1 + r2 * (k1 + r2 * (k2 + r2 * k3))
  x = u * rd + 2 * p1 * u * v + p2 * (r2 + 2 * u * u)
  y = v * rd + p1 * (r2 + 2 * v * v) + 2 * p2 * u * v
  return fu * x + cu, fv * y + cv, rd


def jac(k, u, v, eps=1e-6):
  """d pixel / d direction."""
  a, b = distort(k, u + eps, v), distort(k, u - eps, v)
  c, e = distort(k, u, v + eps), distort(k, u, v - eps)
  return np.array([[a[0] - b[0], c[0] - e[0]], [a[1] - b[1], c[1] - e[1]]]) / (2 * eps)


def undistort(k, pu, pv):
  """The direction of a pixel by Newton's method, and how fast the fixed point
  iteration of any solver that starts at the pixel can be relied on."""
  u, v = (pu - k[2]) / k[0], (pv - k[3]) / k[1]
  u0, v0 = u, v
  for _ in range(60):
    x, y, _ = distort(k, u, v)
    j = jac(k, u, v)
    if not np.all(np.isfinite(j)) or abs(np.linalg.det(j)) < 1e-3 * k[0] * k[1]:
      return None
    du, dv = np.linalg.solve(j, [pu - x, pv - y])
    u, v = u + du, v + dv
    if abs(du) + abs(dv) < 1e-14:
      break
  else:
    return None
  # contraction of u <- (u_nd - tangential) / radial between start and solution
  worst = 0.0
  for s in (0, 0.25, 0.5, 0.75, 1.0, 1.25):
    a, b = u0 + s * (u - u0), v0 + s * (v - v0)
    jj = jac(k, a, b) / np.array([[k[0]], [k[1]]])
    rd = distort(k, a, b)[2]
    worst = max(worst, float(np.linalg.norm(np.eye(2) - jj / max(rd, 1e-3))), abs(rd - 1) * 1.2)
  return u, v, worst


def clipped(cam, u, v):
  """Where directions of too large a distortion are reported."""
  r = math.hypot(cam['w'], cam['h']) / math.hypot(u, v)
  return u * r + cam['k'][2], v * r + cam['k'][3]


def inside(cam, u, v):
  """None at the border."""
  w, h = cam['w'], cam['h']
  if min(abs(u), abs(u - w), abs(v), abs(v - h)) < 1e-5:
    return None
  return 0 <= u < w and 0 <= v < h
