"""Projection and back-projection of a rolling-shutter camera."""
import numpy as np
from hypothesis import strategies as st

from vlib import camera, drv, wod
from vlib.core import Sub
from vlib.geo import f

prepare = drv.prepare('camera_driver')
close_env = drv.close_env


def open_env(env):
  wod.setup()
  return drv.open_env(env)


@st.composite
def cases(draw):
  cam = draw(camera.cameras(draw(st.sampled_from([camera.TOP, camera.LEFT, camera.BOTTOM, camera.RIGHT])),
                            draw(st.booleans())))
  pts = draw(camera.points())
  for p in pts:  # in and around the image
    for a, size in ((0, cam['w']), (1, cam['h'])):
      p[1 + a] = (size * (0.5 + 0.9 * p[1 + a]) - cam['k'][2 + a]) / cam['k'][a]
  return dict(cam=cam, pts=pts, bounds=draw(st.booleans()),
              pix=[[draw(f(-0.2, 1.2)), draw(f(-0.2, 1.2)), draw(f(0.5, 100))] for _ in range(3)])


def skew(v):
  return np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])


class Model:
  """The camera in motion, to first order in the turn since the pose time."""

  def __init__(self, cam):
    im = cam['images'][-1]
    self.k, self.w, self.h = cam['k'], cam['w'], cam['h']
    veh, ext = camera.pose(im['pose']), camera.pose(cam['ext'])
    m = veh @ ext
    self.R, self.c = m[:3, :3], m[:3, 3]
    w_vehicle = np.array(im['v'][3:])
    self.v = np.array(im['v'][:3]) + veh[:3, :3] @ np.cross(w_vehicle, ext[:3, 3])
    self.S = skew(ext[:3, :3].T @ w_vehicle)
    self.axis = int(cam['shutter'] in (camera.TOP, camera.BOTTOM))  # rows are read out along v
    readout = im['done'] - im['trig'] - im['shutter']
    size = (self.w, self.h)[self.axis]
    back = cam['shutter'] in (camera.BOTTOM, camera.RIGHT)
    # time since the middle of the first line's exposure, per pixel
    self.per_pixel = (-1 if back else 1) * readout / size
    pp = self.k[2 + self.axis]
    t_pp = im['trig'] + 0.5 * im['shutter'] + readout * ((size - pp) if back else pp) / size
    self.offset = im['t'] - t_pp  # pose time since the principal point's line
    ends = [(0, self.h / 2), (self.w, self.h / 2)] if self.axis == 0 else [(self.w / 2, 0), (self.w / 2, self.h)]
    ends = [camera.undistort(self.k, *e) for e in ends]
    self.ok = all(e is not None and e[2] < 0.4 for e in ends)
    if self.ok:
      self.per_coord = self.per_pixel * size / (ends[1][self.axis] - ends[0][self.axis])

  def seen(self, p, v, t):
    """Camera-frame position of a moving point at time t after the pose."""
    return (np.eye(3) - t * self.S) @ self.R.T @ (p + t * v - self.c - t * self.v)

  def line_time(self, x):
    return -x[1 + self.axis] / x[0] * self.per_coord - self.offset

  def capture(self, p, v):
    """The time at which the point is read out; None if badly conditioned."""
    g = lambda t: self.line_time(self.seen(p, v, t))
    lim = abs(self.per_coord) * 3 + abs(self.offset) + 0.01
    ts = np.linspace(-lim, lim, 9)
    xs = [self.seen(p, v, t) for t in ts]
    if min(x[0] for x in xs) < 0.3:
      return None
    slope = max(abs((g(t + 1e-6) - g(t - 1e-6)) / 2e-6) for t in ts)
    if slope > 0.5:
      return None
    t = 0.0
    for _ in range(60):
      t = g(t)
    return t if abs(t) < lim else None


def check(case, ctx):
  cam = case['cam']
  m = Model(cam)
  if not m.ok:
    ctx.label('distortion too strong')
    return
  pts = [list(camera.world(cam, p)) + p[3:] for p in case['pts']]
  pix = [[a * m.w, b * m.h, z] for a, b, z in case['pix']]
  moving, depth, plain, back, _ = camera.run(ctx, cam, pts, case['bounds'], pix)
  ctx.require(np.array_equal(plain, depth[:, :3]), 'projection with and without depth differ: %r',
              (plain.tolist(), depth.tolist()))
  far = max(map(abs, cam['images'][-1]['pose'][3:]))
  late = 1e-6 if cam['images'][-1]['trig'] > 1e6 else 1e-9  # resolution of the time stamps
  redo = []
  for (z, u0, v0, *_), q, got_m, got_s in zip(case['pts'], pts, moving, depth):
    for got, vel, name in ((got_m, q[3:], 'moving'), (got_s, [0.0] * 3, 'static')):
      where = ' of the %s point at depth %r, direction (%r, %r)' % (name, z, u0, v0)
      p, vel = np.array(q[:3]), np.array(vel)
      if z < 0:
        ctx.equal(got.tolist(), [0, -1, -1, -1], 'projection' + where)
        ctx.label('behind')
        continue
      t = m.capture(p, vel)
      if t is None:
        ctx.label('time badly conditioned')
        continue
      x = m.seen(p, vel, t)
      e = 1e-5
      rate = np.abs(m.seen(p, vel, t + e) - m.seen(p, vel, t - e)) / (2 * e)
      slack = 1e-5 + late  # seconds; the tolerance of the solver
      ctx.close(got[3], x[0], 'depth' + where, 1e-6 + 1e-10 * far + slack * rate[0])
      u, v = -x[1] / x[0], -x[2] / x[0]
      pu, pv, rd = camera.distort(cam['k'], u, v)
      if min(abs(rd - 0.8), abs(rd - 1.2)) < 1e-3:
        continue
      y = m.seen(p, vel, t + e)
      flow = np.abs(np.array(camera.distort(cam['k'], -y[1] / y[0], -y[2] / y[0])[:2]) - [pu, pv]) / e
      tol = 1e-5 + max(cam['k'][:2]) * 1e-11 * (far + 10) + slack * flow
      if not 0.8 < rd < 1.2:
        ctx.equal(bool(got[0]), False, 'visibility (too distorted)' + where)
        w = camera.clipped(cam, u, v)
        ctx.close(np.abs(got[1:3] - w) <= 1e-3 * (1 + np.abs(w)) + tol, [1, 1], 'pixel (too distorted)' + where)
        continue
      ctx.require(np.all(np.abs(got[1:3] - [pu, pv]) <= tol), lambda: 'pixel%s: got %r, expected %r (+-%r), captured at %r' % (
          where, got[1:3].tolist(), [pu, pv], tol.tolist(), t))
      edge = min(abs(pu), abs(pu - m.w), abs(pv), abs(pv - m.h)) <= 2 * max(tol)
      if not edge or not case['bounds']:
        ctx.equal(bool(got[0]), (0 <= pu < m.w and 0 <= pv < m.h) if case['bounds'] else True, 'visibility' + where)
      ctx.nontrivial(t != 0 and np.max(flow) * abs(t) > 0.5)
      if not any(cam['k'][4:]) and name == 'static':
        turn = np.linalg.norm(m.S) * abs(t)
        redo.append((got[1:], p, turn * turn * np.linalg.norm(x) + slack * np.linalg.norm(m.v)))
  for q, b in zip(pix, back):
    r = camera.undistort(cam['k'], *q[:2])
    if r is None or r[2] > 0.4:
      continue
    t = (q[m.axis] - cam['k'][2 + m.axis]) * m.per_pixel - m.offset
    x = np.array([q[2], -q[2] * r[0], -q[2] * r[1]])
    want = ((np.eye(3) - t * m.S) @ m.R.T).T @ x + m.c + t * m.v
    ctx.close(b[:3], want, 'world position of pixel %r' % q, 1e-5 + late * (60 + q[2]), 1e-8)
    ctx.close(b[3:], (camera.pose(cam['ext']) @ np.append(x, 1))[:3], 'vehicle position of pixel %r' % q, 1e-6, 1e-6)
  if redo:
    ctx.label('round trip')
    back = camera.run(ctx, cam, [], False, [r[0] for r in redo])[3]
    for (q, p, tol), b in zip(redo, back):
      ctx.close(b[:3], p, 'static point back from its pixel %r' % list(q), 1e-5 + late * 100 + tol * 1.5 + 1e-9 * far)


SUBS = [Sub('rolling shutter', cases, check, 4000, rule='a pixel moves by half a pixel or more through the shutter')]
