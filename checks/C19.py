"""Projection and back-projection of a global-shutter camera."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib import camera, drv, wod
from vlib.core import Sub
from vlib.geo import f

prepare = drv.prepare('camera_driver')
close_env = drv.close_env


def open_env(env):
  wod.setup()
  return drv.open_env(env)


@st.composite
def cases(draw):
  return dict(cam=draw(camera.cameras(camera.GLOBAL)), pts=draw(camera.points()), bounds=draw(st.booleans()),
              pix=[[draw(f(-0.2, 1.2)), draw(f(-0.2, 1.2)), draw(f(0.5, 100))] for _ in range(3)])


def check(case, ctx):
  cam = case['cam']
  pts = [list(camera.world(cam, p)) + p[3:] for p in case['pts']]
  pix = [[a * cam['w'], b * cam['h'], z] for a, b, z in case['pix']]
  moving, depth, plain, back, inside = camera.run(ctx, cam, pts, case['bounds'], pix)
  ctx.require(np.array_equal(moving, depth) and np.array_equal(plain, depth[:, :3]),
              'the three ways of projecting differ: %r', (moving.tolist(), depth.tolist(), plain.tolist()))
  redo, far = [], max(map(abs, cam['images'][-1]['pose'][3:]))
  for (z, u, v, *_), p, got in zip(case['pts'], pts, depth):
    where = ' of the point at depth %r, direction (%r, %r)' % (z, u, v)
    if z < 0:
      ctx.equal(got.tolist(), [0, -1, -1, -1], 'projection' + where)
      ctx.label('behind')
      continue
    ctx.close(got[3], z, 'depth' + where, 1e-7 + 1e-10 * far)
    pu, pv, rd = camera.distort(cam['k'], u, v)
    tol = 1e-6 + max(cam['k'][:2]) * (1e-11 * (far + 10))
    if min(abs(rd - 0.8), abs(rd - 1.2)) < 1e-8:
      continue
    if not 0.8 < rd < 1.2:
      pu, pv = camera.clipped(cam, u, v)
      ctx.close(got[:3], [0, pu, pv], 'projection (too distorted)' + where, tol)
      ctx.label('too distorted')
      continue
    ctx.close(got[1:3], [pu, pv], 'pixel' + where, tol)
    seen = camera.inside(cam, pu, pv)
    if seen is not None or not case['bounds']:
      ctx.equal(bool(got[0]), seen if case['bounds'] else True, 'visibility' + where)
    r = camera.undistort(cam['k'], pu, pv)
    if r is not None and r[2] < 0.4 and abs(r[0] - u) + abs(r[1] - v) < 1e-9:
      redo.append((got[1:], p[:3], z))
  m = camera.pose(cam['images'][-1]['pose'])
  for q, b, ins in zip(pix, back, inside):
    where = ' of pixel (%r, %r) at depth %r' % tuple(q)
    seen = camera.inside(cam, *q[:2])
    if seen is not None:
      ctx.equal(bool(ins[0]), seen, 'inside the image' + where)
    ctx.close(b[:3], (m @ np.append(b[3:], 1))[:3], 'world and vehicle position' + where, 1e-6, 1e-9)
    r = camera.undistort(cam['k'], *q[:2])
    if r is None or r[2] > 0.4:
      ctx.label('undistortion left out')
      continue
    ctx.nontrivial()
    u, v, _ = r
    ctx.close(b[3:], (camera.pose(cam['ext']) @ [q[2], -q[2] * u, -q[2] * v, 1])[:3], 'vehicle position' + where, 1e-6, 1e-6)
  if redo:
    ctx.label('round trip')
    back = camera.run(ctx, cam, [], False, [r[0] for r in redo])[3]
    for (q, p, z), b in zip(redo, back):
      ctx.close(b[:3], p, 'point back from its pixel %r' % list(q), 1e-6 * z + 1e-9 * far)


@st.composite
def border_cases(draw):
  """Cameras without any rounding: points exactly on the image's border."""
  w, h = draw(st.sampled_from([64, 1920, 640])), draw(st.sampled_from([128, 1280, 64]))
  k = [float(draw(st.sampled_from([64, 256, 2048]))), float(draw(st.sampled_from([64, 256, 1024]))), w / 2, h / 4]
  cam = dict(w=w, h=h, k=k + [0.0] * 5, ext=[0.0] * 6, shutter=camera.GLOBAL,
             images=[dict(pose=[0.0] * 6, v=[0.0] * 6, shutter=0.0, trig=0.0, done=0.5, t=0.0)])
  at = lambda n: draw(st.sampled_from([0.0, float(n), n - 0.5, -0.5, n / 2, 0.5, n + 0.5]))
  return dict(cam=cam, pix=[[at(w), at(h), float(draw(st.sampled_from([1, 2, 16])))] for _ in range(6)], bounds=draw(st.booleans()),
              flat=[[0.0, draw(f(-3, 3)), draw(f(-3, 3)), 0.0, 0.0, 0.0] for _ in range(2)])


def check_border(case, ctx):
  """The first row and column belong to the image, those behind the last do not."""
  cam = case['cam']
  k = cam['k']
  pts = [[z, -(u - k[2]) / k[0] * z, -(v - k[3]) / k[1] * z, 0.0, 0.0, 0.0] for u, v, z in case['pix']]
  got = camera.run(ctx, cam, pts + case['flat'], case['bounds'], case['pix'])
  n = len(pts)
  for (u, v, z), row, ins in zip(case['pix'], got[1], got[4]):
    seen = 0 <= u < cam['w'] and 0 <= v < cam['h']
    ctx.nontrivial(u in (0, cam['w']) or v in (0, cam['h']))
    ctx.equal(row[1:].tolist(), [u, v, z], 'pixel and depth')
    ctx.equal(bool(row[0]), seen or not case['bounds'], 'visibility of pixel (%r, %r)' % (u, v))
    ctx.equal(bool(ins[0]), seen, 'pixel (%r, %r) inside the image' % (u, v))
  ctx.equal(got[1][n:].tolist(), [[0, -1, -1, -1]] * len(case['flat']), 'points in the plane of the camera')


SUBS = [Sub('borders', border_cases, check_border, 600, rule='a pixel on the border'),
        Sub('global shutter', cases, check, 8000, rule='a pixel away from the centre is undistorted')]
