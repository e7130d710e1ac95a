"""Road-graph samples of the tf.Example of a scenario."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib import drv, scen, wod
from vlib.core import Sub
from vlib.geo import f

prepare = drv.prepare('conv_driver')
close_env = drv.close_env


def open_env(env):
  wod.setup()
  return drv.open_env(env)


LINES = ('lane', 'road_line', 'road_edge')
POLYGONS = ('crosswalk', 'speed_bump', 'driveway')
ORDER = ('lane', 'road_line', 'stop_sign', 'crosswalk', 'speed_bump', 'road_edge', 'driveway')
FIRST = dict(lane=0, road_line=5, road_edge=14, stop_sign=17, crosswalk=18, speed_bump=19, driveway=20)
TYPES = dict(lane=4, road_line=9, road_edge=3)


@st.composite
def feature(draw, spacing):
  kind = draw(st.sampled_from(ORDER + ('lane', 'crosswalk', None)))
  n = draw(st.sampled_from([0, 1, 2, 3, 4, 5, 7, 12]))
  how = draw(st.sampled_from(['curve', 'curve', 'any', 'grid', 'same']))
  x, y, z = [draw(st.one_of(st.integers(-5, 5).map(float), f(-5000, 5000))) for _ in range(3)]
  pts = []
  h, turn = draw(f(-3.2, 3.2)), draw(f(-0.5, 0.5))
  for k in range(n):
    if how == 'any':
      pts.append([x + draw(f(-9, 9)), y + draw(f(-9, 9)), z + draw(f(-2, 2))])
    elif how == 'grid':
      pts.append([x + draw(st.integers(-4, 4)) / 2, y + draw(st.integers(-4, 4)) / 2, z + draw(st.integers(0, 1))])
    else:
      pts.append([x, y, z])
      if how == 'curve':
        x, y, z, h = x + spacing * math.cos(h), y + spacing * math.sin(h), z + 0.01, h + turn
  return dict(kind=kind, id=draw(st.one_of(st.integers(1, 300), st.integers(-2**63, 2**63 - 1))),
              t=draw(st.sampled_from(list(range(TYPES.get(kind, 1))) + [None])), pts=pts, how=how,
              pos=draw(st.integers(0, 5)) > 0)


@st.composite
def cases(draw):
  src = draw(st.sampled_from([0.5, 0.5, 1.0, 0.25, 0.7]))
  return dict(src=src, line=draw(st.sampled_from([1.0, 0.5, 0.3, 2.0, 0.1, 0.0, -1.0, 40.0])),
              poly=draw(st.sampled_from([1.0, 0.5, 0.3, 0.0, -1.0, 100.0])),
              maxn=draw(st.sampled_from([0, 1, 2, 5, 17, 60, 200, 900])),
              feats=draw(st.lists(feature(src), max_size=6)))


def proto(case):
  s = scen.proto('Scenario')(scenario_id='x', timestamps_seconds=[0.0], sdc_track_index=0)
  s.tracks.add(id=1, object_type=1).states.add(valid=True)
  s.tracks_to_predict.add(track_index=0)
  for ft in case['feats']:
    p = s.map_features.add(id=ft['id'])
    k = ft['kind']
    if k is None:
      continue
    m = getattr(p, k)
    m.SetInParent()
    if k == 'stop_sign':
      if ft['pts'] and ft['pos']:
        m.position.x, m.position.y, m.position.z = ft['pts'][0]
      continue
    for x, y, z in ft['pts']:
      (m.polyline if k in LINES else m.polygon).add(x=x, y=y, z=z)
    if k in LINES and ft['t'] is not None:
      m.type = ft['t']
  return s


def line_samples(pts, src, spacing):
  """Points at multiples of `spacing` along knots that are `src` apart."""
  out = []
  spacing = spacing if spacing > 0 else src
  while pts:
    u = len(out) * spacing / src
    k = int(u)
    if k >= len(pts) - 1:
      break
    a = u - k
    p = np.array(pts)
    if 1 <= k <= len(pts) - 3:  # Catmull-Rom between inner knots
      p0, p1, p2, p3 = p[k - 1:k + 3]
      out.append(0.5 * (2 * p1 + (p2 - p0) * a + (2 * p0 - 5 * p1 + 4 * p2 - p3) * a**2 + (3 * p1 - p0 - 3 * p2 + p3) * a**3))
    else:
      out.append(p[k] + a * (p[k + 1] - p[k]))
  if pts and (not out or np.linalg.norm(np.array(pts[-1]) - out[-1]) > 0.01):
    out.append(np.array(pts[-1]))
  return out


def polygon_samples(pts, spacing):
  out = []
  for a, b in zip(pts, pts[1:] + pts[:1]):
    a, b = np.array(a), np.array(b)
    d = math.sqrt(float(np.dot(b - a, b - a)))
    n = max(int(1 + d / spacing), 2) - 1 if spacing > 0 else 1
    out += [a + (b - a) * j / n for j in range(n)]
  return out + [np.array(p) for p in pts[:1]]


def check(case, ctx):
  cfg = scen.config_proto(max_num_agents=1, num_past_steps=1, num_future_steps=0, max_roadgraph_samples=case['maxn'],
                          source_polyline_spacing=case['src'], polyline_sample_spacing=case['line'],
                          polygon_sample_spacing=case['poly'], max_traffic_light_control_points_per_step=0)
  ft, _ = scen.convert(ctx, proto(case), cfg)
  ctx.require(ft is not None, 'a valid scenario was refused')
  n = case['maxn']
  take = lambda key, kind, m: scen.take(ctx, ft, 'roadgraph_samples/' + key, kind, m)
  ids, types, valid = take('id', 'i', n), take('type', 'i', n), take('valid', 'i', n)
  xyz, dirs = np.reshape(take('xyz', 'f', 3 * n), (n, 3)), np.reshape(take('dir', 'f', 3 * n), (n, 3))
  at, used = 0, 0
  for kind in ORDER:
    for x in case['feats']:
      if x['kind'] != kind:
        continue
      if kind in LINES:
        pts = line_samples(x['pts'], case['src'], case['line'])
      elif kind == 'stop_sign':
        pts = [np.array(x['pts'][0] if x['pts'] and x['pos'] else [0.0, 0.0, 0.0])]
      else:
        pts = polygon_samples(x['pts'], case['poly'])
      if len(pts) > n - at:
        ctx.label('truncated')
      pts = pts[:n - at]
      used += bool(pts)
      t = FIRST[kind] + ((x['t'] or 0) if kind in LINES else 0)
      for j, p in enumerate(pts):
        where = ' of sample %d of the %s with id %d' % (j, kind, x['id'])
        ctx.equal((int(ids[at]), int(types[at]), int(valid[at])), (x['id'], t, 1), 'id, type, valid' + where)
        ctx.close(xyz[at], p, 'position' + where, 1e-5, 2e-7)
        step = pts[j + 1] - p if j + 1 < len(pts) else np.zeros(3)
        d = np.linalg.norm(step)
        if d == 0 or d > 1e-2:
          ctx.close(dirs[at], step / (d or 1), 'direction' + where, 2e-6, 2e-6)
        at += 1
  where = ' of the padding from sample %d on' % at
  for name, v, w in (('id', ids, -1), ('type', types, -1), ('valid', valid, 0), ('xyz', xyz, -1), ('dir', dirs, -1)):
    ctx.require(np.all(np.asarray(v[at:]) == w), '%s%s is not %d', name, where, w)
  ctx.nontrivial(used >= 2)
  if any(len(x['pts']) < 2 for x in case['feats']):
    ctx.label('empty or single-point feature')


SUBS = [Sub('road graph', cases, check, 8000, rule='samples of two features or more')]
