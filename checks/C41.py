"""Visualizations: keypoint wireframes, crops, boxes of simulated agents."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib import geo, wod
from vlib.core import Sub


def prepare(tier):
  from vlib import build
  build.gen_protos()
  return {}


def open_env(env):
  wod.setup(shim=True)
  import tensorflow as tf
  from waymo_open_dataset import label_pb2
  from waymo_open_dataset.protos import keypoint_pb2, scenario_pb2
  from waymo_open_dataset.utils import keypoint_data, keypoint_draw
  from waymo_open_dataset.utils.sim_agents import visualizations
  return dict(tf=tf, lb=label_pb2, kp=keypoint_pb2, sc=scenario_pb2, da=keypoint_data, dr=keypoint_draw, vis=visualizations)


# ------------------------------------------------------------- wireframes
CAMERA = [1, 5, 6, 7, 8, 9, 10, 13, 14, 15, 16, 17, 18, 19]
LASER = CAMERA[:-1] + [20]
COLORS = ['#000001', '#00aa00', '#123456', '#FFFFFF', '#010203']


@st.composite
def wires(draw):
  laser = draw(st.booleans())
  types = LASER if laser else CAMERA
  some = draw(st.one_of(st.just(types), st.lists(st.sampled_from(types), unique=True, min_size=1)))
  some = draw(st.permutations(some))
  custom = None
  if draw(st.booleans()):
    t = st.sampled_from(types)
    custom = dict(edges=[(draw(st.sampled_from(['solid', 'two', 'multi'])), draw(st.lists(t, min_size=1, max_size=3, unique=True)),
                          draw(st.lists(t, min_size=1, max_size=3, unique=True)), draw(st.sampled_from([1, 2, 0.5])))
                         for _ in range(draw(st.integers(0, 5)))],
                  colors=[draw(st.sampled_from(COLORS)) for _ in types], sizes=[draw(st.sampled_from([1.0, 0.25, 3.0])) for _ in types],
                  dot=draw(st.sampled_from([1.0, 6.0, 0.5])), line=draw(st.sampled_from([1.0, 4.0, 0.25])))
  return dict(laser=laser, custom=custom,
              pts=[(t, [draw(geo.f(-2000, 2000)) for _ in range(3 if laser else 2)], draw(st.sampled_from([None, False, True]))) for t in some])


def check_wire(case, ctx):
  kp, dr = ctx.env['kp'], ctx.env['dr']
  laser = case['laser']
  types = LASER if laser else CAMERA
  msgs, at = [], {}
  for t, xyz, occ in case['pts']:
    m = (kp.LaserKeypoint if laser else kp.CameraKeypoint)(type=t)
    p = m.keypoint_3d if laser else m.keypoint_2d
    loc = p.location_m if laser else p.location_px
    for n, v in zip('xyz', xyz):
      setattr(loc, n, v)
    if occ is not None:
      p.visibility.is_occluded = occ
    msgs.append(m)
    at[t] = np.array(xyz)
  c = case['custom']
  name = lambda t: kp.KeypointType.Name(t)[len('KEYPOINT_TYPE_'):]
  args = []
  if c:
    make = dict(solid=lambda a, b, w: dr.SolidLineEdge(a[0], b[0], w), two=lambda a, b, w: dr.BicoloredEdge(a[0], b[0], w), multi=dr.MultipointEdge)
    cfg = dr.WireframeConfig(edges=[make[k](a, b, w) for k, a, b, w in c['edges']], point_colors=dict(zip(types, c['colors'])),
                             point_sizes=dict(zip(types, c['sizes'])), dot_size_factor=c['dot'], line_width_factor=c['line'])
    args = [cfg]
  else:
    cfg = dr.DEFAULT_LASER_WIREFRAME_CONFIG if laser else dr.DEFAULT_CAMERA_WIREFRAME_CONFIG
  w = ctx.call(dr.build_laser_wireframe if laser else dr.build_camera_wireframe, msgs, *args)
  # dots
  ctx.equal(len(w.dots), len(msgs), 'dots')
  for d, (t, xyz, occ) in zip(w.dots, case['pts']):
    ctx.close(np.asarray(d.location, float), np.array(xyz), 'place of the %s' % name(t), 1e-4, 1e-6)
    ctx.equal(d.name, name(t) + ('?' if occ else ''), 'name of a dot')
    ctx.equal(d.color, cfg.point_colors[t], 'colour of the %s' % name(t))
    ctx.equal(d.actual_border_color, dr.OCCLUDED_COLOR if occ else cfg.point_colors[t], 'border of the %s' % name(t))
    ctx.require(abs(d.size - cfg.point_sizes[t] * cfg.dot_size_factor) < 1e-9, 'size of the %s: %s', name(t), d.size)
  # lines
  want = []
  if c:
    col = dict(zip(types, c['colors']))
    for k, a, b, width in c['edges']:
      if k != 'multi':
        a, b = a[:1], b[:1]
      if any(t not in at for t in a + b):
        continue
      p, q = (np.mean([at[t] for t in e], axis=0) for e in (a, b))
      # Keypoints of one colour average to that colour or to the default.
      ca, cb = ({col[t] for t in e} | ({dr.DEFAULT_COLOR} if len(e) > 1 else set()) if len({col[t] for t in e}) == 1 else {dr.DEFAULT_COLOR} for e in (a, b))
      want += [(p, q, ca, width * c['line'])] if k == 'solid' else [(p, (p + q) / 2, ca, width * c['line']), ((p + q) / 2, q, cb, width * c['line'])]
    ctx.equal(len(w.lines), len(want), 'lines')
    for g, (p, q, colour, width) in zip(w.lines, want):
      ctx.close(np.r_[g.start, g.end], np.r_[p, q], 'ends of a line', 1e-4, 1e-6)
      ctx.require(g.color in colour and g.width == width, 'a line of width %s in %s, expected %s in %s', g.width, g.color, width, sorted(colour))
  else:
    # The skeleton of the default: symmetric, nothing dangling, every line on labelled points.
    ctx.equal(len(w.lines) % 2, 0, 'half lines')
    pairs = set()
    spots = {t: p for t, p in at.items()}
    chest = [5, 13]
    if all(t in at for t in chest):
      spots['chest'] = (at[5] + at[13]) / 2
    def find(p, colour):
      hit = [t for t, q in spots.items() if np.abs(q - p).max() < 1e-3]
      hit = [t for t in hit if colour == (dr.DEFAULT_COLOR if t == 'chest' else cfg.point_colors[t])]
      ctx.require(hit, 'a line ends at %s in colour %s, where no such keypoint is', list(map(float, p)), colour)
      return hit
    for a, b in zip(w.lines[::2], w.lines[1::2]):
      ctx.close(np.asarray(a.end, float), np.asarray(b.start, float), 'the halves of a line', 1e-6, 1e-6)
      ctx.close(np.asarray(a.end, float), (np.asarray(a.start, float) + b.end) / 2, 'the middle of a line', 1e-4, 1e-6)
      s, e = find(a.start, a.color), find(b.end, b.color)
      if len(s) == len(e) == 1:
        pairs.add(frozenset((s[0], e[0])))
    distinct = len({tuple(np.round(p, 2)) for p in spots.values()}) == len(spots)
    if distinct and set(at) == set(types):
      mirror = {t: t + 8 if 5 <= t <= 10 else t - 8 if 13 <= t <= 18 else t for t in types}
      mirror['chest'] = 'chest'
      ctx.equal({frozenset(mirror[t] for t in p) for p in pairs}, pairs, 'mirrored skeleton')
      group, todo = set(), [5]
      nb = pairs | {frozenset(('chest', 5))}
      while todo:
        t = todo.pop()
        if t not in group:
          group.add(t)
          todo += [u for p in nb if t in p for u in p]
      ctx.equal(group - {'chest'}, set(types), 'keypoints connected to the skeleton')
      ctx.label('whole body')
  # drawing
  if not laser:
    from matplotlib import pyplot as plt
    ax = plt.subplots()[1]
    ctx.call(dr.draw_camera_wireframe, ax, w)
    lc, ec = ax.collections
    ctx.equal(len(lc.get_segments()), len(w.lines), 'drawn lines')
    for g, l in zip(lc.get_segments(), w.lines):
      ctx.close(g, np.stack([l.start, l.end]), 'drawn line', 1e-6, 1e-9)
    ctx.equal(list(lc.get_colors()), [l.color for l in w.lines], 'drawn colours of lines')
    ctx.equal([float(x) for x in lc.get_linewidths()], [l.width for l in w.lines], 'drawn widths')
    ctx.close(np.asarray(ec.get_offsets()), np.stack([d.location for d in w.dots]), 'drawn dots', 1e-6, 1e-9)
    ctx.equal((list(ec._widths), list(ec._heights)), ([d.size for d in w.dots],) * 2, 'drawn sizes')
    ctx.equal((list(ec._kw['facecolors']), list(ec._kw['edgecolors'])),
              ([d.color for d in w.dots], [d.actual_border_color for d in w.dots]), 'drawn colours of dots')
  else:
    import plotly.graph_objects as go
    fig = go.Figure()
    ctx.call(dr.draw_laser_wireframe, fig, w)
    ctx.equal(len(fig.data), len(w.lines) + 1, 'traces')
    for tr, l in zip(fig.data, w.lines):
      ctx.close(np.stack([tr.x, tr.y, tr.z], 1).astype(float), np.stack([l.start, l.end]), 'drawn line', 1e-6, 1e-9)
      ctx.equal((tr.mode, tr.line.color, tr.line.width), ('lines', l.color, l.width), 'drawn colour and width')
    tr = fig.data[-1]
    ctx.close(np.stack([tr.x, tr.y, tr.z], 1).astype(float), np.stack([d.location for d in w.dots]), 'drawn dots', 1e-6, 1e-9)
    ctx.equal((list(tr.text), list(tr.marker.color), list(tr.marker.size), list(tr.marker.line.color), tr.mode),
              ([d.name for d in w.dots], [d.color for d in w.dots], [d.size for d in w.dots], [d.actual_border_color for d in w.dots], 'markers'), 'drawn dots')
  ctx.nontrivial(len(w.lines) > 1 and len(at) > 2)
  ctx.label('laser' if laser else 'camera', 'own edges' if c else 'default')


# ------------------------------------------------------------- crops
@st.composite
def crops(draw):
  h, w = draw(st.integers(4, 60)), draw(st.integers(4, 60))
  return dict(h=h, w=w, box=[draw(geo.f(1, w - 1)), draw(geo.f(1, h - 1)), draw(geo.f(2, 70)), draw(geo.f(2, 70))],
              margin=draw(st.sampled_from([None, 0.0, 0.5, 0.25, 2.0])),
              pts=[(draw(geo.f(0, w - 1)), draw(geo.f(0, h - 1)), draw(st.sampled_from(CAMERA))) for _ in range(draw(st.integers(0, 8)))])


def check_crop(case, ctx):
  kp, dr = ctx.env['kp'], ctx.env['dr']
  h, w = case['h'], case['w']
  image = np.arange(h * w * 3).reshape(h, w, 3)
  cx, cy, l, wd = case['box']
  msgs = []
  for x, y, t in case['pts']:
    m = kp.CameraKeypoint(type=t)
    m.keypoint_2d.location_px.x, m.keypoint_2d.location_px.y = x, y
    m.keypoint_2d.visibility.is_occluded = t % 2 == 0
    msgs.append(m)
  before = [m.SerializeToString() for m in msgs]
  box = ctx.env['lb'].Label.Box(center_x=cx, center_y=cy, length=l, width=wd)
  kw = {} if case['margin'] is None else dict(margin=case['margin'])
  out, pts = ctx.call(dr.crop_camera_keypoints, image.copy(), msgs, box, **kw)
  f = 1 + (case['margin'] or 0)
  ctx.equal([m.SerializeToString() for m in msgs], before, 'given keypoints')
  ctx.equal(len(pts), len(msgs), 'keypoints')
  # The box, within the image; a pixel more or less at each side.
  want = [max(0, cx - f * l / 2), min(w, cx + f * l / 2), max(0, cy - f * wd / 2), min(h, cy + f * wd / 2)]
  oh, ow = out.shape[:2]
  if oh == 0 or ow == 0:
    ctx.require(want[1] - want[0] < 2.5 or want[3] - want[2] < 2.5, 'an empty crop of %s', want)
    return
  top, left = divmod(int(out[0, 0, 0]) // 3, w)
  ctx.require(top + oh <= h and left + ow <= w and np.array_equal(out, image[top:top + oh, left:left + ow]), 'the crop is not a part of the image')
  for g, e, n in zip((left, left + ow, top, top + oh), want, ('left', 'right', 'upper', 'lower')):
    ctx.require(abs(g - e) <= 1.01, '%s edge of the crop: pixel %s, box %s', n, g, e)
  inside = 0
  for g, m in zip(pts, msgs):
    o, p = m.keypoint_2d.location_px, g.keypoint_2d.location_px
    ctx.require(abs(p.x + left - o.x) < 1e-6 and abs(p.y + top - o.y) < 1e-6, 'keypoint at (%s, %s) moved to (%s, %s) of a crop from (%s, %s)', o.x, o.y, p.x, p.y, left, top)
    ctx.equal((g.type, g.keypoint_2d.visibility.is_occluded), (m.type, m.keypoint_2d.visibility.is_occluded), 'keypoint')
    inside += 0 <= p.x < ow and 0 <= p.y < oh
  ctx.nontrivial(inside > 0 and (ow < w - 1 or oh < h - 1))
  ctx.label('margin' if case['margin'] else 'no margin')


# ------------------------------------------------------------- agents
@st.composite
def agents(draw):
  n, steps = draw(st.integers(0, 4)), draw(st.integers(1, 4))
  grid = lambda s: [[draw(s) for _ in range(steps)] for _ in range(n)]
  kinds = st.sampled_from(['road_edge', 'road_line', 'lane', 'crosswalk', 'stop_sign', None])
  return dict(n=n, steps=steps, x=grid(geo.f(-500, 500)), y=grid(geo.f(-500, 500)), yaw=grid(st.one_of(geo.heading, geo.f(-7, 7))),
              l=grid(geo.f(0.2, 15)), w=grid(geo.f(0.2, 4)), c=grid(st.integers(0, 5)),
              order=[draw(st.integers(0, steps - 1)) for _ in range(draw(st.integers(1, 5)))],
              map=[(draw(kinds), [(draw(geo.f(-500, 500)), draw(geo.f(-500, 500))) for _ in range(draw(st.integers(1, 4)))]) for _ in range(draw(st.integers(0, 5)))])


def corners(x, y, yaw, l, w):
  c, s = math.cos(yaw), math.sin(yaw)
  return sorted((x + c * a * l - s * b * w, y + s * a * l + c * b * w) for a in (-.5, .5) for b in (-.5, .5))


def drawn(p):
  (x, y), l, w, a = p.get_xy(), p.get_width(), p.get_height(), math.radians(p.get_angle())
  c, s = math.cos(a), math.sin(a)
  return sorted((x + c * i * l - s * j * w, y + s * i * l + c * j * w) for i in (0, 1) for j in (0, 1))


def check_agents(case, ctx):
  from matplotlib import pyplot as plt
  vis = ctx.env['vis']
  sc = ctx.env['sc'].Scenario()
  for kind, pts in case['map']:
    f = sc.map_features.add(id=len(sc.map_features))
    if kind is None:
      continue
    if kind == 'stop_sign':
      f.stop_sign.position.x = pts[0][0]
      continue
    line = getattr(f, kind).polygon if kind == 'crosswalk' else getattr(f, kind).polyline
    for x, y in pts:
      line.add(x=x, y=y, z=1)
  fig, ax = plt.subplots()
  dims = (case['n'], case['steps'])
  arr = {k: np.array(case[k], np.int64 if k == 'c' else np.float64).reshape(dims) for k in ('x', 'y', 'yaw', 'l', 'w', 'c')}
  an = ctx.call(vis.get_animated_states, fig, ax, sc, arr['x'], arr['y'], arr['yaw'], arr['l'], arr['w'], arr['c'])
  lines = [(k, p) for k, p in case['map'] if k in ('road_edge', 'road_line')]
  ctx.equal(len(ax.lines), len(lines), 'lines of the map')
  for (x, y, _, _), (k, p) in zip(ax.lines, lines):
    ctx.equal(list(zip(x, y)), p, 'points of a ' + k)
  ctx.equal(an.frames, case['steps'], 'frames')
  ctx.equal(an.interval, 100, 'interval of frames (ms)')
  for t in case['order']:
    got = ctx.call(an.func, t)
    ctx.equal(len(got), case['n'], 'boxes of a frame')
    ctx.require([id(p) for p in ax.patches] == [id(p) for p in got], 'frame %d: %d boxes are visible, %d belong to it', t, len(ax.patches), len(got))
    for k, p in enumerate(got):
      want = corners(*(case[f][k][t] for f in ('x', 'y', 'yaw', 'l', 'w')))
      d = max(min(math.hypot(a - u, b - v) for u, v in drawn(p)) for a, b in want)
      ctx.require(d < 1e-6, 'box %d of frame %d: corners %s, expected %s', k, t, drawn(p), want)
      ctx.require(np.allclose(p.get_facecolor()[:3], vis.WAYMO_COLORS[case['c'][k][t]]), 'colour of box %d', k)
  ctx.equal(len(ax.lines), len(lines), 'lines of the map after the animation')
  ctx.nontrivial(case['n'] > 1 and len(set(case['order'])) > 1)
  ctx.label('map' if lines else 'no map')


SUBS = [
    Sub('wireframes', wires, check_wire, 1200, 12000, rule='three keypoints or more and two lines'),
    Sub('crops', crops, check_crop, 1500, 15000, rule='a keypoint in a crop smaller than the image'),
    Sub('agents', agents, check_agents, 800, 8000, rule='several boxes and frames'),
]
