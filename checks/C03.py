"""Longitudinal-error-tolerant affinity, alignment and IoU."""
import math

from hypothesis import strategies as st

from vlib import drv, geo, wod
from vlib.core import Sub
from vlib.driver import d, i, pack, ud, ui

prepare = drv.prepare('det_driver')
close_env = drv.close_env


def open_env(env):
  wod.setup()
  return drv.open_env(env)


NOT, RANGE, CENTER, FURTHER, CLOSER, BETWEEN = 1, 2, 3, 4, 5, 6
NAMES = {1: 'not', 2: 'range', 3: 'center', 4: 'further', 5: 'closer', 6: 'between'}


def f32(x):
  import numpy as np
  return float(np.float32(x))


@st.composite
def cases(draw):
  c = lambda lim=60: draw(geo.coord(lim))
  s = [c(3), c(3), c(3)] if draw(st.booleans()) else [0.0, 0.0, 0.0]
  g = [c(), c(), draw(geo.f(-4, 4)), draw(geo.dim), draw(geo.dim), draw(geo.dim),
       draw(geo.heading)]
  if math.hypot(g[0] - s[0], g[1] - s[1], g[2] - s[2]) < 0.1:
    g[0] = s[0] + 5
  how = draw(st.sampled_from(['near', 'ray', 'ray', 'rand', 'sensor', 'behind']))
  r = [g[k] - s[k] for k in range(3)]
  p = list(g)
  if how == 'near':
    for k in range(3):
      p[k] += draw(geo.f(-2, 2))
  elif how in ('ray', 'behind'):
    m = draw(st.one_of(st.sampled_from([1.0, 0.5, 1.5, 2.0, 0.95, 1.05]), geo.f(0.125, 2.5)))
    if how == 'behind':
      m = -m
    e = draw(st.sampled_from([0.0, 0.0, 0.25, 1.0]))
    for k in range(3):
      p[k] = s[k] + r[k] * m + e * draw(geo.f(-1, 1))
  elif how == 'rand':
    p[:3] = [c(), c(), draw(geo.f(-4, 4))]
  else:
    p[:3] = s
  if how != 'sensor' and math.hypot(*[p[k] - s[k] for k in range(3)]) < 0.1:
    p[1] = s[1] + 3
  for k in (3, 4, 5):
    p[k] = max(0.0625, p[k] * draw(st.sampled_from([1.0, 1.0, 0.5, 1.5])))
  p[6] += draw(st.sampled_from([0.0, 0.0, 0.3, math.pi]))
  pct = draw(st.sampled_from([0.1, 0.05, 0.0, 0.3, 1.0]))
  tol = draw(st.sampled_from([0.5, 0.0, 3.0, 10.0]))
  if pct == 0 and tol == 0:
    tol = 0.5
  return dict(p=p, g=g, s=s, pct=pct, tol=tol, kind=draw(st.sampled_from(['3d', '2d'])),
              shift=[c(), c(), draw(geo.f(-5, 5))], rot=draw(geo.heading))


def config(case, align=RANGE):
  c = wod.pb('protos.metrics_pb2').Config()
  l = c.let_metric_config
  l.enabled = True
  l.sensor_location.x, l.sensor_location.y, l.sensor_location.z = case['s']
  l.longitudinal_tolerance_percentage = case['pct']
  l.min_longitudinal_tolerance_meter = case['tol']
  l.align_type = align
  return c


def affinity(p, g, s, pct, tol, clamp=True):
  P = [p[k] - s[k] for k in range(3)]
  G = [g[k] - s[k] for k in range(3)]
  r = math.hypot(*G)
  err = abs(sum(a * b for a, b in zip(P, G)) / r - r)
  a = 1 - err / max(f32(pct) * r, f32(tol))
  return min(1.0, max(0.0, a)) if clamp else a


def aligned(p, g, align):
  """Boxes relative to the sensor."""
  q = list(p)
  n = sum(x * x for x in p[:3])
  if align == CENTER:
    q[:3] = g[:3]
  elif align != NOT and n > 0:
    m = sum(p[k] * g[k] for k in range(3)) / n
    beyond = 0 <= m < 1  # the closest point of the line of sight is nearer
    move = {RANGE: True, FURTHER: beyond, CLOSER: not beyond, BETWEEN: m > 1}[align]
    if move:
      q[:3] = [p[k] * m for k in range(3)]
  return q


def check(case, ctx):
  dv = ctx.env['drv']
  p, g, s = case['p'], case['g'], case['s']
  cfg = config(case).let_metric_config.SerializeToString()
  want = affinity(p, g, s, case['pct'], case['tol'])
  got = [float(ud(x)[0]) for x in dv.call('let_affinity', cfg, d(p), d(g))]
  ctx.close(got, [want, want], 'longitudinal affinity', 2e-5, 0)
  ctx.require(0 <= got[0] <= 1, 'affinity %r out of range', got[0])
  ctx.nontrivial(0 < want < 1)
  ctx.label('affinity 0' if want == 0 else 'affinity 1' if want == 1 else 'partial')
  # All positions are relative to the sensor.
  mv = lambda v: [v[k] + case['shift'][k] for k in range(3)] + list(v[3:])
  c2 = config(dict(case, s=mv(s))).let_metric_config.SerializeToString()
  ctx.close(float(ud(dv.call('let_affinity', c2, d(mv(p)), d(mv(g)))[0])[0]), got[0],
            'affinity after moving everything', 2e-4, 0)
  ps = [p[k] - s[k] for k in range(3)] + p[3:]
  gs = [g[k] - s[k] for k in range(3)] + g[3:]
  for al in NAMES:
    q = aligned(ps, gs, al)
    r = ud(dv.call('let_align', i(al), d(ps), d(gs))[0])
    n = sum(x * x for x in ps[:3])
    m = sum(ps[k] * gs[k] for k in range(3)) / n if n else 0.5
    if al in (FURTHER, CLOSER, BETWEEN) and min(abs(m), abs(m - 1)) < 1e-9:
      continue  # at the switch: either side of a rounding error
    ctx.close(r, q, 'aligned box (%s)' % NAMES[al], 1e-7, 1e-9)
    w = geo.iou(q, gs, case['kind'])
    c = config(case, al).let_metric_config.SerializeToString()
    box = {'3d': 1, '2d': 2}[case['kind']]
    out = [float(ud(x)[0]) for x in dv.call('let_iou', c, i(box), d(p), d(g))]
    ctx.close(out, [w, w], 'LET IoU (%s)' % NAMES[al], 1e-5, 0)
    if 0.01 < w < 0.99:
      ctx.label('iou ' + NAMES[al])


# ---- through a matcher ----------------------------------------------------
@st.composite
def match_cases(draw):
  base = draw(cases())
  pds, gts = [], []
  for _ in range(draw(st.integers(1, 3))):
    x = draw(cases())
    pds.append((x['p'], draw(st.sampled_from([1, 1, 2]))))
    gts.append((x['g'], draw(st.sampled_from([1, 1, 2]))))
  return dict(base, p=pds, g=gts, align=draw(st.sampled_from(sorted(NAMES))),
              thr=draw(st.sampled_from([0.0, 0.1, 0.5])))


def check_matcher(case, ctx):
  M = wod.pb('protos.metrics_pb2')
  c = config(case, case['align'])
  c.matcher_type = M.MatcherProto.TYPE_HUNGARIAN
  c.iou_thresholds.extend([case['thr']] * 5)
  c.box_type = {'3d': 1, '2d': 2}[case['kind']]

  def objs(bs):
    out = []
    for b, t in bs:
      o = M.Object()
      x = o.object.box
      (x.center_x, x.center_y, x.center_z, x.length, x.width, x.height,
       x.heading) = b
      o.object.type = t
      out.append(o.SerializeToString())
    return out
  iou, can, w, aff = ctx.env['drv'].call(
      'match', c.SerializeToString(), pack(objs(case['p'])), pack(objs(case['g'])))
  iou, can, w, aff = ud(iou), ui(can), ui(w), ud(aff)
  s = case['s']
  for a, (p, tp) in enumerate(case['p']):
    for b, (g, tg) in enumerate(case['g']):
      k = a * len(case['g']) + b
      if math.hypot(*[g[j] - s[j] for j in range(3)]) < 0.1:
        continue
      n = math.hypot(*[p[j] - s[j] for j in range(3)])
      if 0 < n < 0.1:
        continue
      ps = [p[j] - s[j] for j in range(3)] + p[3:]
      gs = [g[j] - s[j] for j in range(3)] + g[3:]
      m = sum(ps[j] * gs[j] for j in range(3)) / n**2 if n else 0.5
      if case['align'] in (4, 5, 6) and min(abs(m), abs(m - 1)) < 1e-9:
        continue
      same = tp == tg
      wa = affinity(p, g, s, case['pct'], case['tol']) if same else 0.0
      wi = geo.iou(aligned(ps, gs, case['align']), gs, case['kind']) if same else 0.0
      ctx.close(aff[k], wa, 'matcher affinity', 2e-5, 0)
      ctx.close(iou[k], wi, 'matcher IoU', 1e-5, 0)
      ctx.close(w[k] / 1e6, wa * wi, 'matching weight', 4e-5, 0)
      raw = affinity(p, g, s, case['pct'], case['tol'], False)
      if same and abs(raw) < 1e-4:
        continue
      if abs(wi - case['thr']) > 1e-4:
        ctx.equal(bool(can[k]), wa > 0 and wi >= f32(case['thr']), 'CanMatch')
      elif case['thr'] == 0.0 and wa > 1e-4:
        ctx.equal(bool(can[k]), True, 'CanMatch')
      ctx.nontrivial(0 < wa < 1 and wi > 0)


SUBS = [
    Sub('let', cases, check, quick=6000, rule='affinity strictly between 0 and 1'),
    Sub('matcher', match_cases, check_matcher, quick=3000,
        rule='some pair overlaps with affinity strictly between 0 and 1'),
]
