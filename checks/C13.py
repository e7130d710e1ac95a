"""Overlap rate against reference geometry."""
import math

from hypothesis import strategies as st

from vlib import drv, geo, motion, wod
from vlib.core import Sub
from vlib.driver import d, i, ud, ui

prepare = drv.prepare('motion_driver')
close_env = drv.close_env


def open_env(env):
  wod.setup()
  return drv.open_env(env)


def crowded():
  return motion.cases(min_tracks=2, max_tracks=5, spread=6.0)


def check(case, ctx):
  cfg, sc = case['cfg'], case['sc']
  want = motion.reference(cfg, [sc])
  motion.compare(ctx, motion.run(ctx, cfg, sc), want, ('over',))
  seen = {x for w in want.values() if 'over' not in w.bad for x in w.over}
  ctx.nontrivial(1.0 in seen)
  if len(seen) == 2:
    ctx.label('overlap at some steps only')
  if any(max(range(len(js)), key=lambda k: js[k]['c']) >= cfg['k'] for js in sc['mm']):
    ctx.label('the most confident is not considered')


def check_moved(case, ctx):
  motion.check_moved(case, ctx, ('over',))


def moved():
  return motion.moved_cases(min_tracks=2, max_tracks=5, spread=6.0)


# ---- the box of a predicted agent -----------------------------------------
@st.composite
def poly_cases(draw):
  cfg = draw(motion.configs())
  tr = draw(motion.track(cfg, 0, 20.0))
  pts = []
  for k in range(cfg['steps']):
    if pts and draw(st.integers(0, 4)) == 0:
      pts.append(pts[-1])
    else:
      pts.append((draw(geo.f(-20, 20)) + 0.0, draw(geo.f(-20, 20)) + 0.0))  # no -0.0: atan2 sees its sign
  for s in tr['s']:
    s[5], s[6] = draw(st.sampled_from([1.0, 2.5, 4.5])), draw(st.sampled_from([0.5, 2.0]))
  return dict(cfg=cfg, tr=tr, pts=pts, step=draw(st.integers(0, cfg['steps'] - 1)), cur=draw(st.booleans()))


def check_poly(case, ctx):
  cfg, tr, pts, t = case['cfg'], case['tr'], case['pts'], case['step']
  traj = wod.pb('protos.motion_metrics_pb2').SingleTrajectory(center_x=[p[0] for p in pts], center_y=[p[1] for p in pts])
  out = ctx.env['drv'].call('poly', motion.config_proto(cfg).SerializeToString(), traj.SerializeToString(),
                            motion.track_proto(tr).SerializeToString(), i(t), i(int(case['cur'])))
  at = motion.gt_at(cfg, tr, t)
  ctx.equal(list(ui(out[1])), [at, cfg['hist']], 'track steps')
  h, bad = motion.heading_at(pts, t)
  if bad:
    ctx.label('skipped: no heading')
    return
  s = tr['s'][cfg['hist'] if case['cur'] else at]
  want = geo.corners(pts[t][0], pts[t][1], s[5], s[6], h)
  got = list(ud(out[0]))
  got = [(got[k], got[k + 1]) for k in range(0, len(got), 2)]
  ctx.equal(len(got), 4, 'corners')
  first = min(range(4), key=lambda k: math.dist(got[k], want[0]))
  for k in range(4):
    ctx.close(got[(first + k) % 4], want[k], 'corner %d of the predicted box' % k, 1e-5, 1e-6)
  ctx.nontrivial()


def angle_cases():
  return st.tuples(geo.heading, geo.heading)


def check_angle(case, ctx):
  a, b = case
  x, y = math.cos(a) + math.cos(b), math.sin(a) + math.sin(b)
  got = ud(ctx.env['drv'].call('avg_angle', d(a, b))[0])[0]
  if math.hypot(x, y) < 1e-6:
    return
  half = math.remainder(b - a, 2 * math.pi) / 2
  ctx.close(math.remainder(got - (a + half), 2 * math.pi), 0.0, 'mean of two angles', 1e-6, 0)
  ctx.nontrivial(abs(a - b) > 3.2)


@st.composite
def conf_cases(draw):
  return draw(st.lists(st.sampled_from([0.0, 0.0, 0.5, 1.0, 0.3, 7.0, 1e-3]), max_size=7))


def check_conf(case, ctx):
  p = wod.pb('protos.motion_metrics_pb2').MultimodalPrediction()
  for c in case:
    p.joint_predictions.add(confidence=c)
  got = list(ud(ctx.env['drv'].call('confidences', p.SerializeToString())[0]))
  s = sum(case)
  ctx.close(got, [c / s if s else 1 / len(case) for c in case], 'normalized confidences', 1e-6, 1e-5)
  ctx.nontrivial(s > 0)


SUBS = [
    Sub('crowded', crowded, check, 5000, rule='an overlap occurs'),
    Sub('moved', moved, check_moved, 2500, rule='two tracks, no comparison on a threshold'),
    Sub('box', poly_cases, check_poly, 3000, rule='the heading is defined'),
    Sub('angle', angle_cases, check_angle, 2000, rule='angles more than half a turn apart'),
    Sub('confidences', conf_cases, check_conf, 500, rule='a positive confidence'),
]
