"""minADE, minFDE and miss rate against a reference model."""
from vlib import drv, motion, wod
from vlib.core import Sub

prepare = drv.prepare('motion_driver')
close_env = drv.close_env
NAMES = ('ade', 'fde', 'miss')


def open_env(env):
  wod.setup()
  return drv.open_env(env)


def check(case, ctx):
  cfg, sc = case['cfg'], case['sc']
  want = motion.reference(cfg, [sc])
  motion.compare(ctx, motion.run(ctx, cfg, sc), want, NAMES)
  for w in want.values():
    if 0.0 in w.miss and 1.0 in w.miss:
      ctx.label('hit and miss')
    if w.ade and not w.fde:
      ctx.label('no ground truth at the horizon')
  if any(len(js) > cfg['k'] for js in sc['mm']):
    ctx.label('more than K trajectories')
  if any(len(j['tr']) > 1 for js in sc['mm'] for j in js):
    ctx.label('joint prediction')
  ctx.nontrivial(any(len(js) > 1 for js in sc['mm']) and any(w.fde for w in want.values()))


def check_moved(case, ctx):
  motion.check_moved(case, ctx, NAMES)


def joint3():
  return motion.cases(min_tracks=2, joint=3)


SUBS = [
    Sub('scene', motion.cases, check, 5000, rule='several trajectories and ground truth at a horizon'),
    Sub('joint', joint3, check, 3000, rule='several trajectories and ground truth at a horizon'),
    Sub('moved', motion.moved_cases, check_moved, 2500, rule='two tracks, no comparison on a threshold'),
]
