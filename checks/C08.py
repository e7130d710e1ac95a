"""Score cutoffs chosen from the predictions."""
import random

from hypothesis import strategies as st

from vlib import det, drv, geo, wod
from vlib.core import Sub
from vlib.driver import d, i, pack, ud, unpack

prepare = drv.prepare('det_driver')
close_env = drv.close_env


def open_env(env):
  wod.setup()
  return drv.open_env(env)


def expected(scores, n):
  """scores: float32 values in any order."""
  s = sorted(scores)
  if n == 1:
    return [0.0]
  if n >= len(s):
    return [k / (n - 1) for k in range(n)]
  # Boundaries of n - 1 consecutive groups whose sizes differ by at most one,
  # smaller groups first.
  nb = n - 1
  small, extra = divmod(len(s), nb)
  out, at = [s[0]], 0
  for k in range(nb - 1):
    at += small + (1 if k >= nb - extra else 0)
    out.append(min(1.0, max(0.0, s[at])))
  return out + [1.0]


def judge(ctx, got, scores, n, what):
  want = expected(scores, n)
  ctx.require(len(got) == n, '%s: %d cutoffs, %d were asked for', what, len(got), n)
  exact = 1 < n < len(scores)
  ctx.close(got, want, what, 0 if exact else 1e-5, 0)
  if not scores or 0 <= min(scores) and max(scores) <= 1:
    ctx.require(all(a <= b for a, b in zip(got, got[1:])), '%s: not increasing: %s', what, got)
  if n > 1:
    ctx.close(got[-1], 1.0, what + ': last cutoff', 1e-5)


SCORE = st.one_of(st.sampled_from(det.SCORES), st.floats(0, 1, width=32))


@st.composite
def lists(draw):
  return dict(s=draw(st.lists(SCORE, min_size=draw(st.sampled_from([0, 5, 30])), max_size=60)), n=draw(st.integers(1, 21)))


def check_list(case, ctx):
  s = sorted(case['s'])
  got = ud(ctx.env['drv'].call('decide_cutoffs', d(s), i(case['n']))[0])
  judge(ctx, [float(x) for x in got], s, case['n'], 'cutoffs')
  ctx.nontrivial(1 < case['n'] < len(s))


@st.composite
def sets(draw):
  n = draw(st.integers(1, 12))
  scenes = [[draw(st.lists(SCORE, max_size=draw(st.sampled_from([0, 2, 5, 9]))))
             for _ in range(draw(st.integers(0 if k else 1, 4)))] for k in range(draw(st.integers(1, 4)))]
  return dict(scenes=scenes, n=n, seed=draw(st.integers(0, 999)), explicit=draw(st.integers(0, 5)) == 0)


def one(s, k=0):
  """A prediction of that score; only the score may make a difference."""
  z = int(s * 640)
  return dict(b=[z % 7 * 3.0, z % 3 * 5.0, 0, 1 + z % 2, 1, 1, 0], t=1 + z % 4, s=s, id='p%d' % k, nlz=z % 5 == 0,
              **(dict(td=1, dd=2) if z % 6 == 0 else {}))


def truths(f):
  return [dict(b=[3.0 * k, 0, 0, 1, 1, 1, 0], t=1 + k % 4, id='g%d' % k, dd=1, td=1, **(dict(s=0.77) if k else {}))
          for k in range(len(f) * 2 % 5)]


def check_sets(case, ctx):
  M = wod.pb('protos.metrics_pb2')
  dv = ctx.env['drv']
  c = M.Config()
  c.num_desired_score_cutoffs = case['n']
  c.breakdown_generator_ids.append(1)
  c.difficulties.add()
  raw = c.SerializeToString()
  frames = [f for s in case['scenes'] for f in s]
  pooled = [float(x) for f in frames for x in f]
  pk = lambda fs: pack([det.packed([one(x, k) for k, x in enumerate(f)]) for f in fs])
  gt = lambda fs: pack([det.packed(truths(f)) for f in fs])
  det_ = M.Config.FromString(dv.call('det_cutoffs', raw, pk(frames), gt(frames))[0])
  judge(ctx, list(det_.score_cutoffs), pooled, case['n'], 'detection cutoffs')
  sc = case['scenes']
  tr = M.Config.FromString(dv.call('trk_cutoffs', raw, pack([pk(s) for s in sc]), pack([gt(s) for s in sc]))[0])
  judge(ctx, list(tr.score_cutoffs), pooled, case['n'], 'tracking cutoffs')
  for x in (det_, tr):  # nothing else of the configuration changes
    y = M.Config.FromString(x.SerializeToString())
    del y.score_cutoffs[:]
    ctx.equal(y.SerializeToString(), raw, 'rest of the configuration')
  # Order of scenes, frames and predictions does not matter.
  rnd = random.Random(case['seed'])
  sh = [[rnd.sample(f, len(f)) for f in rnd.sample(s, len(s))] for s in rnd.sample(sc, len(sc))]
  t2 = M.Config.FromString(dv.call('trk_cutoffs', raw, pack([pk(s) for s in sh]), pack([gt(s) for s in sh]))[0])
  ctx.equal(list(t2.score_cutoffs), list(tr.score_cutoffs), 'tracking cutoffs in another order')
  fr = [f for s in sh for f in s]
  d2 = M.Config.FromString(dv.call('det_cutoffs', raw, pk(fr), gt(fr))[0])
  ctx.equal(list(d2.score_cutoffs), list(det_.score_cutoffs), 'detection cutoffs in another order')
  ctx.nontrivial(len(sc) > 1 and 1 < case['n'] < len(pooled))
  # The metrics use exactly these; explicit cutoffs are used as given.
  c.iou_thresholds.extend([0, .5, .5, .5, .5])
  c.box_type = c.matcher_type = 1
  if case['explicit']:
    c.score_cutoffs.extend([0.25, 0.5, 0.5])
  used = list(c.score_cutoffs)
  raw = c.SerializeToString()
  D = [M.DetectionMetrics.FromString(x) for x in unpack(dv.call('det_metrics', raw, pk(frames), gt(frames))[0])]
  T = [M.TrackingMetrics.FromString(x) for x in unpack(dv.call('trk_metrics', raw, pack([pk(s) for s in sc]),
                                                                pack([gt(s) for s in sc]))[0])]
  for m in D:
    ctx.equal(list(m.score_cutoffs), used or list(det_.score_cutoffs), 'cutoffs of the detection metrics')
  for m in T:
    ctx.equal([x.score_cutoff for x in m.measurements.measurements], used or list(tr.score_cutoffs),
              'cutoffs of the tracking metrics')


SUBS = [
    Sub('lists', lists, check_list, 4000, rule='more scores than cutoffs'),
    Sub('sets', sets, check_sets, 1500, rule='several scenes and more scores than cutoffs'),
]
