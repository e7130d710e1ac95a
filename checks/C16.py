"""Malformed motion inputs are rejected, well-formed ones accepted."""
import math

from hypothesis import strategies as st

from vlib import drv, geo, motion, wod
from vlib.core import Sub
from vlib.driver import i, pack, ui, unpack

prepare = drv.prepare('motion_driver')
close_env = drv.close_env


def open_env(env):
  wod.setup()
  return drv.open_env(env)


MUTATIONS = ('pps', 'tps', 'hist', 'future', 'step', 'k', 'id', 'point', 'object', 'every object', 'drop object',
             'empty first', 'drop prediction', 'add object', 'index', 'drop required', 'repeat required', 'track length',
             'reorder', 'no steps', 'more predictions', 'extra id', 'shuffle predictions')


@st.composite
def cases(draw):
  cfg = draw(motion.configs(max_future=8))
  sc = draw(motion.scenario(cfg, 's', max_tracks=4))
  n = draw(st.sampled_from([0, 1, 1, 1, 2]))
  return dict(cfg=cfg, sc=sc, mut=[(draw(st.sampled_from(MUTATIONS)), draw(st.integers(0, 999))) for _ in range(n)])


def mutate(kind, z, c, p, s):
  """Changes the protos; z chooses where and how."""
  mms = [m for m in p.multi_modal_predictions if m.joint_predictions]
  mm = mms[z % len(mms)] if mms else None
  jp = mm.joint_predictions[z // 3 % len(mm.joint_predictions)] if mm else None
  tr = jp.trajectories[z // 7 % len(jp.trajectories)] if jp and jp.trajectories else None
  if kind == 'pps':
    c.prediction_steps_per_second = [0, -1, 1, 2, 3, c.track_steps_per_second, c.track_steps_per_second + 1][z % 7]
  elif kind == 'tps':
    c.track_steps_per_second = [0, -2, 1, 3, c.track_steps_per_second * 2][z % 5]
  elif kind == 'hist':
    c.track_history_samples = [-1, -2, c.track_history_samples + 1, max(0, c.track_history_samples - 1)][z % 4]
  elif kind == 'future':
    c.track_future_samples += [-1, 1, -2, 2, -c.track_future_samples, -c.track_future_samples - 1][z % 6]
  elif kind == 'step' and c.step_configurations:
    n = c.track_future_samples * c.prediction_steps_per_second // max(1, c.track_steps_per_second)
    c.step_configurations[z % len(c.step_configurations)].measurement_step = [n, n - 1, n + 1, -1, n + 9, 0][z % 6]
  elif kind == 'k':
    c.max_predictions = [1, 7, 100][z % 3]
  elif kind == 'id':
    p.scenario_id = ['x', '', 's '][z % 3]
  elif kind == 'point' and tr is not None:
    for xs in [[tr.center_x], [tr.center_y], [tr.center_x, tr.center_y]][z % 3]:
      if z % 2:
        xs.append(1.0)
      elif xs:
        del xs[-1]
  elif kind == 'object' and tr is not None:
    tr.object_id = [t.id for t in s.tracks][z % len(s.tracks)] if z % 2 else -5
  elif kind == 'every object' and mm is not None:
    new = [t.id for t in s.tracks][z % len(s.tracks)] if z % 2 else -5
    old = jp.trajectories[0].object_id if jp.trajectories else 0
    for j in mm.joint_predictions:
      for t in j.trajectories:
        if t.object_id == old:
          t.object_id = new
  elif kind == 'drop object' and tr is not None:
    del jp.trajectories[z // 7 % len(jp.trajectories)]
  elif kind == 'empty first' and mm is not None:
    keep = [type(j).FromString(j.SerializeToString()) for j in mm.joint_predictions]
    del mm.joint_predictions[:]
    mm.joint_predictions.add(confidence=0.5)
    mm.joint_predictions.extend(keep)
  elif kind == 'drop prediction' and mm is not None:
    del p.multi_modal_predictions[z % len(p.multi_modal_predictions)]
  elif kind == 'add object' and tr is not None:
    t = jp.trajectories.add()
    t.CopyFrom(tr)
    t.object_id = [t.id for t in s.tracks][z % len(s.tracks)]
  elif kind == 'index':
    s.tracks_to_predict.add(track_index=[-1, len(s.tracks), len(s.tracks) - 1, 2**31 - 1][z % 4])
  elif kind == 'drop required' and s.tracks_to_predict:
    del s.tracks_to_predict[z % len(s.tracks_to_predict)]
  elif kind == 'repeat required' and s.tracks_to_predict:
    s.tracks_to_predict.add(track_index=s.tracks_to_predict[0].track_index)
  elif kind == 'track length':
    t = s.tracks[z % len(s.tracks)]
    if z % 3 == 0:
      del t.states[:]
    elif z % 3 == 1 and t.states:
      del t.states[-1]
    else:
      t.states.add()
  elif kind == 'reorder' and jp is not None:
    ts = list(jp.trajectories)[::-1]
    ts = [type(t).FromString(t.SerializeToString()) for t in ts]
    del jp.trajectories[:]
    jp.trajectories.extend(ts)
  elif kind == 'no steps':
    del c.step_configurations[:]
  elif kind == 'more predictions' and mm is not None:
    mm.joint_predictions.extend([type(jp).FromString(jp.SerializeToString())] * (1 + z % 4))
  elif kind == 'extra id' and mm is not None:
    m = p.multi_modal_predictions.add()
    m.CopyFrom(mm)
    for j in m.joint_predictions:
      for t in j.trajectories:
        t.object_id = -9 if z % 2 else s.tracks[z % len(s.tracks)].id
  elif kind == 'shuffle predictions':
    ms = [type(m).FromString(m.SerializeToString()) for m in p.multi_modal_predictions][::-1]
    del p.multi_modal_predictions[:]
    p.multi_modal_predictions.extend(ms)


def trunc(a, b):
  return int(math.trunc(a / b))


def well_formed(c, p, s):
  """True, False, or None where the format does not say."""
  tps, pps = c.track_steps_per_second, c.prediction_steps_per_second
  if pps <= 0 or tps < pps or tps % pps:
    return False
  if c.track_history_samples < 0:
    return False
  n = trunc(c.track_future_samples * pps, tps)
  if any(not 0 <= k.measurement_step < n for k in c.step_configurations):
    return False
  if p.scenario_id != s.scenario_id:
    return False
  ids = set()
  repeated = False
  for m in p.multi_modal_predictions:
    sets = []
    for j in m.joint_predictions:
      sets.append(frozenset(t.object_id for t in j.trajectories))
      repeated |= len(sets[-1]) != len(j.trajectories)
      if any(len(t.center_x) != n or len(t.center_y) != n for t in j.trajectories):
        return False
    if len(set(sets)) > 1:
      return False
    ids |= set().union(*sets)
  if any(not 0 <= r.track_index < len(s.tracks) for r in s.tracks_to_predict):
    return False
  if ids != {s.tracks[r.track_index].id for r in s.tracks_to_predict}:
    return False
  if any(len(t.states) != c.track_history_samples + c.track_future_samples + 1 for t in s.tracks):
    return False
  if c.speed_lower_bound >= c.speed_upper_bound or repeated:
    return None
  return True


def check(case, ctx):
  c, p, s = motion.config_proto(case['cfg']), motion.predictions_proto(case['sc']), motion.scenario_proto(case['sc'])
  for k, z in case['mut']:
    mutate(k, z, c, p, s)
  want = well_formed(c, p, s)
  out = ctx.env['drv'].call('stats', c.SerializeToString(), p.SerializeToString(), s.SerializeToString(), i(0))
  got = bool(ui(out[0])[0])
  out = ctx.env['drv'].call('keyed', c.SerializeToString(), pack([p.SerializeToString()]), pack([b'k']),
                            pack([s.SerializeToString()]), pack([b'k']))
  both = bool(ui(out[0])[0])
  ctx.equal(both, got, 'accepted by ComputeMotionMetrics as by ComputeMetricsStats')
  if want is None:
    return
  ctx.equal(got, want, 'accepted after %s' % [k for k, _ in case['mut']])
  ctx.label(*['%s: %s' % (k, 'accepted' if want else 'rejected') for k, _ in case['mut'][:1]])
  ctx.nontrivial(len(case['mut']) > 0)


# ---- predictions and scenarios by key -------------------------------------
@st.composite
def key_cases(draw):
  cfg = draw(motion.configs(max_future=4))
  n = draw(st.integers(1, 3))
  scs = [draw(motion.scenario(cfg, 's%d' % k, max_tracks=2)) for k in range(n)]
  return dict(cfg=cfg, scs=scs, missing=draw(st.one_of(st.none(), st.integers(0, n - 1))),
              bad=draw(st.one_of(st.none(), st.none(), st.integers(0, n - 1))), extra=draw(st.booleans()))


def check_keys(case, ctx):
  ps = [motion.predictions_proto(s) for s in case['scs']]
  ss = [motion.scenario_proto(s) for s in case['scs']]
  pk = [s['id'].encode() for s in case['scs']]
  sk = list(pk)
  if case['bad'] is not None:
    del ps[case['bad']].multi_modal_predictions[0]
  if case['missing'] is not None:
    del ss[case['missing']], sk[case['missing']]
  elif case['extra']:
    pk, ps = pk[:-1], ps[:-1]
  want = case['missing'] is None and (case['bad'] is None or case['bad'] >= len(ps))
  out = ctx.env['drv'].call('keyed', motion.config_proto(case['cfg']).SerializeToString(),
                            pack([p.SerializeToString() for p in ps]), pack(pk),
                            pack([s.SerializeToString() for s in ss]), pack(sk))
  ctx.equal(bool(ui(out[0])[0]), want, 'accepted')
  ctx.nontrivial(not want)


# ---- challenge submissions ------------------------------------------------
@st.composite
def challenge_cases(draw):
  kind = draw(st.sampled_from(['single', 'joint', 'none']))

  def traj():
    n = draw(st.integers(0, 4))
    m = n + (draw(st.sampled_from([-1, 1])) if draw(st.integers(0, 9)) == 0 else 0)
    return [draw(geo.f(-99, 99)) for _ in range(n)], [draw(geo.f(-99, 99)) for _ in range(max(0, m))]
  ids = st.sampled_from([0, 1, 5, -3, 2**31 - 1])
  if kind == 'single':
    body = [(draw(ids), [(draw(geo.f(0, 1)), traj()) for _ in range(draw(st.integers(0, 3)))])
            for _ in range(draw(st.integers(0, 3)))]
  else:
    nobj = lambda: 2 if draw(st.integers(0, 9)) else draw(st.sampled_from([0, 1, 3]))
    body = [(draw(geo.f(0, 1)), [(draw(ids), traj()) for _ in range(nobj())]) for _ in range(draw(st.integers(0, 3)))]
  return dict(kind=kind, id=draw(st.sampled_from(['', 'a', 'scenario'])), body=body,
              type=draw(st.sampled_from([1, 2, 1, 2, 0])))


def check_challenge(case, ctx):
  pb = wod.pb('protos.motion_submission_pb2')
  S = wod.pb('protos.motion_metrics_pb2').ScenarioPredictions
  c = pb.ChallengeScenarioPredictions(scenario_id=case['id'])
  mm = []  # [[(confidence, [(id, x, y)])]]
  ok = case['kind'] != 'none'
  if case['kind'] == 'single':
    c.single_predictions.SetInParent()
    for oid, ts in case['body']:
      o = c.single_predictions.predictions.add(object_id=oid)
      for conf, (x, y) in ts:
        t = o.trajectories.add(confidence=conf)
        t.trajectory.center_x.extend(x)
        t.trajectory.center_y.extend(y)
      mm.append([(conf, [(oid, x, y)]) for conf, (x, y) in ts])
  elif case['kind'] == 'joint':
    c.joint_prediction.SetInParent()
    for conf, objs in case['body']:
      j = c.joint_prediction.joint_trajectories.add(confidence=conf)
      for oid, (x, y) in objs:
        t = j.trajectories.add(object_id=oid)
        t.trajectory.center_x.extend(x)
        t.trajectory.center_y.extend(y)
      ok &= len(objs) == 2
    mm.append([(conf, [(oid, x, y) for oid, (x, y) in objs]) for conf, objs in case['body']])
  ok &= all(len(x) == len(y) for m in mm for _, o in m for _, x, y in o)
  out = ctx.env['drv'].call('challenge', c.SerializeToString(), i(case['type']))
  ctx.equal(bool(ui(out[0])[0]), ok, 'converted')
  if not ok:
    ctx.label('rejected')
    return
  r = S.FromString(out[1])
  ctx.equal(r.scenario_id, case['id'], 'scenario id')
  got = [[(j.confidence, [(t.object_id, list(t.center_x), list(t.center_y)) for t in j.trajectories])
          for j in m.joint_predictions] for m in r.multi_modal_predictions]
  ctx.equal(got, mm, 'converted predictions')
  want = valid_challenge(mm, case['type'])
  ctx.equal(bool(ui(out[2])[0]), want, 'valid for submission type %d' % case['type'])
  ctx.nontrivial(any(len(m) > 1 for m in mm))


def valid_challenge(mm, kind):
  if kind not in (1, 2) or (kind == 2 and len(mm) > 1):
    return False
  return all(len(o) == kind for m in mm for _, o in m)


@st.composite
def valid_cases(draw):
  n = st.sampled_from([1, 1, 2, 2, 0, 3])
  one = draw(st.booleans())
  k = draw(st.sampled_from([1, 2]))
  return dict(type=draw(st.sampled_from([1, 2, 1, 2, 0])),
              mm=[[k if one else draw(n) for _ in range(draw(st.integers(0, 3)))] for _ in range(draw(st.integers(0, 3)))])


def check_valid(case, ctx):
  S = wod.pb('protos.motion_metrics_pb2').ScenarioPredictions
  p = S(scenario_id='s')
  for m in case['mm']:
    o = p.multi_modal_predictions.add()
    for n in m:
      j = o.joint_predictions.add()
      for k in range(n):
        j.trajectories.add(object_id=k)
  want = valid_challenge([[(0, [0] * n) for n in m] for m in case['mm']], case['type'])
  ctx.equal(bool(ui(ctx.env['drv'].call('validate_challenge', p.SerializeToString(), i(case['type']))[0])[0]), want,
            'valid for submission type %d' % case['type'])
  ctx.label('valid' if want else 'invalid')
  ctx.nontrivial(want and len(case['mm']) > 0)


SUBS = [
    Sub('mutations', cases, check, 6000, rule='at least one mutation'),
    Sub('keys', key_cases, check_keys, 800, rule='a missing scenario or malformed prediction'),
    Sub('challenge', challenge_cases, check_challenge, 2000, rule='converted with several trajectories'),
    Sub('valid', valid_cases, check_valid, 1000, rule='a valid non-empty submission'),
]
