"""Sim agents / scenario generation: who is simulated, validation, conversions."""
import numpy as np
from hypothesis import strategies as st

from vlib import tfu, wod
from vlib.core import Sub

NOW, PAST, FULL = 10, 11, 91
FIELDS = ('x', 'y', 'z', 'heading', 'length', 'width', 'height')
STATE = ('center_x', 'center_y', 'center_z', 'heading', 'length', 'width', 'height')


def prepare(tier):
  from vlib import build
  build.gen_protos()
  return {}


def open_env(env):
  wod.setup(shim=True)
  import tensorflow as tf
  from waymo_open_dataset.protos import scenario_pb2, sim_agents_submission_pb2
  from waymo_open_dataset.utils import trajectory_utils
  from waymo_open_dataset.utils.sim_agents import converters, submission_specs
  return dict(tf=tf, sc=scenario_pb2, pb=sim_agents_submission_pb2, tj=trajectory_utils, co=converters, sp=submission_specs)


@st.composite
def scenes(draw):
  n = draw(st.integers(1, 4))
  return dict(n=n, seed=draw(tfu.seeds()), gen=draw(st.booleans()), now=draw(st.lists(st.booleans(), min_size=n, max_size=n)),
              sdc=draw(st.integers(0, n - 1)), predict=draw(st.lists(st.integers(0, n - 1), max_size=4)),
              flaw=draw(st.sampled_from(['none', 'none', 'missing', 'short', 'long', 'stranger', 'not simulated', 'empty field'])),
              flaw2=draw(st.sampled_from(['none', 'none', 'no id', 'few', 'many', 'scene'])), at=draw(st.integers(0, 31)), order=draw(tfu.seeds()),
              steps=draw(st.sampled_from([FULL, FULL, FULL, FULL - 1, FULL + 1, PAST])))


def make_scenario(case, env, steps=None):
  """-> scenario, ids, values [n, steps, 7], valid [n, steps], types"""
  rng = np.random.RandomState(case['seed'])
  n, t = case['n'], steps or case['steps']
  ids = rng.permutation(4 * n)[:n] + 1
  s = env['sc'].Scenario(scenario_id='abc', sdc_track_index=case['sdc'], current_time_index=NOW)
  for k in case['predict']:
    s.tracks_to_predict.add(track_index=k)
  val = rng.uniform(-100, 100, (n, t, 7))
  val[..., 4:] = rng.uniform(0.3, 6, (n, t, 3))
  ok = rng.rand(n, t) < 0.8
  ok[:, NOW] = case['now']
  types = rng.randint(1, 5, n)
  for k in range(n):
    tr = s.tracks.add(id=int(ids[k]), object_type=int(types[k]))
    for j in range(t):
      tr.states.add(valid=bool(ok[k, j]), **dict(zip(STATE, val[k, j].tolist())))
      for q, f in enumerate(STATE[3:]):
        val[k, j, 3 + q] = getattr(tr.states[j], f)  # stored as float32
  return s, ids, val, ok, types, rng


def make_scene(env, ids, steps, rng, full, types):
  js = env['pb'].JointScene()
  for k, i in enumerate(ids):
    v = rng.uniform(-50, 50, (7, steps))
    t = js.simulated_trajectories.add(object_id=int(i))
    for f, a in zip(STATE, v):
      if f in STATE[:4] or full:
        getattr(t, f).extend(a.tolist())
    if full:
      t.object_type = int(types[k])
      t.valid.extend([True] * steps)
  return js


def rejected(fn, *args):
  try:
    fn(*args)
  except ValueError:
    return True
  return False


def check_specs(case, ctx):
  env = ctx.env
  sp = env['sp']
  s, ids, _, ok, types, rng = make_scenario(case, env, FULL)
  kind = sp.ChallengeType.SCENARIO_GEN if case['gen'] else sp.ChallengeType.SIM_AGENTS
  c = ctx.call(sp.get_submission_config, kind)
  ctx.equal((c.current_time_index, c.n_simulation_steps, c.n_rollouts, c.step_duration_seconds), (NOW, FULL if case['gen'] else 80, 32, 0.1), 'configuration')
  sim = [int(ids[k]) for k in range(case['n']) if case['now'][k]]
  ctx.equal(list(ctx.call(sp.get_sim_agent_ids, s, kind)), sim, 'agents to simulate')
  for k, tr in enumerate(s.tracks):
    ctx.equal(bool(c.is_valid_sim_agent(tr)), bool(case['now'][k]), 'is a sim agent')
  ev = list(ctx.call(sp.get_evaluation_sim_agent_ids, s, kind))
  ctx.equal(sorted(ev), sorted(sim) if case['gen'] else sorted({int(ids[k]) for k in [case['sdc']] + case['predict']}), 'evaluated agents')
  steps = c.n_simulation_steps
  order = np.random.RandomState(case['order']).permutation(len(sim))
  good = make_scene(env, [sim[k] for k in order], steps, rng, case['gen'], types)
  ctx.call(sp.validate_joint_scene, good, s, kind)
  bad = env['pb'].JointScene()
  bad.CopyFrom(good)
  flaw = case['flaw']
  q = rng.randint(max(1, len(sim)))
  f = STATE[rng.randint(4)]
  if flaw in ('missing', 'short', 'long', 'empty field') and not sim:
    flaw = 'none'
  if flaw == 'missing':
    del bad.simulated_trajectories[q]
  elif flaw == 'short':
    getattr(bad.simulated_trajectories[q], f).pop()
  elif flaw == 'long':
    getattr(bad.simulated_trajectories[q], f).append(0.0)
  elif flaw == 'empty field':
    bad.simulated_trajectories[q].ClearField(f)
  elif flaw == 'stranger':
    bad.simulated_trajectories.extend(make_scene(env, [10**6], steps, rng, case['gen'], types).simulated_trajectories)
  elif flaw == 'not simulated':
    out = [int(i) for i in ids if int(i) not in sim]
    if out:
      bad.simulated_trajectories.extend(make_scene(env, out[:1], steps, rng, case['gen'], types).simulated_trajectories)
    else:
      flaw = 'none'
  ctx.label('scene: ' + flaw)
  ctx.equal(rejected(sp.validate_joint_scene, bad, s, kind), flaw != 'none', 'scene with flaw "%s" rejected' % flaw)
  r = env['pb'].ScenarioRollouts(scenario_id='abc')
  for _ in range(32):
    r.joint_scenes.add().CopyFrom(good)
  ctx.call(sp.validate_scenario_rollouts, r, s, kind)
  f2 = case['flaw2']
  if f2 == 'no id':
    r.ClearField('scenario_id')
  elif f2 == 'few':
    del r.joint_scenes[case['at']]
  elif f2 == 'many':
    r.joint_scenes.add().CopyFrom(good)
  elif f2 == 'scene':
    r.joint_scenes[case['at']].CopyFrom(bad)
    if flaw == 'none':
      f2 = 'none'
  ctx.label('rollouts: ' + f2)
  ctx.equal(rejected(sp.validate_scenario_rollouts, r, s, kind), f2 != 'none', 'rollouts with flaw "%s" (%s) rejected' % (f2, flaw))
  ctx.nontrivial(len(sim) > 1)


def values(o):
  return np.stack([getattr(o, f).numpy() for f in FIELDS], -1)


def check_convert(case, ctx):
  env = ctx.env
  sp, co, tf = env['sp'], env['co'], env['tf']
  if not any(case['now']):
    case = dict(case, now=[True] * case['n'])
  s, ids, val, ok, types, rng = make_scenario(case, env)
  kind = sp.ChallengeType.SCENARIO_GEN if case['gen'] else sp.ChallengeType.SIM_AGENTS
  sim = [k for k in range(case['n']) if case['now'][k]]
  ctx.nontrivial(len(sim) > 1)
  if case['steps'] != FULL:
    ctx.label('wrong length')
    ctx.require(rejected(co.scenario_to_joint_scene, s, kind), 'a scenario of %d steps was converted', case['steps'])
    if case['steps'] < FULL:
      return
  else:
    js = ctx.call(co.scenario_to_joint_scene, s, kind)
    ctx.call(sp.validate_joint_scene, js, s, kind)
    ctx.equal([t.object_id for t in js.simulated_trajectories], [int(ids[k]) for k in sim], 'objects of the logged scene')
    first = 0 if case['gen'] else NOW + 1
    for t, k in zip(js.simulated_trajectories, sim):
      for q, f in enumerate(STATE):
        ctx.close(list(getattr(t, f)), val[k, first:, q], 'logged ' + f, atol=0, rtol=2e-7)
      ctx.equal(list(t.valid), ok[k, first:].tolist(), 'logged validity')
      ctx.equal(t.object_type, int(types[k]), 'logged type')
  order = [sim[k] for k in np.random.RandomState(case['order']).permutation(len(sim))]
  steps = FULL if case['gen'] else 80
  scene = make_scene(env, ids[order], steps, rng, case['gen'], types[order])
  sv = np.stack([[list(getattr(t, f)) or [np.nan] * steps for f in STATE] for t in scene.simulated_trajectories]).transpose(0, 2, 1)
  if case['gen']:
    o = ctx.call(co.simulated_scenariogen_to_trajectories, scene, s, kind)
    ctx.close(values(o), sv, 'generated trajectories', atol=0, rtol=2e-7)
    ctx.require(bool(np.all(o.valid.numpy())) and o.valid.shape == (len(sim), steps), 'every generated state is valid')
    ctx.equal(o.object_type.numpy().tolist(), types[order].tolist(), 'types')
    ctx.equal(o.object_id.numpy().tolist(), ids[order].tolist(), 'ids')
    return
  if case['steps'] != FULL:
    return
  for log in (False, True):
    o = ctx.call(co.joint_scene_to_trajectories, scene, s, log)
    want = np.concatenate([val[order, :PAST], sv], 1)
    want[:, PAST:, 4:] = val[order, NOW, None, 4:]
    ctx.close(values(o), want, 'simulated trajectories', atol=0, rtol=2e-7)
    wv = np.concatenate([ok[order, :PAST], ok[order, PAST:] if log else np.ones((len(sim), 80), bool)], 1)
    ctx.equal(o.valid.numpy().tolist(), wv.tolist(), 'validity (log=%s)' % log)
    ctx.equal(o.object_type.numpy().tolist(), types[order].tolist(), 'types')
    ctx.equal(o.object_id.numpy().tolist(), ids[order].tolist(), 'ids')


SUBS = [
    Sub('specs', scenes, check_specs, 1600, rule='two or more agents to simulate'),
    Sub('convert', scenes, check_convert, 1600, rule='two or more agents to simulate'),
]
