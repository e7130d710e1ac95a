"""Agent and traffic-light features of the tf.Example of a scenario."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib import drv, scen, wod
from vlib.core import Sub
from vlib.geo import f

prepare = drv.prepare('conv_driver')
close_env = drv.close_env
F32 = lambda x: float(np.float32(x))


def open_env(env):
  wod.setup(shim=True)
  return drv.open_env(env)


coord = lambda: st.one_of(st.integers(-6, 6).map(float), f(-9000, 9000))


@st.composite
def cases(draw):
  past, future = draw(st.integers(1, 4)), draw(st.integers(0, 4))
  agents = draw(st.integers(1, 8))
  modeled = draw(st.one_of(st.integers(1, agents), st.integers(0, agents)))
  steps = max(past, draw(st.sampled_from([past + future] * 4 + [past + future + 2, past + future - 1, past])))
  n = draw(st.integers(1, 7))
  tracks = []
  hidden = draw(st.integers(0, 2))  # how often agents are absent now
  for k in range(n):
    mask = draw(st.one_of(st.just(2**steps - 1), st.integers(0, 2**steps - 1)))
    if hidden and k and draw(st.integers(0, 2)) < hidden:
      mask &= ~(1 << (past - 1))
    elif draw(st.integers(0, 3)):
      mask |= 1 << (past - 1)
    base = [draw(coord()), draw(coord()), draw(coord())] + [draw(f(0.1, 12)) for _ in range(3)] + [
        draw(f(-4, 4)), draw(f(-30, 30)), draw(st.sampled_from([0.0, 1.5, -7.25]))]
    grow = draw(st.sampled_from([0.0, 0.5, -1.0, 1.37]))  # per step; fields differ
    tracks.append(dict(
        id=draw(st.sampled_from([k + 1, 1000 - k, 2**24 + 1 + 2 * k, 2**31 - 1 - 1000 * k, k - 500])),
        t=draw(st.sampled_from([1, 1, 1, 2, 3, 4, 0])),
        s=[[v + grow * (t - past + 1) * (c + 1) if c < 3 else F32(v + 0.01 * grow * t * (c + 1))
            for c, v in enumerate(base)] + [bool(mask >> t & 1)] for t in range(steps)]))
  ttp = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, 2)), min_size=0, max_size=5,
                      unique_by=lambda x: x[0]))
  if not ttp and draw(st.integers(0, 9)):
    ttp = [(0, 1), (n - 1, 2)][:1 + (n > 1)]
  lights = [[(draw(st.one_of(st.integers(1, 2000), st.integers(-2**63, 2**63 - 1), st.just(2**53 + 1))),
              draw(st.integers(0, 8)), [draw(coord()) for _ in range(3)] if draw(st.integers(0, 5)) else [0.0] * 3)
             for _ in range(draw(st.integers(0, 4)))]
            for _ in range(draw(st.sampled_from([steps, steps, steps, 0, max(0, steps - 1)])))]
  return dict(past=past, future=future, agents=agents, modeled=modeled, tracks=tracks, ttp=ttp,
              lights=lights, maxl=draw(st.integers(0, 4)), sdc=draw(st.integers(0, n - 1)),
              ooi=draw(st.lists(st.sampled_from([t['id'] for t in tracks] + [424242]), max_size=3)),
              ts=[round(0.1 * k + draw(st.sampled_from([0, 0.0004])), 6) for k in range(steps)], sid=draw(st.text(max_size=6)),
              counters=draw(st.integers(0, 3)) > 0,
              bad=draw(st.sampled_from([None] * 14 + ['sdc-', 'sdc+', 'short', 'long', 'empty'])))


NAMES = ('center_x', 'center_y', 'center_z', 'length', 'width', 'height', 'heading', 'velocity_x', 'velocity_y',
         'valid')


def scenario_proto(case):
  s = scen.proto('Scenario')(scenario_id=case['sid'], timestamps_seconds=case['ts'], sdc_track_index=case['sdc'],
                             objects_of_interest=case['ooi'], current_time_index=case['past'] - 1)
  for t in case['tracks']:
    p = s.tracks.add(id=t['id'], object_type=t['t'])
    for x in t['s']:
      p.states.add(**dict(zip(NAMES, x)))
  for k, d in case['ttp']:
    s.tracks_to_predict.add(track_index=k, difficulty=d)
  for step in case['lights']:
    p = s.dynamic_map_states.add()
    for lane, state, (x, y, z) in step:
      ls = p.lane_states.add(lane=lane, state=state)
      if (x, y, z) != (0, 0, 0) or lane % 2:  # an unset stop point is one at the origin
        ls.stop_point.x, ls.stop_point.y, ls.stop_point.z = x, y, z
  return s


def frames(case):
  """(name, steps) of the three time frames."""
  p, n = case['past'], case['past'] + case['future']
  return (('past', range(p - 1)), ('current', range(p - 1, p)), ('future', range(p, n)))


def micros(case, t):
  return case['ts'][t] * 1e6


def check(case, ctx):
  s = scenario_proto(case)
  bad = case['bad']
  if bad == 'sdc-':
    s.sdc_track_index = -1
  elif bad == 'sdc+':
    s.sdc_track_index = len(case['tracks'])
  elif bad == 'short':
    del s.tracks[-1].states[-1]
  elif bad == 'long':
    s.tracks[0].states.add()
  elif bad == 'empty':
    del s.timestamps_seconds[:]
    for t in s.tracks:
      del t.states[:]
  cfg = scen.config_proto(max_num_agents=case['agents'], max_num_modeled_agents=case['modeled'],
                          num_past_steps=case['past'], num_future_steps=case['future'], max_roadgraph_samples=0,
                          max_traffic_light_control_points_per_step=case['maxl'])
  ft, _ = scen.convert(ctx, s, cfg, case['counters'])
  now = case['past'] - 1
  tracks = case['tracks']
  modeled = [k for k, _ in case['ttp'] if tracks[k]['s'][now][9]][:case['modeled']]
  if bad or not modeled:
    ctx.label('refused')
    ctx.require(ft is None, 'a scenario %s was converted', bad or 'without agents to model')
    return
  ctx.require(ft is not None, 'a valid scenario was refused')
  take = lambda key, kind, n: scen.take(ctx, ft, key, kind, n)
  ctx.equal(take('scenario/id', 'b', 1)[0], case['sid'].encode(), 'scenario id')
  modeled.sort(key=lambda k: tracks[k]['id'])

  # Which context agent sits where: ordered by distance to the SDC, ties in any
  # order.
  sx, sy = tracks[case['sdc']]['s'][now][:2]

  def rank(k):
    x = tracks[k]['s'][now]
    if x[9]:
      return (0, math.hypot(x[0] - sx, x[1] - sy))
    return (1, -sum(y[9] for y in tracks[k]['s']))

  rest = [k for k in range(len(tracks)) if k not in modeled]
  ranks = sorted(map(rank, rest))
  room = case['agents'] - len(modeled)
  nctx = min(room, len(rest))
  n = case['agents']
  ids = take('state/id', 'f', n)
  order = list(modeled)
  for slot in range(nctx):
    same = [k for k in rest if k not in order and F32(tracks[k]['id']) == ids[len(modeled) + slot]
            and rank(k)[0] == ranks[slot][0] and abs(rank(k)[1] - ranks[slot][1]) <= 1e-9 * (1 + abs(ranks[slot][1]))]
    ctx.require(same, lambda: 'context agent %d has id %r; agents of the rank expected there: %r' % (
        slot, ids[len(modeled) + slot], [tracks[k]['id'] for k in rest if k not in order and rank(k) == ranks[slot]]))
    order.append(same[0])
  slots = order + [None] * (n - len(order))
  diff = dict(case['ttp'])

  def row(fn):
    return [-1 if k is None else fn(k) for k in slots]

  ctx.equal(list(ids), row(lambda k: F32(tracks[k]['id'])), 'state/id')
  ooi = set(case['ooi'])
  ctx.equal(list(take('state/type', 'f', n)), row(lambda k: tracks[k]['t']), 'state/type')
  for key, fn in (('is_sdc', lambda k: int(k == case['sdc'])), ('is_context', lambda k: int(k not in modeled)),
                  ('tracks_to_predict', lambda k: int(k in modeled)), ('difficulty_level', lambda k: diff.get(k, 0)),
                  ('objects_of_interest', lambda k: int(tracks[k]['id'] in ooi))):
    ctx.equal(list(take('state/' + key, 'i', n)), row(fn), 'state/' + key)
  cols = dict(x=0, y=1, z=2, length=3, width=4, height=5, bbox_yaw=6, velocity_x=7, velocity_y=8)
  known = {'scenario/id'} | {'state/' + k for k in (
      'id', 'type', 'is_sdc', 'is_context', 'tracks_to_predict', 'difficulty_level', 'objects_of_interest')}
  for name, steps in frames(case):
    def at(fn):
      out = []
      for k in slots:
        for t in steps:
          ok = k is not None and tracks[k]['t'] and t < len(case['ts']) and tracks[k]['s'][t][9]
          out.append(fn(tracks[k]['s'][t], t) if ok else None)
      return out

    m = len(slots) * len(steps)
    pre = 'state/%s/' % name
    ctx.equal(list(take(pre + 'valid', 'i', m)), [int(v is not None) for v in at(lambda x, t: 1)], pre + 'valid')
    for key, c in cols.items():
      ctx.equal(list(take(pre + key, 'f', m)), [-1.0 if v is None else v for v in at(lambda x, t: F32(x[c]))], pre + key)
    for key, fn in (('speed', lambda x, t: math.hypot(x[7], x[8])), ('vel_yaw', lambda x, t: math.atan2(x[8], x[7]))):
      ctx.close(take(pre + key, 'f', m), [-1.0 if v is None else v for v in at(fn)], pre + key, 1e-5, 1e-5)
    ctx.close(take(pre + 'timestamp_micros', 'i', m), [-1.0 if v is None else v for v in at(lambda x, t: micros(case, t))],
              pre + 'timestamp_micros', 1.01, 2.0**-23)
    known |= {pre + k for k in ('valid', 'speed', 'vel_yaw', 'timestamp_micros', *cols)}
    # traffic lights
    pre = 'traffic_light_state/%s/' % name
    grid = [(t, k, case['lights'][t][k] if t < len(case['lights']) and k < len(case['lights'][t]) else None)
            for t in steps for k in range(case['maxl'])]
    m = len(grid)
    ctx.equal(list(take(pre + 'valid', 'i', m)), [int(g[2] is not None) for g in grid], pre + 'valid')
    for key, kind, fn in (('id', 'i', lambda l: l[0]), ('state', 'i', lambda l: l[1]),
                          ('x', 'f', lambda l: F32(l[2][0])), ('y', 'f', lambda l: F32(l[2][1])),
                          ('z', 'f', lambda l: F32(l[2][2]))):
      ctx.equal([x for x in take(pre + key, kind, m)], [-1 if g[2] is None else fn(g[2]) for g in grid], pre + key)
    ctx.close(take(pre + 'timestamp_micros', 'i', len(steps)),
              [micros(case, t) if t < len(case['lights']) else -1 for t in steps], pre + 'timestamp_micros', 1.01, 2.0**-23)
    known |= {pre + k for k in ('valid', 'id', 'state', 'x', 'y', 'z', 'timestamp_micros')}
  ctx.require(not set(ft) - known, 'unknown features %r', sorted(set(ft) - known))
  ctx.nontrivial(len(order) > 1 and any(x[9] for k in order for x in tracks[k]['s'][now + 1:]))
  if len(rest) > room:
    ctx.label('context agents cut')
  if sum(r[0] for r in ranks) > 1:
    ctx.label('agents absent now compete')
  if any(l for l in case['lights']):
    ctx.label('lights')


# ------------------------------------------------- comparing examples


KINDS = ('int64', 'float', 'bytes')


@st.composite
def pairs(draw):
  """Features of one example and the edits that lead to another."""
  def value(kind):
    n = draw(st.integers(0, 3))
    if kind == 'float':
      return [draw(st.sampled_from([0.0, 1.5, -2.0, 1000.0, 1e6])) for _ in range(n)]
    if kind == 'int64':
      return [draw(st.integers(-2, 2)) for _ in range(n)]
    return [draw(st.sampled_from([b'', b'a', b'\xff'])) for _ in range(n)]
  names = draw(st.lists(st.sampled_from(['a', 'b', 'c/d', 'e']), unique=True, max_size=4))
  feats = {}
  for n in names:
    k = draw(st.sampled_from(KINDS))
    feats[n] = (k, value(k))
  edits = []
  if draw(st.booleans()):
    k = draw(st.sampled_from(KINDS))
    what = draw(st.sampled_from(['drop', 'add', 'nudge', 'shift', 'length', 'kind', 'kind']))
    edits.append((what, draw(st.sampled_from(names)) if names else 'a', k, value(k), draw(st.integers(0, 2))))
  atol, rtol = draw(st.sampled_from([(1e-3, 0.0), (None, None), (0.5, 0.0), (0.0, 0.0)]))
  return dict(feats=feats, edits=edits, atol=atol, rtol=rtol)


def check_equal(case, ctx):
  from waymo_open_dataset.utils import example_utils
  from waymo_open_dataset_standin import example_pb2

  def build(feats):
    ex = example_pb2.Example()
    for n, (k, v) in feats.items():
      lst = getattr(ex.features.feature[n], k + '_list')
      lst.SetInParent()
      lst.value.extend(v)
    return ex

  a, b = dict(case['feats']), dict(case['feats'])
  tol = 1e-3 if case['atol'] is None else case['atol']
  want = True
  for what, n, kind, value, at in case['edits']:
    if what == 'add':
      b['new'] = (kind, value)
      want = False
    elif n not in b:
      continue
    elif what == 'drop':
      del b[n]
      want = False
    elif what == 'length':
      d = {'float': 0.0, 'int64': 0, 'bytes': b''}[b[n][0]]
      b[n] = (b[n][0], list(b[n][1]) + [d])
      want = False
    elif what == 'kind':
      want = want and b[n] == (kind, value)
      b[n] = (kind, value)
      if a[n][0] == kind == 'float':
        want = len(a[n][1]) == len(value) and all(abs(x - y) <= tol for x, y in zip(a[n][1], value))
    elif b[n][1]:
      k, v = b[n]
      v = list(v)
      at %= len(v)
      if k == 'float' and abs(v[at]) < 10:
        v[at] += tol / 4 if what == 'nudge' else 2 * tol + 0.25
        want = want and what == 'nudge'
      elif k == 'int64':
        v[at] += 1
        want = False
      else:
        continue
      b[n] = (k, v)
  ctx.nontrivial(bool(case['edits']) and bool(a))
  ctx.label('equal' if want else 'different')
  kw = {} if case['atol'] is None else dict(atol=case['atol'], rtol=case['rtol'])
  ea, eb = build(a), build(b)
  import contextlib
  import io
  with contextlib.redirect_stdout(io.StringIO()):
    for x, y in ((ea, eb), (eb, ea)):
      ctx.equal(bool(ctx.call(example_utils.examples_equal, x, y, **kw)), want, 'comparison of %r and %r' % (a, b))
    ctx.equal(bool(ctx.call(example_utils.examples_equal, ea, ea, **kw)), True, 'comparison with itself')


SUBS = [Sub('agents and lights', cases, check, 6000, rule='two agents or more and a valid future state'),
        Sub('comparison', pairs, check_equal, 3000, rule='examples that differ in one feature')]
