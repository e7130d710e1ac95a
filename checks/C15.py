"""Aggregation of motion metrics over scenarios, groups and types."""
from hypothesis import strategies as st

from vlib import drv, motion, wod
from vlib.core import Sub
from vlib.driver import i, pack, ui, unpack

prepare = drv.prepare('motion_driver')
close_env = drv.close_env


def open_env(env):
  wod.setup()
  return drv.open_env(env)


@st.composite
def cases(draw):
  cfg = draw(motion.configs(max_future=8))
  n = draw(st.integers(1, 5))
  scs = [draw(motion.scenario(cfg, 's%d' % k, max_tracks=3)) for k in range(n)]
  if draw(st.integers(0, 3)) == 0:  # a prediction of nothing changes nothing
    draw(st.sampled_from(scs))['mm'].insert(0, draw(st.sampled_from([[], [dict(c=1.0, tr=[])]])))
  return dict(cfg=cfg, scs=scs, order=draw(st.permutations(range(n))),
              group=[draw(st.integers(0, 3)) for _ in range(n)], custom=draw(st.booleans()))


# The challenge: 1 s of history and 8 s of future at 10 Hz, predicted at 2 Hz
# and measured at 3, 5 and 8 s.
CHALLENGE = dict(tps=10, pps=2, hist=10, future=80, steps=16, ratio=5, ms=[(5, 1.0, 2.0), (9, 1.8, 3.6), (15, 3.0, 6.0)],
                 k=6, sl=motion.f32(1.4), su=11.0, scl=0.5, scu=1.0)


@st.composite
def challenge(draw):
  scs = [draw(motion.scenario(CHALLENGE, 's%d' % k, max_tracks=2)) for k in range(draw(st.integers(1, 2)))]
  return dict(cfg=CHALLENGE, challenge=True, scs=scs, order=list(range(len(scs))), group=[0] * len(scs), custom=False)


def bundle_of(ctx, m, want, where):
  got = {}
  for b in m.metrics_bundles:
    key = (b.object_filter if b.HasField('object_filter') else 0, b.measurement_step)
    ctx.require(key not in got, 'two bundles for %s%s', key, where)
    got[key] = b
  ctx.equal(sorted(got), sorted(want), 'bundles' + where)
  for key, w in want.items():
    b = got[key]
    at = ' of type %d at step %d%s' % (key + (where,))
    ctx.close(b.min_ade, motion.mean(w.ade), 'minADE' + at, 1e-5, 1e-5)
    ctx.close(b.min_fde, motion.mean(w.fde), 'minFDE' + at, 1e-5, 1e-5)
    if 'match' not in w.bad:
      ctx.close(b.miss_rate, motion.mean(w.miss), 'miss rate' + at, 1e-6, 1e-6)
      if 'shape' not in w.bad:
        ctx.close(b.mean_average_precision, motion.map_metric(w.map), 'mAP' + at, 1e-5, 1e-5)
        ctx.close(b.soft_mean_average_precision, motion.map_metric(w.soft), 'soft mAP' + at, 1e-5, 1e-5)
    if 'over' not in w.bad:
      ctx.close(b.overlap_rate, motion.mean(w.over), 'overlap rate' + at, 1e-6, 1e-6)


def check(case, ctx):
  cfg, order = case['cfg'], case['order']
  scs = [case['scs'][k] for k in order]
  want = motion.reference(cfg, scs)
  M = wod.pb('protos.motion_metrics_pb2').MotionMetrics
  out = ctx.env['drv'].call('bundle', b'' if case.get('challenge') else motion.config_proto(cfg).SerializeToString(),
                            pack([motion.predictions_proto(s).SerializeToString() for s in scs]),
                            pack([motion.scenario_proto(s).SerializeToString() for s in scs]),
                            i(*case['group']), i(int(case['custom'])))
  ctx.equal(ui(out[0])[0], 1, 'accepted')
  direct, grouped = M.FromString(out[1]), M.FromString(out[2])
  for m, where in ((direct, ''), (grouped, ' (grouped)')):
    bundle_of(ctx, m, want, where)
    for b in m.metrics_bundles:
      ctx.equal(set(b.custom_metrics), {'verif'} if case['custom'] else set(), 'custom metrics' + where)
      if case['custom']:
        w = want[(b.object_filter if b.HasField('object_filter') else 0, b.measurement_step)]
        ctx.close(b.custom_metrics['verif'], motion.mean(w.custom), 'custom metric' + where, 1e-2, 1e-6)
  got = {(x['type'], x['step']): x for x in map(motion.decode, unpack(out[3]))}
  names = ('ade', 'fde', 'miss', 'over', 'map', 'soft') + (('custom',) if case['custom'] else ())
  motion.compare(ctx, got, want, names, ' (grouped)')
  across = {}
  for (_, step), w in want.items():
    across.setdefault((-1, step), motion.Stats()).add(w)
  motion.compare(ctx, {(x['type'], x['step']): x for x in map(motion.decode, unpack(out[4]))}, across, names,
                 ' (all types)')
  ctx.nontrivial(bool(want) if case.get('challenge') else len({k[0] for k in want}) > 1 and len(set(case['group'])) > 1)
  if any(not js or not js[0]['tr'] for s in scs for js in s['mm']):
    ctx.label('empty prediction')


SUBS = [Sub('sets', cases, check, 4000, rule='several object types and several groups'),
        Sub('challenge', challenge, check, 300, rule='a measured prediction')]
