"""Python wrappers of the metric ops: accumulation, naming, defaults."""
import numpy as np
from hypothesis import strategies as st

from vlib import tfu, wod
from vlib.core import Sub


def prepare(tier):
  from vlib import build
  build.gen_protos()
  return {}


def open_env(env):
  wod.setup(shim=True)
  import tensorflow as tf
  from waymo_open_dataset import label_pb2
  from waymo_open_dataset.metrics.ops import py_metrics_ops
  from waymo_open_dataset.metrics.python import config_util_py, detection_metrics, matcher, motion_metrics, tracking_metrics, wod_detection_evaluator
  from waymo_open_dataset.protos import breakdown_pb2, metrics_pb2, motion_metrics_pb2
  return dict(tf=tf, lb=label_pb2, br=breakdown_pb2, mp=metrics_pb2, mm=motion_metrics_pb2, ops=py_metrics_ops, names=config_util_py, det=detection_metrics,
              match=matcher, motion=motion_metrics, track=tracking_metrics, ev=wod_detection_evaluator)


class Hook:
  """Records calls of ops and answers with fresh random numbers."""

  def __init__(self, ctx, rng, breakdowns, cutoffs=3):
    self.ctx, self.rng, self.n, self.s = ctx, rng, breakdowns, cutoffs
    self.calls, self.outputs = [], []

  def __enter__(self):
    self.ctx.env['tf'].OP_HOOK = self
    return self

  def __exit__(self, *a):
    self.ctx.env['tf'].OP_HOOK = None

  def __call__(self, op, args, kwargs):
    tf = self.ctx.env['tf']
    val = lambda v: v.numpy() if hasattr(v, 'numpy') else v
    names = {'match': ('prediction_boxes', 'groundtruth_boxes', 'config')}.get(op, ())
    self.calls.append((op, {k: val(v) for k, v in dict(zip(names, args), **kwargs).items()}))
    f = lambda *sh: self.rng.rand(*sh).astype(np.float32)
    n, s = self.n, self.s
    out = {'detection_metrics': lambda: [f(n), f(n), f(n), f(n, s, 5), f(n, s, 2), f(n, s, 2), np.zeros((n, 3), np.uint8)],
           'tracking_metrics': lambda: [f(n) for _ in range(6)] + [np.zeros((n, 3), np.uint8)],
           'motion_metrics': lambda: [f(n) for _ in range(5)],
           'detection_metrics_state': lambda: [f(n, s, 5)],
           'match': lambda: [np.arange(n, dtype=np.int32), np.arange(n, dtype=np.int32)[::-1], f(n), f(n)]}[op]()
    self.outputs.append(out)
    return [tf.constant(o) for o in out]


TYPES = {
    'prediction_frame_id': np.int64, 'prediction_bbox': np.float32, 'prediction_type': np.uint8, 'prediction_score': np.float32, 'prediction_overlap_nlz': np.bool_,
    'ground_truth_frame_id': np.int64, 'ground_truth_bbox': np.float32, 'ground_truth_type': np.uint8, 'ground_truth_difficulty': np.uint8, 'ground_truth_speed': np.float32,
    'prediction_sequence_id': object, 'ground_truth_sequence_id': object, 'prediction_object_id': np.int64, 'ground_truth_object_id': np.int64}


def same(ctx, got, want, what):
  got, want = np.asarray(got), np.asarray(want)
  ctx.equal(got.shape, want.shape, what + ': shape')
  norm = lambda a: [x.decode() if isinstance(x, bytes) else x for x in a.ravel().tolist()]
  ctx.equal(norm(got), norm(want), what)


def joined(batches, key):
  return np.concatenate([np.asarray(b[key]) for b in batches], 0)


# ------------------------------------------------------------- inputs


@st.composite
def histories(draw):
  return dict(seed=draw(tfu.seeds()), batches=draw(st.integers(1, 4)), box=draw(st.sampled_from([(7, 'TYPE_3D'), (5, 'TYPE_2D'), (4, 'TYPE_AA_2D')])),
              speed=draw(st.booleans()), nlz=draw(st.booleans()), gens=draw(st.lists(st.tuples(st.integers(1, 7), st.sampled_from([(), (1,), (2,), (1, 2)])), min_size=1, max_size=3, unique_by=lambda g: g[0])),
              recall=draw(st.sampled_from([None, 0.3, 0.5, 0.95])), filter=draw(st.sampled_from([None, 'VEHICLE', 'LEVEL_1', 'nothing'])), after=draw(st.booleans()))


GENS = ('ONE_SHARD', 'OBJECT_TYPE', 'RANGE', 'SIZE', 'VELOCITY', 'ALL_BUT_SIGN', 'CAMERA')


def make_config(ctx, case):
  c = ctx.env['mp'].Config(box_type=ctx.env['lb'].Label.Box.Type.Value(case['box'][1]), score_cutoffs=[0, 0.5, 1])
  for g, levels in case['gens']:
    c.breakdown_generator_ids.append(ctx.env['br'].Breakdown.GeneratorId.Value(GENS[g - 1]))
    c.difficulties.add(levels=levels)
  return c


def boxes(case, rng, tracking=False):
  m, n, d = rng.randint(0, 5), rng.randint(0, 5), case['box'][0]
  out = {'prediction_frame_id': rng.randint(0, 2**40, m), 'prediction_bbox': rng.uniform(-9, 9, (m, d)).astype(np.float32), 'prediction_type': rng.randint(0, 5, m).astype(np.uint8),
         'prediction_score': rng.rand(m).astype(np.float32), 'prediction_overlap_nlz': rng.rand(m) < 0.5,
         'ground_truth_frame_id': rng.randint(0, 2**40, n), 'ground_truth_bbox': rng.uniform(-9, 9, (n, d)).astype(np.float32), 'ground_truth_type': rng.randint(0, 5, n).astype(np.uint8),
         'ground_truth_difficulty': rng.randint(0, 3, n).astype(np.uint8), 'ground_truth_speed': rng.uniform(-3, 3, (n, 2)).astype(np.float32)}
  if tracking:
    out.update({'prediction_sequence_id': np.array(['s%d' % k for k in rng.randint(0, 3, m)], object), 'ground_truth_sequence_id': np.array(['s%d' % k for k in rng.randint(0, 3, n)], object),
                'prediction_object_id': rng.randint(0, 2**40, m), 'ground_truth_object_id': rng.randint(0, 2**40, n)})
  return out


def optional(case, b, tracking=False):
  """(what the caller passes, what the op must see)."""
  passed, seen = dict(b), dict(b)
  if not case['speed']:
    del passed['ground_truth_speed']
    seen['ground_truth_speed'] = np.zeros_like(b['ground_truth_speed'])
  if tracking and not case['nlz']:
    del passed['prediction_overlap_nlz']
    seen['prediction_overlap_nlz'] = np.zeros_like(b['prediction_overlap_nlz'])
  return passed, seen


def judge_inputs(ctx, call, op, batches, config):
  ctx.equal(call[0], op, 'op')
  keys = dict(call[1])
  ctx.equal(keys.pop('config', None), config.SerializeToString(), 'configuration of the op')
  ctx.equal(sorted(keys), sorted(batches[0]), 'inputs of the op')
  for k, v in keys.items():
    same(ctx, v, joined(batches, k), k + ' of %d updates' % len(batches))
    if TYPES.get(k, object) is not object:
      ctx.equal(np.asarray(v).dtype, np.dtype(TYPES[k]), 'type of ' + k)


def tensors(ctx, d):
  tf = ctx.env['tf']
  return {k: tf.constant(v.tolist(), dtype=tf.string, shape=v.shape) if v.dtype == object else tf.constant(v) for k, v in d.items()}


# ------------------------------------------------------------- evaluator


def check_evaluator(case, ctx):
  rng = np.random.RandomState(case['seed'])
  default = rng.rand() < 0.2
  config = None if default else make_config(ctx, case)
  e = ctx.call(ctx.env['ev'].WODDetectionEvaluator, config)
  if default:
    config = e._config  # pylint: disable=protected-access
    judge_default(ctx, config)
  names = ctx.env['names'].get_breakdown_names_from_config(config)
  seen = []
  with Hook(ctx, rng, len(names)) as hook:
    for k in range(rng.randint(2, 9)):
      step = rng.choice(['update'] * 5 + ['bad', 'evaluate', 'result', 'result', 'reset'])
      if step in ('update', 'bad'):
        p, s = optional(case, boxes(case, rng))
        gt = {k: v for k, v in p.items() if k.startswith('ground')}
        pr = {k: v for k, v in p.items() if k.startswith('pred')}
        if step == 'bad':
          side = gt if rng.rand() < 0.5 else pr
          del side[sorted(k for k in side if k != 'ground_truth_speed')[rng.randint(4)]]
          try:
            e.update_state(gt, pr)
          except ValueError:
            ctx.label('refused update')
            continue
          ctx.fail('an update without a required field is accepted')
        ctx.call(e.update_state, gt, pr)
        seen.append(s)
      elif step == 'reset':
        ctx.call(e.reset_states)
        seen = []
      elif seen:
        before = len(hook.calls)
        got = ctx.call(getattr(e, step))
        ctx.equal(len(hook.calls), before + 1, 'number of ops run by ' + step)
        judge_inputs(ctx, hook.calls[-1], 'detection_metrics', seen, config)
        for a, b in zip(got, hook.outputs[-1]):
          same(ctx, a.numpy(), b, 'result of the evaluator')
        ctx.nontrivial(len(seen) > 1)
        if step == 'result':
          seen = []


def judge_default(ctx, c):
  mp, br, lb = ctx.env['mp'], ctx.env['br'], ctx.env['lb']
  gens = br.Breakdown.GeneratorId
  ctx.equal(list(c.breakdown_generator_ids), [gens.Value('OBJECT_TYPE'), gens.Value('RANGE')], 'default breakdowns')
  ctx.equal([list(d.levels) for d in c.difficulties], [[1, 2], [1, 2]], 'default difficulties')
  ctx.equal((c.matcher_type, c.box_type), (mp.MatcherProto.TYPE_HUNGARIAN, lb.Label.Box.TYPE_3D), 'default matcher and box')
  ctx.close(list(c.iou_thresholds), [0, 0.7, 0.5, 0.5, 0.5], 'default IoU thresholds')
  ctx.close(list(c.score_cutoffs), np.arange(101) / 100, 'default score cutoffs', atol=1e-6)


# ------------------------------------------------------------- metric ops


def check_boxes(case, ctx):
  """get_detection_metric_ops and get_tracking_metric_ops over a session."""
  tf = ctx.env['tf']
  rng = np.random.RandomState(case['seed'])
  config = make_config(ctx, case)
  names = ctx.call(ctx.env['names'].get_breakdown_names_from_config, config)
  tf.LOCAL_VARIABLES.clear()
  for kind in ('det', 'track'):
    tracking = kind == 'track'
    seen = []
    with Hook(ctx, rng, len(names)) as hook:
      for _ in range(case['batches']):
        p, s = optional(case, boxes(case, rng, tracking), tracking)
        seen.append(s)
        extra = {} if tracking else dict(recall_at_precision=case['recall'], name_filter=case['filter'])
        fn = ctx.env[kind].get_tracking_metric_ops if tracking else ctx.env[kind].get_detection_metric_ops
        got = ctx.call(fn, config=config, **tensors(ctx, p), **extra)
        judge_inputs(ctx, hook.calls[-1], 'tracking_metrics' if tracking else 'detection_metrics', seen, config)
        out = hook.outputs[-1]
        want = {}
        for i, n in enumerate(names):
          if tracking:
            want.update({n + '/' + f: out[j][i] for j, f in enumerate(('MOTA', 'MOTP', 'MISS', 'MISMATCH', 'FP'))})
          elif case['filter'] is None or case['filter'] in n:
            want.update({n + '/' + f: out[j][i] for j, f in enumerate(('AP', 'APH', 'APL'))})
            if case['recall'] is not None:
              r = [x[1] for x in out[3][i] if x[0] > case['recall']]
              want['%s/Recall@%s' % (n, case['recall'])] = max(r, default=0.0)
        ctx.equal(sorted(got), sorted(want), 'names of metrics')
        for k, v in want.items():
          ctx.close(float(got[k][0].numpy()), float(v), k)
        # Running every update op accumulates a batch exactly once.
        ctx.equal(sum(isinstance(v[1], tf.Operation) for v in got.values()), 1 if got else 0, 'number of update ops')
    ctx.nontrivial(len(names) > 1 and case['batches'] > 1)


@st.composite
def scenes(draw):
  return dict(seed=draw(tfu.seeds()), batches=draw(st.integers(1, 3)), groups=draw(st.integers(1, 3)), top=draw(st.integers(1, 3)), joint=draw(st.integers(1, 3)), more=draw(st.integers(0, 2)),
              steps=draw(st.integers(1, 3)), gt_steps=draw(st.integers(1, 4)), ids=draw(st.booleans()), scenarios=draw(st.booleans()), measured=draw(st.lists(st.integers(1, 9), min_size=1, max_size=3, unique=True)))


def check_motion(case, ctx):
  tf = ctx.env['tf']
  rng = np.random.RandomState(case['seed'])
  config = ctx.env['mm'].MotionMetricsConfig(track_steps_per_second=10)
  for m in case['measured']:
    config.step_configurations.add(measurement_step=m)
  M, K, N, A, P, G = case['groups'], case['top'], case['joint'], case['joint'] + case['more'], case['steps'], case['gt_steps']
  tf.LOCAL_VARIABLES.clear()
  seen, total = [], 0
  types = dict(prediction_trajectory=np.float32, prediction_score=np.float32, ground_truth_trajectory=np.float32, ground_truth_is_valid=np.bool_,
               prediction_ground_truth_indices=np.int64, prediction_ground_truth_indices_mask=np.bool_, object_type=np.int64, object_id=np.int64)
  with Hook(ctx, rng, 3 * len(case['measured'])) as hook:
    for _ in range(case['batches']):
      B = rng.randint(1, 4)
      b = dict(prediction_trajectory=rng.rand(B, M, K, N, P, 2).astype(np.float32), prediction_score=rng.rand(B, M, K).astype(np.float32),
               ground_truth_trajectory=rng.rand(B, A, G, 7).astype(np.float32), ground_truth_is_valid=rng.rand(B, A, G) < 0.5,
               prediction_ground_truth_indices=rng.randint(0, A, (B, M, N)), prediction_ground_truth_indices_mask=rng.rand(B, M, N) < 0.5,
               object_type=rng.randint(1, 4, (B, A)))
      s = dict(b)
      if case['ids']:
        b['object_id'] = s['object_id'] = rng.randint(0, 2**40, (B, A))
      else:
        s['object_id'] = np.tile(np.arange(A)[None], (B, 1))
      if case['scenarios']:
        b['scenario_id'] = s['scenario_id'] = np.array(['q%d' % (total + i) for i in range(B)], object)
      total += B
      seen.append(s)
      for direct in (True, False):
        if direct:
          ctx.call(ctx.env['ops'].motion_metrics, config=config.SerializeToString(), **tensors(ctx, b))
        else:
          got = ctx.call(ctx.env['motion'].get_motion_metric_ops, config=config, **tensors(ctx, b))
        op, args = hook.calls[-1]
        args = dict(args)
        ctx.equal((op, args.pop('config')), ('motion_metrics', config.SerializeToString()), 'op and configuration')
        sid = [x.decode() if isinstance(x, bytes) else x for x in np.asarray(args.pop('scenario_id')).tolist()]
        batches = seen[-1:] if direct else seen
        if case['scenarios']:
          ctx.equal(sid, joined(batches, 'scenario_id').tolist(), 'scenario ids')
        else:
          rows = len(joined(batches, 'object_type'))
          ctx.equal((len(sid), len(set(sid))), (rows, rows), 'scenario ids (not given) are distinct: %s' % sid)
        ctx.equal(sorted(args), sorted(types), 'inputs of the op')
        for k, v in args.items():
          same(ctx, v, joined(batches, k), k)
          ctx.equal(np.asarray(v).dtype, np.dtype(types[k]), 'type of ' + k)
      want = {}
      out = hook.outputs[-1]
      for t, name in enumerate(('VEHICLE', 'PEDESTRIAN', 'CYCLIST')):
        for i, m in enumerate(case['measured']):
          for j, f in enumerate(('minADE', 'minFDE', 'MissRate', 'OverlapRate', 'mAP')):
            want['TYPE_%s_%d/%s' % (name, m, f)] = out[j][t * len(case['measured']) + i]
      ctx.equal(sorted(got), sorted(want), 'names of motion metrics')
      for k, v in want.items():
        ctx.close(float(got[k][0].numpy()), float(v), k)
      ctx.equal(sum(isinstance(v[1], tf.Operation) for v in got.values()), 1, 'number of update ops')
  ctx.label('all agents in one prediction' if A == N else 'more agents than predicted jointly')
  ctx.nontrivial(case['batches'] > 1)


def check_direct(case, ctx):
  """Thin wrappers of detection, state, tracking, and the matcher."""
  tf, ops = ctx.env['tf'], ctx.env['ops']
  rng = np.random.RandomState(case['seed'])
  config = make_config(ctx, case)
  for name in ('detection_metrics', 'detection_metrics_state', 'tracking_metrics'):
    tracking = name == 'tracking_metrics'
    with Hook(ctx, rng, 2) as hook:
      p, s = optional(case, boxes(case, rng, tracking), tracking)
      ctx.call(getattr(ops, name), config=config.SerializeToString(), **tensors(ctx, p))
      judge_inputs(ctx, hook.calls[-1], name, [s], config)
  d = case['box'][0]
  b = rng.randint(1, 3) if rng.rand() < 0.5 else None
  shape = lambda n: ((b,) if b else ()) + (n, d)
  pr, gt = rng.rand(*shape(rng.randint(0, 4))).astype(np.float32), rng.rand(*shape(rng.randint(0, 4))).astype(np.float32)
  iou, kind = float(np.float32(rng.rand())), ctx.env['lb'].Label.Box.Type.Value(case['box'][1])
  let = None
  if rng.rand() < 0.5:
    let = ctx.env['mp'].Config.LongitudinalErrorTolerantConfig(enabled=True, longitudinal_tolerance_percentage=float(np.float32(rng.rand())))
  mt = ctx.env['mp'].MatcherProto
  method = [None, mt.TYPE_HUNGARIAN, mt.TYPE_SCORE_FIRST][rng.randint(3)]
  kw = {} if method is None else dict(matcher_type=method)
  with Hook(ctx, rng, 3) as hook:
    got = ctx.call(ctx.env['match'].match, tf.constant(pr), tf.constant(gt), iou, kind, let_metric_config=let, **kw)
  op, args = hook.calls[-1]
  ctx.equal(op, 'match', 'op')
  same(ctx, args['prediction_boxes'], pr if b else pr[None], 'predicted boxes')
  same(ctx, args['groundtruth_boxes'], gt if b else gt[None], 'ground truth boxes')
  c = ctx.env['mp'].Config.FromString(args['config'])
  ctx.equal((c.box_type, c.matcher_type), (kind, mt.TYPE_HUNGARIAN if method is None else method), 'box and matcher type')
  ctx.close(list(c.iou_thresholds)[1:], [iou] * 4, 'IoU thresholds')
  ctx.equal(c.HasField('let_metric_config'), let is not None, 'longitudinal tolerance')
  if let is not None:
    ctx.equal(c.let_metric_config, let, 'longitudinal tolerance')
  for f, o in zip(('prediction_ids', 'groundtruth_ids', 'ious', 'longitudinal_affinities'), hook.outputs[-1]):
    same(ctx, getattr(got, f).numpy(), o, f)
  ctx.nontrivial()


SUBS = [
    Sub('evaluator', histories, check_evaluator, 800, rule='more than one update is evaluated'),
    Sub('boxes', histories, check_boxes, 800, rule='several breakdowns and batches'),
    Sub('motion', scenes, check_motion, 800, rule='several batches'),
    Sub('direct', histories, check_direct, 600, rule='any'),
]
