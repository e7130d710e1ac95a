"""Real-time detection pipeline: timing a submitted model, collecting its detections."""
import contextlib
import io
import os
import runpy
import shutil
import sys
import tempfile
import time
import types

import numpy as np
from hypothesis import strategies as st

from vlib import tfu, wod
from vlib.core import Sub

HERE = 'src/waymo_open_dataset/latency/'
SENSORS = ('TOP', 'FRONT', 'SIDE_LEFT')
CAMERAS = ('FRONT', 'FRONT_LEFT', 'FRONT_RIGHT', 'SIDE_LEFT', 'SIDE_RIGHT')
FIELDS = ('POSE', 'TIMESTAMP', 'TOP_RANGE_IMAGE_FIRST_RETURN', 'TOP_RANGE_IMAGE_FIRST_RETURN_1', 'TOP_BEAM_INCLINATION', 'SIDE_LEFT_CAM_PROJ_FIRST_RETURN',
          'FRONT_IMAGE', 'FRONT_LEFT_IMAGE', 'SIDE_RIGHT_IMAGE', 'FRONT_IMAGE_1', 'FRONT_WIDTH')


def prepare(tier):
  from vlib import build
  build.gen_protos()
  return {}


def open_env(env):
  wod.setup(shim=True)
  from waymo_open_dataset import dataset_pb2
  from waymo_open_dataset import label_pb2
  from waymo_open_dataset.protos import metrics_pb2
  from vlib import core
  return dict(mp=metrics_pb2, ds=dataset_pb2, lb=label_pb2, dir=os.path.join(core.REPO, HERE))


@contextlib.contextmanager
def scratch():
  d = tempfile.mkdtemp(prefix='verif-latency-')
  try:
    yield d
  finally:
    shutil.rmtree(d)


def script(path, args):
  """Runs a script as __main__ in this process; returns what it printed."""
  argv, out = sys.argv, io.StringIO()
  sys.argv = [path] + args
  try:
    with contextlib.redirect_stdout(out):
      runpy.run_path(path, run_name='__main__')
  finally:
    sys.argv = argv
  return out.getvalue()


class Clock:
  """A clock that only advances when told."""

  NAMES = ('perf_counter', 'monotonic', 'time', 'process_time')

  def __init__(self):
    self.now = 1000.0

  def __enter__(self):
    self.old = {n: getattr(time, n) for n in self.NAMES}
    for n in self.NAMES:
      setattr(time, n, lambda: self.now)
    self.load = np.load
    self.save = np.save

    def slow(fn, cost):
      def f(*a, **k):
        self.now += cost
        return fn(*a, **k)
      return f

    np.load = slow(self.load, 7.0)
    np.save = slow(self.save, 11.0)
    return self

  def __exit__(self, *a):
    for n, f in self.old.items():
      setattr(time, n, f)
    np.load, np.save = self.load, self.save


# ---------------------------------------------------------- detections


def detections(rng, n, two_d, dtypes):
  """Boxes, scores and classes of one frame, many at the limits."""
  box = np.concatenate([rng.uniform(-80, 80, (n, 2 if two_d else 3)), rng.choice([0.005, 0.0099, 0.01, 0.0101, 0.5, 4.0, -1.0], (n, 2 if two_d else 3), p=[.05, .05, .05, .05, .3, .45, .05])], 1)
  if not two_d:
    box = np.concatenate([box, rng.uniform(-3, 3, (n, 1))], 1)
  score = rng.choice([0.0, 0.0299, 0.0301, 0.5, 1.0], n, p=[.05, .15, .2, .3, .3])
  return dict(boxes=box.astype(dtypes[0]), scores=score.astype(dtypes[1]), classes=rng.randint(0, 5, n).astype(dtypes[2]))


def expected(ctx, out, two_d, camera, context, stamp):
  """The Object protos of a frame as a list of plain tuples."""
  want = []
  for b, s, c in zip(out['boxes'], out['scores'], out['classes']):
    dims = b[2:4] if two_d else b[3:6]
    if np.float32(s) < 0.03 or np.any(dims.astype(np.float64) < 0.01):
      continue
    names = ('center_x', 'center_y', 'length', 'width') if two_d else ('center_x', 'center_y', 'center_z', 'length', 'width', 'height', 'heading')
    want.append((context, stamp, float(np.float32(s)), int(c), tuple(sorted(zip(names, map(float, b)))), camera if two_d else None))
  return want


def plain(o):
  box = tuple(sorted((f.name, v) for f, v in o.object.box.ListFields()))
  # Zeros that were set are listed too (proto2).
  extra = {f.name for f, _ in o.ListFields()} - {'context_name', 'frame_timestamp_micros', 'score', 'object', 'camera_name'}
  return (o.context_name, o.frame_timestamp_micros, o.score, o.object.type, box, o.camera_name if o.HasField('camera_name') else None) + tuple(sorted(extra))


DTYPES = [('float32', 'float32', 'uint8'), ('float64', 'float32', 'int64'), ('float32', 'float64', 'int32')]


@st.composite
def frames(draw):
  two_d = draw(st.booleans())
  return dict(seed=draw(tfu.seeds()), n=draw(st.integers(0, 6)), two_d=two_d, dtypes=draw(st.sampled_from(DTYPES)), camera=draw(st.sampled_from(CAMERAS)),
              fields=draw(st.sampled_from(['one', 'one', 'one', 'none', 'several', 'lidar', 'previous', 'unknown'])) if two_d else draw(st.sampled_from(['one', 'none', 'several'])),
              flaw=draw(st.sampled_from(['none', 'none', 'none', 'scores', 'classes', 'type'])))


def collect(ctx):
  return runpy.run_path(ctx.env['dir'] + 'make_objects_file_from_latency_results.py', run_name='latency_objects')['make_object_list_from_subdir']


def check_frame(case, ctx):
  """One result directory becomes the objects it describes."""
  rng = np.random.RandomState(case['seed'])
  out = detections(rng, case['n'], case['two_d'], case['dtypes'])
  cam = case['camera'] + '_IMAGE'
  names = dict(one=[cam], none=None, several=[cam, ('FRONT_WIDTH', 'SIDE_LEFT_IMAGE')[case['seed'] // 2 % 2]][::1 - case['seed'] % 2 * 2], lidar=['TOP_RANGE_IMAGE_FIRST_RETURN'], previous=[cam + '_1'], unknown=['REAR_VIEW_IMAGE'])[case['fields']]
  good = not case['two_d'] or case['fields'] == 'one'
  flaw = case['flaw'] if case['n'] else 'none'
  if flaw == 'scores':
    out['scores'] = out['scores'][:-1]
  elif flaw == 'classes':
    out['classes'] = np.concatenate([out['classes'], out['classes'][:1]])
  elif flaw == 'type':
    out['classes'][-1] = 77
  ctx.label(case['fields'] if case['two_d'] else '3d', flaw)
  with scratch() as d:
    for k, v in out.items():
      np.save(os.path.join(d, k + '.npy'), v)
    if names is not None:
      with open(d + '/input_fields.txt', 'w') as f:
        f.write('\n'.join(names))
    fn = collect(ctx)
    with contextlib.redirect_stdout(io.StringIO()):
      if (not good and case['n']) or flaw != 'none':
        ctx.nontrivial()
        try:
          fn(d, 'ctx', 123)
        except (ValueError, AssertionError):
          return
        ctx.fail('results that cannot be submitted are accepted: inputs %s, flaw %s' % (case['fields'], flaw))
      got = ctx.call(fn, d, 'seg-1', 1550083467346370 + case['seed'])
  camera = ctx.env['ds'].CameraName.Name.Value(case['camera'])
  want = expected(ctx, out, case['two_d'], camera, 'seg-1', 1550083467346370 + case['seed'])
  ctx.nontrivial(0 < len(want) < case['n'])
  ctx.equal([plain(o) for o in got], want, 'objects')


# ------------------------------------------------------------ pipeline


@st.composite
def runs(draw):
  two_d = draw(st.booleans())
  return dict(seed=draw(tfu.seeds()), frames=draw(st.lists(st.integers(0, 3), min_size=0, max_size=3)), two_d=two_d,
              dtypes=draw(st.sampled_from(DTYPES)), fields=[draw(st.sampled_from(CAMERAS)) + '_IMAGE'] if two_d else draw(st.lists(st.sampled_from(FIELDS), max_size=4, unique=True)),
              stray=draw(st.booleans()), flaw=draw(st.sampled_from(['none', 'none', 'none', 'none', 'missing key', 'extra key', 'scores', 'classes'])))


def check_run(case, ctx):
  """Timing a model over a data directory, then collecting its detections."""
  rng = np.random.RandomState(case['seed'])
  data, results, order = {}, {}, []
  with scratch() as d:
    os.makedirs(d + '/in')
    for c, n in enumerate(case['frames']):
      context = 'segment-%d_%d' % (rng.randint(1000), c)
      os.makedirs('%s/in/%s' % (d, context))
      for k in range(n):
        stamp = 1550083467346370 + int(rng.randint(1 << 40)) * 10 + k
        sub = '%s/in/%s/%d' % (d, context, stamp)
        os.makedirs(sub)
        arrays = {}
        for f in set(FIELDS) | set(case['fields']):
          shape = tuple(rng.randint(1, 4, rng.randint(0, 3)))
          arrays[f] = np.asarray(rng.randint(0, 255, shape)).astype(rng.choice(['float32', 'int64', 'uint8']))
          np.save('%s/%s.npy' % (sub, f), arrays[f])
        arrays['id'] = len(data)
        data[context, stamp] = arrays
        results[context, stamp] = detections(rng, int(rng.randint(0, 5)), case['two_d'], case['dtypes'])
      if case['stray']:
        with open('%s/in/%s/README' % (d, context), 'w') as f:
          f.write('x')
    if case['stray']:
      with open(d + '/in/notes.txt', 'w') as f:
        f.write('x')
    clock = Clock()
    costs = {}
    events = []
    bad = case['flaw'] != 'none' and bool(data)

    def run_model(**inputs):
      hits = [k for k, a in data.items() if k not in costs and set(inputs) == set(case['fields']) and
              all(np.array_equal(inputs[f], a[f]) and inputs[f].dtype == a[f].dtype for f in inputs)]
      if not hits:
        events.append('unknown inputs %s' % sorted(inputs))
        raise RuntimeError('unknown inputs')
      events.append('run')
      # Frames with equal requested data are told apart by nothing: any order.
      key = hits[0]
      costs[key] = 0.25 * (1 + len(costs))
      clock.now += costs[key]
      order.append(key)
      out = dict(results[key])
      if case['flaw'] == 'missing key':
        del out['scores']
      elif case['flaw'] == 'extra key':
        out['extra'] = out['scores']
      elif case['flaw'] != 'none':
        out[case['flaw']] = np.concatenate([out[case['flaw']], out[case['flaw']], np.zeros(1, out[case['flaw']].dtype)])
      return out

    def initialize_model():
      events.append('init')
      clock.now += 100.0

    mod = types.ModuleType('wod_latency_submission')
    mod.DATA_FIELDS, mod.run_model, mod.initialize_model = list(case['fields']), run_model, initialize_model
    old = sys.modules.get('wod_latency_submission')
    sys.modules['wod_latency_submission'] = mod
    path = ctx.env['dir'] + 'wod_latency_evaluator.py'
    args = ['--input_data_dir', d + '/in', '--output_dir', d + '/out', '--latency_result_file', d + '/latency.txt']
    try:
      with clock:
        if bad:
          ctx.nontrivial()
          ctx.label(case['flaw'])
          try:
            script(path, args)
          except AssertionError:
            return
          ctx.fail('model output with a flaw (%s) is accepted' % case['flaw'])
        ctx.call(script, path, args)
    finally:
      if old is None:
        del sys.modules['wod_latency_submission']
      else:
        sys.modules['wod_latency_submission'] = old
    ctx.equal(events, ['init'] + ['run'] * len(data), 'calls of the model')
    with open(d + '/latency.txt') as f:
      text = f.read()
    ctx.close([float(x) for x in text.split()], [costs[k] for k in order], 'latencies, one per frame', 1e-6, 0)
    distinct = len({tuple((f, data[k][f].tobytes(), data[k][f].shape) for f in case['fields']) for k in data}) == len(data)
    ctx.nontrivial(len(data) > 1)
    if not distinct:
      ctx.label('equal inputs')
      return
    os.makedirs(d + '/out', exist_ok=True)
    if case['stray']:
      with open(d + '/out/log.txt', 'w') as f:
        f.write('x')
    for (context, stamp), out in results.items():
      sub = '%s/out/%s/%d' % (d, context, stamp)
      for k, v in out.items():
        g = np.load('%s/%s.npy' % (sub, k))
        ctx.require(g.dtype == v.dtype and np.array_equal(g, v), 'saved %s of %s differs', k, sub)
      if case['two_d']:
        with open(sub + '/input_fields.txt') as f:
          ctx.equal(f.read(), case['fields'][0], 'recorded input')
    ctx.call(script, ctx.env['dir'] + 'make_objects_file_from_latency_results.py', ['--results_dir', d + '/out', '--output_file', d + '/objects.bin'])
    objs = ctx.env['mp'].Objects()
    with open(d + '/objects.bin', 'rb') as f:
      objs.ParseFromString(f.read())
  want = []
  for (context, stamp), out in results.items():
    cam = ctx.env['ds'].CameraName.Name.Value(case['fields'][0][:-6]) if case['two_d'] else None
    want += expected(ctx, out, case['two_d'], cam, context, stamp)
  ctx.equal(sorted(map(repr, map(plain, objs.objects))), sorted(map(repr, want)), 'collected objects')
  # Detections of one frame keep their order.
  for key in results:
    ctx.equal([plain(o) for o in objs.objects if (o.context_name, o.frame_timestamp_micros) == key], [w for w in want if w[:2] == key], 'order in frame')


SUBS = [
    Sub('frame', frames, check_frame, 2000, rule='some detections are dropped, or the results are invalid'),
    Sub('run', runs, check_run, 400, rule='several frames, or the model output is invalid'),
]
