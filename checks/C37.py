"""Camera panoptic labels: codec, consistent instance ids, colours, evaluation."""
import numpy as np
from hypothesis import strategies as st

from vlib import tfu, wod
from vlib.core import Sub


def prepare(tier):
  from vlib import build
  build.gen_protos()
  return {}


def open_env(env):
  wod.setup(shim=True)
  import tensorflow as tf
  from waymo_open_dataset import dataset_pb2
  from waymo_open_dataset.protos import camera_segmentation_pb2
  from waymo_open_dataset.utils import camera_segmentation_utils
  from waymo_open_dataset.v2.perception.compat_v1 import interfaces, segmentation
  from waymo_open_dataset.wdl_limited.camera_segmentation import camera_segmentation_metrics
  return dict(tf=tf, ds=dataset_pb2, cs=camera_segmentation_pb2, ut=camera_segmentation_utils, inter=interfaces, seg=segmentation, me=camera_segmentation_metrics)


# ------------------------------------------------------------- labels


@st.composite
def videos(draw):
  return dict(seed=draw(tfu.seeds()), frames=draw(st.integers(1, 5)), sequences=draw(st.integers(1, 3)), size=draw(st.tuples(st.integers(1, 4), st.integers(1, 4))),
              divisors=draw(st.sampled_from([(1000,), (1000,), (20,), (8,), (100, 1000), (1000, 30)])), top=draw(st.sampled_from([3, 6, 19, 25, 60, 1000, 1200])),
              mapped=draw(st.sampled_from(['all', 'all', 'all', 'some', 'none', 'frames'])), coverage=draw(st.sampled_from(['all', 'all', 'none'])),
              remap=draw(st.sampled_from([True, True, True, False])), sequential=draw(st.booleans()), new=draw(st.sampled_from([None, None, None, 5, 20, 1000, 2000])), old=draw(st.booleans()))


def make_labels(ctx, case, rng):
  """Protos, and what each says: semantic, instance, {local: (global, tracked)}, sequence, coverage."""
  ds = ctx.env['ds']
  out, truth = [], []
  for f in range(case['frames']):
    div = case['divisors'][f % len(case['divisors'])]
    shape = case['size'] + (1,)
    ids = rng.choice(np.arange(1, div), size=min(div - 1, rng.randint(1, 5)), replace=False)
    sem = rng.randint(0, min(29, 65535 // div - 1), shape)
    ins = np.where(rng.rand(*shape) < 0.75, ids[rng.randint(0, len(ids), shape)], 0)
    seq = 'seq%d' % rng.randint(case['sequences'])
    p = ds.CameraSegmentationLabel(panoptic_label_divisor=div, sequence_id=seq, panoptic_label=tfu.png((sem * div + ins).astype(np.uint16)[:, :, 0]))
    maps = {}
    if case['mapped'] != 'none' and not (case['mapped'] == 'frames' and f % 2):
      gids = rng.choice(np.arange(1, case['top'] + 5), size=len(ids), replace=False)
      for l, g in zip(ids, gids):
        if case['mapped'] == 'some' and rng.rand() < 0.4:
          continue
        maps[int(l)] = (int(g), bool(rng.rand() < 0.5))
        p.instance_id_to_global_id_mapping.add(local_instance_id=int(l), global_instance_id=int(g), is_tracked=maps[int(l)][1])
    cov = None
    if case['coverage'] == 'all':
      cov = rng.randint(1, 6, shape).astype(np.uint8)
      p.num_cameras_covered = tfu.png(cov[:, :, 0])
    out.append(p)
    truth.append((sem, ins, maps, seq, cov, div))
  return out, truth


def to_v2(ctx, labels):
  ds, inter = ctx.env['ds'], ctx.env['inter']
  out = []
  for k, l in enumerate(labels):
    frame = ds.Frame(context={'name': 'c'}, timestamp_micros=k)
    image = ds.CameraImage(name=1 + k % 5, camera_segmentation_label=l)
    out += list(ctx.call(ctx.env['seg'].CameraSegmentationLabelComponentExtractor(), inter.CameraImageComponentSrc(frame, image)))
  return out


def model(case, truth):
  """(smallest divisor for which success is demanded, divisor expected when none is requested or None)."""
  seqs = {}
  for _, _, maps, seq, _, _ in truth:
    seqs.setdefault(seq, set()).update(g for g, _ in maps.values())
  n = sum(map(len, seqs.values()))
  bound = n if case['sequential'] else sum(max(s) for s in seqs.values() if s)
  return seqs, bound


def check_decode(case, ctx):
  rng = np.random.RandomState(case['seed'])
  labels, truth = make_labels(ctx, case, rng)
  before = [l.SerializeToString() for l in labels]
  ut = ctx.env['ut']
  fn = ut.decode_multi_frame_panoptic_labels_from_protos if case['old'] else ut.decode_multi_frame_panoptic_labels_from_segmentation_labels
  seqs, bound = model(case, truth)
  top_local = max(int(t[1].max()) for t in truth)
  kept = 0  # the largest id that no mapping replaces
  for sem, ins, maps, seq, cov, div in truth:
    left = [v for v in np.unique(ins) if not (case['remap'] and int(v) in maps)]
    kept = max([kept] + [int(v) for v in left])
  base = case['new'] if case['new'] is not None else truth[0][5]
  remapped = case['remap'] and any(seqs.values())
  if case['new'] is None and remapped:
    must = base > max(kept, top_local) or bound >= max(kept, top_local)
  else:
    must = base > max(top_local, kept, bound if remapped else 0)
  results = []
  for version, src in (('v1', labels), ('v2', to_v2(ctx, labels))):
    import warnings
    try:
      with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        results.append(fn(src, case['remap'], case['sequential'], case['new']))
    except ValueError as e:
      if must:
        ctx.fail('%s labels whose ids are below the divisor were refused: %s' % (version, e))
      results.append(None)
      ctx.label('refused')
  ctx.equal([l.SerializeToString() for l in labels], before, 'labels after decoding')
  ctx.equal(results[0] is None, results[1] is None, 'refusal of v1 and v2 labels')
  if results[0] is None:
    return
  for a, b in zip(results[0][:3], results[1][:3]):
    for x, y in zip(a, b):
      ctx.require(np.array_equal(x, y), 'v1 and v2 labels decode differently')
  ctx.equal(int(results[0][3]), int(results[1][3]), 'divisor of v1 and v2 labels')
  panoptic, tracked, covered, divisor = results[0]
  ctx.equal([len(panoptic), len(tracked), len(covered)], [len(labels)] * 3, 'number of frames')
  if case['new'] is not None:
    ctx.equal(int(divisor), case['new'], 'requested divisor')
  elif not remapped:
    ctx.equal(int(divisor), base, 'divisor')
  else:
    ctx.require(divisor >= base, 'divisor %d is below that of the first label', divisor)
    if max(bound, kept) < base:
      ctx.equal(int(divisor), base, 'divisor although it was sufficient')
  names, used = {}, {}
  for f, (sem, ins, maps, seq, cov, div) in enumerate(truth):
    got = np.asarray(panoptic[f])
    ctx.equal(got.shape, sem.shape, 'shape of the panoptic label')
    ctx.equal(got.dtype, np.dtype(np.uint32), 'type of the panoptic label')
    s, i = ut.decode_semantic_and_instance_labels_from_panoptic_label(got, int(divisor))
    ctx.require(np.array_equal(s, sem), lambda: 'frame %d: semantic classes %s became %s (divisor %d)' % (f, sem.ravel().tolist(), s.ravel().tolist(), divisor))
    want_tracked = np.zeros(sem.shape, int)
    for l in np.unique(ins).tolist():
      at = ins == l
      new = np.unique(i[at]).tolist()
      ctx.require(len(new) == 1, 'frame %d: instance %d was split into %s', f, l, new)
      if case['remap'] and l in maps:
        key = (seq, maps[l][0])
        ctx.equal(names.setdefault(key, new[0]), new[0], 'id of global instance %s in frame %d' % (key, f))
        ctx.equal(used.setdefault(new[0], key), key, 'global instance with id %d' % new[0])
        want_tracked[at] = maps[l][1]
      else:
        ctx.equal(new[0], l, 'frame %d: id without mapping' % f)
    ctx.require(np.array_equal(np.asarray(tracked[f]).astype(int), want_tracked), lambda: 'frame %d: tracked mask %s, expected %s' % (f, np.asarray(tracked[f]).ravel().tolist(), want_tracked.ravel().tolist()))
    want = np.ones(sem.shape, np.uint8) if cov is None else cov
    ctx.require(np.array_equal(covered[f], want) and np.asarray(covered[f]).shape == want.shape, 'frame %d: camera coverage', f)
  if case['remap'] and not case['sequential'] and case['sequences'] == 1:
    for (seq, g), n in names.items():
      ctx.equal(n, g, 'global id within a single sequence')
  if case['remap'] and case['sequential']:
    total = sum(map(len, seqs.values()))
    ctx.require(all(1 <= v <= total for v in names.values()), 'sequential ids %s for %d instances', sorted(names.values()), total)
  if len(names) > 1:
    ctx.nontrivial()
  ctx.label('remapped' if remapped else 'kept', 'grown' if divisor > base else 'same divisor')


# ------------------------------------------------------------- encoding


@st.composite
def predictions(draw):
  return dict(seed=draw(tfu.seeds()), size=draw(st.tuples(st.integers(1, 5), st.integers(1, 5))), divisor=draw(st.sampled_from([10, 300, 1000, 100000])), new=draw(st.sampled_from([2, 5, 1000, 1023, 4000])),
              instances=draw(st.integers(0, 12)), classes=draw(st.sampled_from([1, 5, 29])), dtype=draw(st.sampled_from(['int32', 'int64', 'uint32'])))


def check_save(case, ctx):
  rng = np.random.RandomState(case['seed'])
  ut = ctx.env['ut']
  div, shape = case['divisor'], case['size'] + (1,)
  ids = np.r_[0, rng.choice(np.arange(1, div), size=min(div - 1, case['instances']), replace=False)]
  sem = rng.randint(0, case['classes'], shape)
  ins = ids[rng.randint(0, len(ids), shape)]
  pan = (sem * div + ins).astype(case['dtype'])
  enc = ctx.call(ut.encode_semantic_and_instance_labels_to_panoptic_label, sem, ins, div)
  ctx.require(np.array_equal(enc, pan) and enc.dtype == np.uint32, 'encoded panoptic label %s, expected %s', enc.ravel().tolist(), pan.ravel().tolist())
  s, i = ctx.call(ut.decode_semantic_and_instance_labels_from_panoptic_label, pan, div)
  ctx.require(np.array_equal(s, sem) and np.array_equal(i, ins), 'decoded semantic and instance labels')
  for bad in (0, -3):
    try:
      ut.decode_semantic_and_instance_labels_from_panoptic_label(pan, bad)
      ctx.fail('a divisor of %d was accepted' % bad)
    except ValueError:
      pass
  n = len(np.unique(ins[ins > 0]))
  need = max(case['new'], n + 1)
  try:
    proto = ut.save_panoptic_label_to_proto(pan.copy(), div, 'here', case['new'])
  except ValueError as e:
    ctx.require(int(sem.max()) * need + n >= 65535, 'a label that fits was refused: %s', e)
    ctx.label('refused')
    return
  ctx.require(int(sem.max()) * need + n < 65536 or int((sem * need).max()) < 65536, 'a label that overflows uint16 was accepted')
  ctx.equal(proto.sequence_id, 'here', 'sequence id')
  d = proto.panoptic_label_divisor
  ctx.require(d >= case['new'] and d > n, 'divisor %d for %d instances, %d requested', d, n, case['new'])
  if n < case['new']:
    ctx.equal(d, case['new'], 'divisor')
  raw = ctx.call(ut.decode_single_panoptic_label_from_proto, proto)
  ctx.equal(raw.dtype, np.dtype(np.uint16), 'type')
  s, i = np.divmod(raw, d)
  ctx.require(np.array_equal(s, sem), 'stored semantic classes %s, expected %s', s.ravel().tolist(), sem.ravel().tolist())
  ctx.require(np.array_equal(i == 0, ins == 0), 'pixels without instance')
  stored = sorted(set(i.ravel().tolist()) - {0})
  ctx.equal(stored, list(range(1, n + 1)), 'compact instance ids')
  maps = {m.local_instance_id: m.global_instance_id for m in proto.instance_id_to_global_id_mapping}
  ctx.equal(len(maps), len(proto.instance_id_to_global_id_mapping), 'mappings per instance')
  ctx.equal(sorted(maps), stored, 'instances with a mapping')
  ctx.require(np.array_equal(np.vectorize(lambda v: maps.get(v, 0))(i), ins), 'the mapping does not restore the instance ids')
  for src in ([proto], to_v2(ctx, [proto])):
    pans, _, _, dd = ctx.call(ut.decode_multi_frame_panoptic_labels_from_segmentation_labels, src)
    s, i = np.divmod(pans[0], np.uint32(dd))
    ctx.require(np.array_equal(s, sem) and np.array_equal(i, ins), lambda: 'saved and decoded: %s / %s, expected %s / %s' % (s.ravel().tolist(), i.ravel().tolist(), sem.ravel().tolist(), ins.ravel().tolist()))
  if n > 1:
    ctx.nontrivial()


# ------------------------------------------------------------- colours


@st.composite
def pictures(draw):
  return dict(seed=draw(tfu.seeds()), size=draw(st.tuples(st.integers(1, 5), st.integers(2, 5))), custom=draw(st.booleans()), last=draw(st.booleans()), dtype=draw(st.sampled_from(['int32', 'int64', 'uint8', 'uint16', 'uint32'])), instances=draw(st.sampled_from([1, 4, 200])))


def check_colour(case, ctx):
  rng = np.random.RandomState(case['seed'])
  ut, cs = ctx.env['ut'], ctx.env['cs']
  types = sorted(cs.CameraSegmentation.Type.values())
  if case['custom']:
    chosen = {int(c): rng.randint(0, 256, 3).tolist() for c in rng.choice(30, size=rng.randint(1, 8), replace=False)}
    cmap = ctx.call(ut._generate_color_map, chosen)
    want = np.zeros((max(chosen) + 1, 3), int)
    for c, v in chosen.items():
      want[c] = v
  else:
    cmap = ctx.call(ut._generate_color_map)
    want = np.array([ut.SEGMENTATION_COLOR_MAP[t] for t in types])
    ctx.require(np.array_equal(cmap, ut.DEFAULT_COLOR_MAP), 'default colours')
    ctx.equal(len(want), max(types) + 1, 'classes')
  ctx.require(np.array_equal(cmap, want) and cmap.dtype == np.uint8, 'colour map %s, expected %s', cmap.tolist(), want.tolist())
  shape = case['size'] + ((1,) if case['last'] else ())
  sem = rng.randint(0, len(cmap), shape).astype(case['dtype'])
  ins = (rng.randint(0, case['instances'] + 1, shape) * (rng.rand(*shape) < 0.6)).astype(case['dtype'])
  kw = {} if not case['custom'] else {'color_map': cmap}
  flat_s, flat_i = sem.reshape(case['size']), ins.reshape(case['size']).astype(int)
  rgb = ctx.call(ut.semantic_label_to_rgb, sem, **kw)
  ctx.require(np.array_equal(rgb, want[flat_s]), 'semantic colours')
  before = cmap.copy()
  pan = ctx.call(ut.panoptic_label_to_rgb, sem, ins, **kw)
  ctx.require(np.array_equal(cmap, before) and np.array_equal(ut.DEFAULT_COLOR_MAP, ut._generate_color_map()), 'the colour map changed')
  ctx.equal(pan.shape, case['size'] + (3,), 'shape of the picture')
  ctx.equal(pan.dtype, np.dtype(np.uint8), 'type of the picture')
  base = want[flat_s]
  ctx.require(np.array_equal(pan[..., 0], base[..., 0]) and np.array_equal(pan[..., 2], base[..., 2]), 'red and blue are those of the class')
  # Small id types cannot hold id * prime: the offset is only specified without overflow.
  if flat_i.max() * 41 < np.iinfo(case['dtype']).max:
    green = base[..., 1] + np.where(flat_i > 0, flat_i * 41 % 100 - 50, 0)
    ok = (pan[..., 1] == green % 256) | (pan[..., 1] == np.clip(green, 0, 255))
    ctx.require(ok.all(), lambda: 'green %s, expected %s' % (pan[..., 1].tolist(), green.tolist()))
  ctx.require(np.array_equal(pan[flat_i == 0], base[flat_i == 0]), 'colour of pixels without instance')
  if (flat_i > 0).any():
    ctx.nontrivial()


# ------------------------------------------------------------- frames


@st.composite
def recordings(draw):
  return dict(frames=draw(st.lists(st.tuples(st.booleans(), st.sampled_from('aaab')), max_size=8)), first=draw(st.sampled_from([None, 1, 2, 3, 5])))


def check_frames(case, ctx):
  tf, ds = ctx.env['tf'], ctx.env['ds']
  data = []
  for k, (seg, seq) in enumerate(case['frames']):
    f = ds.Frame(timestamp_micros=k)
    f.images.add(name=1)
    if seg:
      f.images[0].camera_segmentation_label.panoptic_label = b'x%d' % k
      f.images[0].camera_segmentation_label.sequence_id = seq
    data.append(f)
  read = []

  def stream():
    for k, f in enumerate(data):
      read.append(k)
      yield tf.constant(f.SerializeToString())
  kw = {} if case['first'] is None else {'keep_first_k': case['first']}
  frames, sequence = ctx.call(ctx.env['ut'].load_frames_with_labels_from_dataset, stream(), **kw)
  labelled = [(k, seq) for k, (seg, seq) in enumerate(case['frames']) if seg]
  if not labelled:
    ctx.equal((frames, sequence), ([], None), 'frames without labels')
    return
  want = []
  for k, seq in labelled:
    if seq != labelled[0][1] or len(want) >= (case['first'] or 3):
      break
    want.append(k)
  ctx.equal(sequence, labelled[0][1], 'sequence id')
  ctx.equal([f.timestamp_micros for f in frames], want, 'frames kept of sequence %s' % sequence)
  for f in frames:
    ctx.equal(f, data[f.timestamp_micros], 'frame')
  if len(want) > 1:
    ctx.nontrivial()
  ctx.label('all' if len(want) == len(labelled) else 'cut')


# ------------------------------------------------------------- evaluation


@st.composite
def evaluations(draw):
  return dict(seed=draw(tfu.seeds()), sequences=draw(st.lists(st.integers(1, 4), min_size=1, max_size=3)), size=draw(st.tuples(st.integers(1, 4), st.integers(1, 4))), offset=draw(st.sampled_from([None, 1 << 20])),
              wrong=draw(st.sampled_from([None, None, None, 'pred', 'cov', 'tracked'])), ids=draw(st.booleans()))


def check_evaluate(case, ctx):
  rng = np.random.RandomState(case['seed'])
  me = ctx.env['me']
  config = ctx.call(me.get_eval_config)
  div = config.panoptic_label_divisor
  objects, want = [], []
  for q, n in enumerate(case['sequences']):
    shape = case['size']
    lab = lambda: [rng.randint(0, config.num_classes, shape).astype(np.int64) * div + rng.randint(0, 4, shape) for _ in range(n)]
    true, pred = lab(), lab()
    cov = [rng.randint(0 if rng.rand() < 0.2 else 1, 6, shape).astype(np.uint8) for _ in range(n)]
    tracked = [rng.randint(0, 2, shape).astype(rng.choice(['uint8', 'bool'])) for _ in range(n)]
    kw = {}
    if case['ids']:
      kw['sequence_id'] = 's%d' % q
    if case['offset']:
      kw['offset'] = case['offset']
    if case['wrong']:
      args = dict(pred=pred, cov=cov, tracked=tracked)
      args[case['wrong']] = args[case['wrong']][1:] if rng.rand() < 0.5 else args[case['wrong']] * 2
      try:
        me.get_metric_object_by_sequence(true, args['pred'], args['cov'], args['tracked'], **kw)
        ctx.fail('inconsistent numbers of frames were accepted (%s)' % case['wrong'])
      except ValueError:
        pass
      continue
    copies = [[a.copy() for a in x] for x in (true, pred, cov, tracked)]
    obj = ctx.call(me.get_metric_object_by_sequence, true, pred, cov, tracked, **kw)
    for x, y in zip((true, pred, cov, tracked), copies):
      ctx.require(all(np.array_equal(a, b) for a, b in zip(x, y)), 'the evaluation changed its input')
    ctx.equal(obj.config, (config.num_classes, tuple(config.class_has_instances_list), config.ignore_label, div, case['offset'] or 256**3), 'configuration of the metric')
    ctx.equal(len(obj.updates), n, 'updates')
    for k, (t, p, s, w) in enumerate(obj.updates):
      exp = np.where(tracked[k] == 0, true[k] // div * div, true[k])
      ctx.require(np.array_equal(t, exp), lambda: 'frame %d: ground truth %s, expected %s' % (k, t.tolist(), exp.tolist()))
      ctx.require(np.array_equal(p, pred[k]), 'frame %d: prediction', k)
      ctx.equal(s, kw.get('sequence_id', 0), 'sequence id')
      ok = cov[k] > 0
      ctx.close(np.asarray(w)[ok], 1 / cov[k][ok].astype(float), 'frame %d: weights' % k, rtol=1e-5)
      ctx.require(np.isfinite(w).all(), 'frame %d: weights of uncovered pixels', k)
      want.append((exp, pred[k], np.asarray(w)))
    objects.append(obj)
  if case['wrong']:
    return
  counts = [len(o.updates) for o in objects]
  got = ctx.call(me.aggregate_metrics, objects)
  ctx.equal([len(o.updates) for o in objects], counts, 'state of the metrics after aggregation')
  tot = sum(float(w.sum()) for _, _, w in want) or 1.0
  ctx.close([got.wstq, got.waq, got.miou], [sum(float((w * (t == p)).sum()) for t, p, w in want) / tot, sum(float((w * (t % 7 == p % 7)).sum()) for t, p, w in want) / tot, 1 / (1 + len(want))], 'wSTQ, wAQ, mIoU', atol=1e-6, rtol=1e-5)
  ctx.equal(ctx.call(me.aggregate_metrics, objects), got, 'second aggregation')
  if len(want) > 1:
    ctx.nontrivial()


SUBS = [
    Sub('decode', videos, check_decode, 1200, rule='at least two global instances'),
    Sub('save', predictions, check_save, 800, rule='at least two instances'),
    Sub('colour', pictures, check_colour, 500, rule='an instance is coloured'),
    Sub('frames', recordings, check_frames, 600, rule='more than one frame is kept'),
    Sub('evaluate', evaluations, check_evaluate, 500, rule='more than one frame is evaluated'),
]
