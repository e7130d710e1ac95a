"""Command line tools, run on generated files, against the library."""
import os
import random
import re
import shutil
import signal
import subprocess
import tempfile
import zlib

from hypothesis import strategies as st

from checks import C09
from vlib import build, det, drv, wod
from vlib.core import Sub
from vlib.driver import Driver, i, pack, unpack

T = '//waymo_open_dataset/metrics/tools:'
TOOLS = dict(detection=T + 'compute_detection_metrics_main', let=T + 'compute_detection_let_metrics_main',
             tracking=T + 'compute_tracking_metrics_main', segmentation=T + 'compute_segmentation_metrics_main',
             submission=T + 'create_submission',
             compare='//waymo_open_dataset/latency:compare_objects_file_to_submission_main')
OBJECT_TYPE, RANGE = 2, 3
CUTS = [k * 0.01 for k in range(100)] + [1.0]


def prepare(tier):
  out = {k: build.build('', [v], san=(tier == 'thorough')) for k, v in TOOLS.items()}
  out.update(drv.prepare('det_driver')(tier))
  return out


def open_env(env):
  wod.setup()
  return dict(env, drv=Driver(env['driver']), dir=tempfile.mkdtemp(prefix='wod-tools-'))


def close_env(env):
  env['drv'].stop()
  shutil.rmtree(env['dir'], ignore_errors=True)


def run(ctx, tool, *args):
  """-> exit status, stdout. A crash other than a failed CHECK is a violation."""
  r = subprocess.run([ctx.env[tool]] + list(args), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300,
                     env=dict(os.environ, TF_CPP_MIN_LOG_LEVEL='3'))
  err = r.stderr.decode(errors='replace')
  if r.returncode < 0:
    ctx.require(r.returncode == -signal.SIGABRT and 'Check failure stack trace' in err,
                '%s was ended by signal %d: %s', tool, -r.returncode, err[-600:])
  ctx.require('AddressSanitizer' not in err and 'runtime error' not in err, '%s: %s', tool, err[-1500:])
  ctx.env['err'] = err[-700:]
  return r.returncode, r.stdout.decode(errors='replace')


def write(ctx, name, data):
  p = os.path.join(ctx.env['dir'], name)
  with open(p, 'wb') as f:
    f.write(data)
  return p


def objects_file(objs):
  M = wod.pb('protos.metrics_pb2')
  return M.Objects(objects=objs).SerializeToString()


# ---- detection ---------------------------------------------------------------
NAMES = ['a', 'a_1', '', 'b', '1005081002024129653_5313_150_5333_150', 'é']
POINTS = [None, 0, 1, 4, 5, 6, 100, -1]


@st.composite
def keys(draw, cams=(None, 1, 2, 8)):
  return draw(st.lists(st.tuples(st.sampled_from(NAMES), st.sampled_from([0, 1, 10, 1550083467346370, -5, 2**62]),
                                 st.sampled_from(cams)), min_size=1, max_size=4, unique=True))


@st.composite
def det_cases(draw, let=False):
  # The camera breakdown knows the five cameras of the dataset only.
  ks = draw(keys((None, None, 1, 2, 5) if let else (None, 1, 2, 8)))
  frames = []
  for k in ks:
    fr = draw(det.frame(5, 5))
    for g in fr['g']:
      g['pts'] = draw(st.sampled_from(POINTS + [6, 100]))
      g['top'] = draw(st.sampled_from(POINTS + [6, 100]))
      if draw(st.integers(0, 2)) == 0:
        g.pop('dd')
      if let:
        g['sync'] = [v + draw(st.sampled_from([0.0, 0.0, 0.2, 30.0])) if j < 2 else v for j, v in enumerate(g['b'])]
        if draw(st.integers(0, 3)):
          g['vis'] = draw(st.sampled_from(det.VIS + ['FRONT']))
        elif draw(st.booleans()):
          g['vis'] = ''
        elif g.get('vis') in det.NOT_VIS:
          g.pop('vis')
    frames.append((k, fr))
  return dict(frames=frames, seed=draw(st.integers(0, 999)), bad=draw(st.sampled_from([0] * 12 + [1, 2, 3])), let=let)


def proto(o, key, extra=True):
  x = det.to_proto(o)
  x.context_name, x.frame_timestamp_micros = key[0], key[1]
  if key[2] is not None:
    x.camera_name = key[2]
  if o.get('pts') is not None:
    x.object.num_lidar_points_in_box = o['pts']
  if o.get('top') is not None:
    x.object.num_top_lidar_points_in_box = o['top']
  if o.get('vis') == '':
    x.object.most_visible_camera_name = ''
  if o.get('sync'):
    b = x.object.camera_synced_box
    (b.center_x, b.center_y, b.center_z, b.length, b.width, b.height, b.heading) = o['sync']
  return x


def grouped(objs):
  out = {}
  for o in objs:
    out.setdefault((o.context_name, o.frame_timestamp_micros, o.camera_name), []).append(o.SerializeToString())
  return out


def det_config(let):
  gens = [(OBJECT_TYPE, [2]), (RANGE, [2]), (det.CAMERA, [2])] if let else [(OBJECT_TYPE, [1, 2]), (RANGE, [1, 2])]
  case = dict(gens=gens, cut=CUTS, kind=1, type=1,
              thr=[0.0, 0.5, 0.3, 0.3, 0.3] if let else [0.0, 0.7, 0.5, 0.5, 0.5])
  if let:
    case['let'] = dict(s=[1.43, 0, 2.18], pct=0.1, tol=0.5, align=2)
  return case


def expected_names(gens):
  return ['%s_LEVEL_%d' % (det.shard_name(g, s), l) for g, ls in gens for s in range(det.n_shards(g)) for l in ls]


def table(out):
  rows = []
  for line in out.splitlines():
    m = re.fullmatch(r'(\S.*?): (\[.*\])', line)
    if m:
      rows.append((m.group(1), re.findall(r'\[(\S+) ([^\]]+)\]', m.group(2))))
  return rows


def check_rows(ctx, out, gens, ms, fields):
  rows = table(out)
  ctx.equal([r[0] for r in rows], expected_names(gens), 'rows')
  for (name, vals), m in zip(rows, ms):
    ctx.equal([v[0] for v in vals], [k for k, _ in fields], 'columns of ' + name)
    ctx.close([float(v[1]) for v in vals], [getattr(m, a) for _, a in fields], name, 1e-5, 1e-5)


def check_detection(case, ctx):
  M = wod.pb('protos.metrics_pb2')
  let = case['let']
  rnd = random.Random(case['seed'])
  pds = [proto(o, k) for k, fr in case['frames'] for o in fr['p']]
  gts = [proto(o, k) for k, fr in case['frames'] for o in fr['g']]
  if case['seed'] % 2:
    rnd.shuffle(pds)
    rnd.shuffle(gts)
  files = [objects_file(pds), objects_file(gts)]
  tool = 'let' if let else 'detection'
  if case['bad']:
    which = case['bad'] % 2
    files[which] = [files[which] + b'\x0a\x7f', files[which][:-1] + b'\x0f\xff'][case['bad'] == 3]
  paths = [write(ctx, n, d) for n, d in zip(('p', 'g'), files)]
  rc, out = run(ctx, tool, *paths)
  if not files[1]:
    ctx.require(rc == 1, 'an empty ground truth file was accepted')
    return
  ctx.require(rc == 0, 'exit status %d: %s', rc, ctx.env['err'])
  if case['bad']:
    ctx.require(not table(out), 'metrics reported for an unreadable file: %s', out)
    ctx.label('unreadable')
    return
  # What takes part.
  kept = []
  for o in gts:
    x = M.Object()
    x.CopyFrom(o)
    l = x.object
    n = l.num_top_lidar_points_in_box if let else l.num_lidar_points_in_box
    if n <= 0 or (let and not l.most_visible_camera_name):
      continue
    if l.detection_difficulty_level == 0:
      l.detection_difficulty_level = 2 if n <= 5 else 1
    if let:
      l.box.CopyFrom(l.camera_synced_box)
    kept.append(x)
  P, G = grouped(pds), grouped(kept)
  # The tool orders frames by the text of scene and camera, then time.
  order = sorted(set(P) | set(G), key=lambda k: (('%s_%d' % (k[0], k[2])).encode(), k[1]))
  m = re.match(r'(\d+) examples found', out)
  ctx.require(m and int(m.group(1)) == len(order), '%d frames, reported: %s', len(order), out.splitlines()[:1])
  cfg = det_config(let)
  ms = [M.DetectionMetrics.FromString(x) for x in unpack(ctx.env['drv'].call(
      'det_metrics', det.config_proto(cfg).SerializeToString(), pack([pack(P.get(k, [])) for k in order]),
      pack([pack(G.get(k, [])) for k in order]))[0])]
  if not order:
    ctx.label('no frames')
    return
  ap = 'mean_average_precision'
  if let:
    fields = [('LET-mAPL', ap + '_longitudinal_affinity_weighted'), ('LET-mAP', ap), ('LET-mAPH', ap + '_ha_weighted')]
  else:
    fields = [('mAP', ap), ('mAPH', ap + '_ha_weighted')]
  check_rows(ctx, out, cfg['gens'], ms, fields)
  ctx.nontrivial(len(order) > 1 and sum(getattr(x, ap) > 0 for x in ms) > 2)
  ctx.label('%d frames' % len(order))


# ---- tracking ------------------------------------------------------------------
@st.composite
def trk_cases(draw):
  names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True))
  scenes = []
  for n in names:
    t0 = draw(st.sampled_from([0, 9, -200, 1550083467346370]))
    scenes.append((n, [(t0 + 100 * k, fr) for k, fr in enumerate(draw(C09.scene(max_frames=4)))]))
  return dict(scenes=scenes, seed=draw(st.integers(0, 999)))


def check_tracking(case, ctx):
  M = wod.pb('protos.metrics_pb2')
  rnd = random.Random(case['seed'])
  pds, gts = [], []
  for n, frs in case['scenes']:
    for t, fr in frs:
      pds += [proto(o, (n, t, None)) for o in fr['p']]
      gts += [proto(o, (n, t, None)) for o in fr['g']]
  if case['seed'] % 2:
    rnd.shuffle(pds)
    rnd.shuffle(gts)
  files = [objects_file(pds), objects_file(gts)]
  rc, out = run(ctx, 'tracking', *[write(ctx, n, d) for n, d in zip(('p', 'g'), files)])
  if not files[1]:
    ctx.require(rc == 1, 'an empty ground truth file was accepted')
    return
  ctx.require(rc == 0, 'exit status %d: %s', rc, ctx.env['err'])
  P, G = grouped(pds), grouped(gts)
  scenes = {}
  for k in sorted(set(P) | set(G), key=lambda k: (k[0].encode(), k[1])):
    scenes.setdefault(k[0], []).append(k)
  cfg = det_config(False)
  p, g = [pack([pack([pack(d.get(k, [])) for k in ks]) for ks in scenes.values()]) for d in (P, G)]
  ms = [M.TrackingMetrics.FromString(x) for x in unpack(ctx.env['drv'].call(
      'trk_metrics', det.config_proto(cfg).SerializeToString(), p, g)[0])]
  check_rows(ctx, out, cfg['gens'], ms, [('MOTA', 'mota'), ('MOTP', 'motp'), ('Miss', 'miss'), ('Mismatch', 'mismatch'), ('FP', 'fp')])
  ctx.nontrivial(len(scenes) > 1 and sum(x.mota > 0 for x in ms) > 1)


# ---- segmentation ----------------------------------------------------------------
N_SEG = 23


@st.composite
def seg_cases(draw):
  ks = draw(st.lists(st.tuples(st.sampled_from(NAMES), st.sampled_from([0, 5, 1550083467346370])), min_size=1, max_size=4, unique=True))
  lab = st.sampled_from(draw(st.lists(st.integers(0, N_SEG - 1), min_size=1, max_size=4)))
  frames = []
  for k in ks:
    n = draw(st.integers(1, 12))
    fr = dict(key=k, g=[], p=[], glaser=1, plaser=1)
    for _ in range(2):
      g = draw(st.lists(lab, min_size=n, max_size=n))
      p = [x if draw(st.booleans()) else draw(lab) for x in g]
      fr['g'].append(g)
      fr['p'].append(p)
    what = draw(st.integers(0, 15))
    if what == 0:
      fr['p'] = None
    elif what == 1:
      fr['g'] = None  # the frame has no ground truth
    elif what == 2:
      fr['plaser'] = 2
    elif what == 3:
      fr['p'] = None
      fr['g'][1] = draw(st.lists(lab, max_size=5))
    elif what == 4:
      fr['g'][1] = fr['p'][1] = None  # only the first return
    elif what == 5:
      fr['p'] = None
      fr['g'][1] = None
    elif what == 6 and draw(st.booleans()):
      fr['p'][draw(st.integers(0, 1))].append(1)
    elif what == 7 and draw(st.booleans()):
      fr['glaser'] = draw(st.sampled_from([2, 3]))
    elif what == 8 and draw(st.booleans()):
      fr['damage'] = draw(st.sampled_from(['cut', 'head', 'p']))
    frames.append(fr)
  return dict(frames=frames, seed=draw(st.integers(0, 99)))


def seg_file(case, side):
  D, S = wod.pb('dataset_pb2'), wod.pb('protos.segmentation_metrics_pb2')
  out = S.SegmentationFrameList()
  order = list(case['frames'])
  random.Random(case['seed'] + (side == 'p')).shuffle(order)
  for fr in order:
    if fr[side] is None and (side == 'p' or fr['p'] is None):
      continue
    f = out.frames.add(context_name=fr['key'][0], frame_timestamp_micros=fr['key'][1])
    if fr[side] is None:
      continue
    l = f.segmentation_labels.add(name=fr[side + 'laser'])
    for k, (vals, r) in enumerate(zip(fr[side], (l.ri_return1, l.ri_return2))):
      if vals is not None:
        m = D.MatrixInt32(data=vals)
        m.shape.dims.extend([1, len(vals)])
        raw = zlib.compress(m.SerializeToString())
        if k == 0 and fr.get('damage') and (fr['damage'] == 'p') == (side == 'p'):
          raw = raw[:-3] if fr['damage'] != 'head' else b'xx' + raw[2:]
        r.segmentation_label_compressed = raw
  return out.SerializeToString()


def check_segmentation(case, ctx):
  pd, gd = seg_file(case, 'p'), seg_file(case, 'g')
  rc, out = run(ctx, 'segmentation', write(ctx, 'p', pd), write(ctx, 'g', gd))
  if not gd:
    ctx.require(rc == 1, 'an empty ground truth file was accepted')
    return
  pairs, lengths_ok, lasers_ok = [], True, True
  for fr in sorted(case['frames'], key=lambda f: (f['key'][0].encode(), f['key'][1])):
    if fr['g'] is None:
      continue
    if fr['glaser'] != 1:
      lasers_ok = False
      break
    for k in range(2):
      g = fr['g'][k] or []
      p = (fr['p'][k] or []) if fr['p'] is not None and fr['plaser'] == 1 else None
      if k == 0 and fr.get('damage'):
        g, p = (g, [] if p is not None else None) if fr['damage'] == 'p' else ([], p)
      if p is None:
        p = [0] * len(g)
      if len(p) != len(g):
        lengths_ok = False
        break
      pairs += zip(p, g)
    if not lengths_ok:
      break
  if not lengths_ok:
    ctx.require(rc != 0 and 'miou' not in out, 'predictions of another length were accepted')
    ctx.label('refused')
    return
  ctx.require(rc == 0, 'exit status %d: %s', rc, ctx.env['err'])
  if not lasers_ok:
    ctx.require('miou' not in out, 'another laser was accepted')
    ctx.label('other laser')
    return
  S = wod.pb('protos.segmentation_pb2').Segmentation
  got = dict(re.findall(r'^(TYPE_\w+):(\S+)$', out, re.M))
  want = {}
  for name, c in S.Type.items():
    if c == 0:
      continue
    inter = sum(p == c and g == c for p, g in pairs)
    union = sum((p == c or g == c) and g != 0 for p, g in pairs)
    want[name] = inter / union if union else 1.0
  ctx.equal(sorted(got), sorted(want), 'classes')
  for n in want:
    ctx.close(float(got[n]), want[n], 'IoU of ' + n, 1e-5, 1e-5)
  miou = re.search(r'^miou=(\S+)$', out, re.M)
  ctx.require(miou is not None, 'no mean IoU: %s', out)
  ctx.close(float(miou.group(1)), sum(want.values()) / len(want), 'mean IoU', 1e-5, 1e-5)
  m = re.match(r'(\d+) frames found in prediction.\n(\d+) frames found in groundtruth.', out)
  ctx.require(m is not None, 'frame counts missing: %s', out[:200])
  ctx.nontrivial(len(case['frames']) > 1 and any(0 < v < 1 for v in want.values()))


# ---- submissions -----------------------------------------------------------------
NAN = float('nan')


@st.composite
def sub_objects(draw, n):
  out = []
  for k in range(n):
    b = [draw(st.sampled_from([0.0, 1.5, -30.25, 1e6])) for _ in range(3)] + [
        draw(st.sampled_from([4.0, 2.0, 0.0, 1e-7, -1.0, 1e-6, 0.5])) for _ in range(3)] + [0.25]
    if draw(st.integers(0, 7)) == 0:
      b[draw(st.integers(0, 6))] = NAN
    o = dict(b=b, t=draw(st.integers(0, 4)), s=draw(st.sampled_from([0.0, 0.02, 0.029, 0.031, 0.5, 1.0, 0.5, 0.9])),
             id=draw(st.sampled_from(['', 'x', 'é', '\n'])), nlz=draw(st.booleans()))
    o['key'] = (draw(st.sampled_from(NAMES + ['\n', 'end\n'])), draw(st.sampled_from([0, 10, 1290, 1550083467346370, -1])),
                draw(st.sampled_from([None, None, 1, 3])))
    o['flat'] = draw(st.integers(0, 5)) == 0
    out.append(o)
  return out


TEXTS = ['a@b.c', 'x', 'é "quoted" \\ \n line', 'm' * 25]


@st.composite
def sub_cases(draw):
  files = [draw(sub_objects(draw(st.sampled_from([0, 1, 1, 2, 5])))) for _ in range(draw(st.integers(1, 3)))]
  meta = dict(account_name=draw(st.sampled_from(TEXTS)), unique_method_name=draw(st.sampled_from(TEXTS)))
  for k in ('affiliation', 'description', 'method_link', 'docker_image_source'):
    if draw(st.booleans()):
      meta[k] = draw(st.sampled_from(TEXTS + ['']))
  for k, v in (('task', 6), ('sensor_type', 5), ('number_past_frames_exclude_current', 9), ('latency_second', 0)):
    if draw(st.booleans()):
      meta[k] = draw(st.integers(0, v)) if v else draw(st.sampled_from([-1.0, 0.125]))
  meta['authors'] = draw(st.lists(st.sampled_from(TEXTS), max_size=3))
  meta['object_types'] = draw(st.lists(st.integers(0, 4), max_size=3))
  drop = draw(st.sampled_from([None] * 8 + ['account_name', 'unique_method_name']))
  if drop:
    meta.pop(drop)
  return dict(files=files, meta=meta, shards=draw(st.integers(1, 5)), newline=draw(st.lists(st.booleans(), min_size=3, max_size=3)),
              bad=draw(st.sampled_from([None] * 10 + [0])))


def sub_proto(o):
  x = proto(o, o['key'])
  if o['flat']:
    for f in ('center_z', 'height', 'heading'):
      x.object.box.ClearField(f)
  return x


def check_submission(case, ctx):
  from google.protobuf import text_format
  S = wod.pb('protos.submission_pb2').Submission
  paths, want = [], []
  natural = False
  for k, objs in enumerate(case['files']):
    ps = [sub_proto(o) for o in objs]
    raw = objects_file(ps)
    natural = natural or raw.endswith(b'\n')
    if case['newline'][k]:
      raw += b'\n'
    if case['bad'] == k:
      raw += b'\x0a\x7fq'
    paths.append(write(ctx, 'in%d' % k, raw))
    for o, p in zip(objs, ps):
      b = p.object.box
      if o['s'] < 0.03 or any(v != v for v in (b.length, b.width, b.height, b.center_x, b.center_y, b.center_z, b.heading)):
        continue
      b.length, b.width, b.height = max(b.length, 1e-6), max(b.width, 1e-6), max(b.height, 1e-6)
      want.append(p.SerializeToString())
  meta = S(**case['meta'])
  sub = write(ctx, 'meta', text_format.MessageToString(meta, as_utf8=True).encode())
  out = os.path.join(ctx.env['dir'], 'out')
  for k in range(8):
    if os.path.exists(out + str(k)):
      os.unlink(out + str(k))
  rc, _ = run(ctx, 'submission', '--input_filenames=' + ','.join(paths), '--output_filename=' + out,
              '--num_shards=%d' % case['shards'], '--submission_filename=' + sub)
  made = [k for k in range(8) if os.path.exists(out + str(k))]
  if case['bad'] is not None or not meta.account_name or not meta.unique_method_name:
    ctx.require(rc != 0 and not made, 'accepted: unreadable input %s, metadata %s', case['bad'], case['meta'])
    ctx.label('refused')
    return
  ctx.require(rc == 0, 'exit status %d: %s', rc, ctx.env['err'])
  ctx.equal(made, list(range(case['shards'])), 'shards')
  got = []
  for k in made:
    with open(out + str(k), 'rb') as f:
      s = S.FromString(f.read())
    got += [o.SerializeToString() for o in s.inference_results.objects]
    s.ClearField('inference_results')
    ctx.equal(s.SerializeToString(), meta.SerializeToString(), 'metadata of shard %d' % k)
  ctx.equal(sorted(got), sorted(want), 'objects in all shards')
  ctx.nontrivial(len(want) > 2)
  if natural:
    ctx.label('message ends in a newline byte')


# ---- latency comparison ------------------------------------------------------------
METHODS = [None, '', 'net', 'a12345678', 'Your unique method name.', 'i2345678', 'm1234']


@st.composite
def cmp_cases(draw):
  c = dict(flat=draw(st.booleans()), thr=draw(st.sampled_from([0.9, 0.9, 0.7, 0.5])), min=draw(st.sampled_from([0.0, 0.0, 0.25, 0.5])),
           frames=[])
  ks = draw(st.lists(st.tuples(st.sampled_from(NAMES), st.sampled_from([0, 7, 1550083467346370]), st.sampled_from([None, 1, 4])),
                     min_size=1, max_size=3, unique=True))
  rough = draw(st.sampled_from([0, 0, 1, 3]))  # chances of a difference
  for k in ks:
    fr = dict(key=k, where=draw(st.sampled_from(['both'] * 8 + ['full', 'full', 'latency'])), objs=[])
    n = draw(st.sampled_from([1, 2, 5, 19, 20, 21, 40, 41]))
    rnd = random.Random(draw(st.integers(0, 2**20)))
    for j in range(n):
      o = dict(j=j, t=rnd.choice([1, 1, 2, 3, 4] + ([0] if rnd.random() < 0.1 else [])), s=rnd.randint(8, 56) / 64,
               shift=rnd.choice([0.0, 0.0, 0.01, 0.03]), ds=rnd.choice([0.0, 0.02, -0.02]), what='both')
      if rough and rnd.random() < 0.03 * rough:
        o[rnd.choice(['shift'])] = rnd.choice([0.1, 0.2, 0.4, 0.6])
      if rough and rnd.random() < 0.02 * rough:
        o['ds'] = rnd.choice([0.1, -0.1])
      if rough and rnd.random() < 0.02 * rough:
        o['what'] = rnd.choice(['full', 'latency', 'type'])
      fr['objs'].append(o)
    if draw(st.integers(0, 2)) == 0:
      # Just below or above the accepted number of differences.
      lost, how = draw(st.integers(1, 2)), draw(st.sampled_from(['full', 'latency', 'type', 'ds']))
      fr['objs'] = [dict(j=j, t=o['t'] or 1, s=o['s'], shift=0.0, ds=0.0, what='both')
                    for j, o in enumerate(rnd.choice(fr['objs']) for _ in range(20 * lost + draw(st.integers(-1, 2))))]
      for o in rnd.sample(fr['objs'], lost):
        o.update(dict(ds=0.1) if how == 'ds' else dict(what=how))
    c['frames'].append(fr)
  c['shards'] = draw(st.integers(1, 3))
  c['method'] = draw(st.lists(st.sampled_from(METHODS), min_size=3, max_size=3))
  c['form'] = draw(st.lists(st.sampled_from(['objects', 'submission', 'submission']), min_size=3, max_size=3))
  c['seed'] = draw(st.integers(0, 999))
  return c


def cmp_obj(c, fr, o, full):
  x = wod.pb('protos.metrics_pb2').Object()
  b = x.object.box
  b.center_x, b.center_y = 40.0 * (o['j'] % 7), 30.0 * (o['j'] // 7)
  b.length, b.width = 4.0, 2.0
  if not c['flat']:
    b.center_z, b.height, b.heading = 1.0, 1.5, 0.0
  x.object.type, x.score = o['t'], o['s']
  if full:
    b.center_x += o['shift'] * 4.0
    x.score = o['s'] + o['ds']
    if o['what'] == 'type':
      x.object.type = o['t'] % 4 + 1
  x.context_name, x.frame_timestamp_micros = fr['key'][0], fr['key'][1]
  if fr['key'][2] is not None:
    x.camera_name = fr['key'][2]
  return x


def check_compare(case, ctx):
  S = wod.pb('protos.submission_pb2').Submission
  rnd = random.Random(case['seed'])
  lat, full = [], []
  ok = True
  for fr in case['frames']:
    here = {}
    for o in fr['objs']:
      for is_full, objs in ((False, lat), (True, full)):
        if fr['where'] in ('both', ('latency', 'full')[is_full]) and o['what'] in ('both', 'type', ('latency', 'full')[is_full]):
          x = cmp_obj(case, fr, o, is_full)
          objs.append(x)
          if x.score >= case['min'] and x.object.type > 0:
            here.setdefault(o['j'], {})[is_full] = x
    n = sum(False in h for h in here.values())
    m = sum(True in h for h in here.values())
    if not n:
      continue
    if not m:
      ok = False
      continue
    lost = max(0, m - n)
    for j, h in here.items():
      if False in h:
        f = abs(fr['objs'][j]['shift'])
        iou = (1 - f) / (1 + f)
        same = True in h and h[True].object.type == h[False].object.type and iou > case['thr']
        lost += not same or abs(h[True].score - h[False].score) > 0.05
    ok = ok and not lost > 0.05 * n
  rnd.shuffle(lat)
  rnd.shuffle(full)
  paths = []
  for k in range(case['shards']):
    objs = full[k::case['shards']]
    raw = objects_file(objs)
    if case['form'][k] == 'submission':
      s = S(account_name='a@b.c', task=2, authors=['q'])
      if case['method'][k] is not None:
        s.unique_method_name = case['method'][k]
      s.inference_results.objects.extend(objs)
      raw = s.SerializeToString()
      ctx.label('submission')
    paths.append(write(ctx, 'full%d' % k, raw))
  rc, out = run(ctx, 'compare', '--latency_result_filename=' + write(ctx, 'lat', objects_file(lat)),
                '--full_result_filenames=' + ','.join(paths), '--iou_threshold=%r' % case['thr'], '--minimum_score=%r' % case['min'])
  said = 'identical to full results' in out
  ctx.require((rc == 0) == said, 'exit status %d but said %s', rc, out[-200:])
  ctx.require(said == ok, 'the tool %s results that are%s the same within 5%%', 'accepts' if said else 'rejects', '' if ok else ' not')
  ctx.nontrivial(bool(lat) and (not ok or any(o['shift'] or o['what'] != 'both' for fr in case['frames'] for o in fr['objs'])))
  ctx.label('same' if ok else 'different')


SUBS = [
    Sub('detection', det_cases, check_detection, 350, rule='several frames and positive results'),
    Sub('let', lambda: det_cases(let=True), check_detection, 350, rule='several frames and positive results'),
    Sub('tracking', trk_cases, check_tracking, 350, rule='several scenes and a positive MOTA'),
    Sub('segmentation', seg_cases, check_segmentation, 500, rule='several frames and an IoU strictly between 0 and 1'),
    Sub('submission', sub_cases, check_submission, 500, rule='more than two objects are kept'),
    Sub('compare', cmp_cases, check_compare, 500, rule='objects to compare, with a difference'),
]
