"""Map plots: which lines are drawn for which features."""
from hypothesis import strategies as st

from vlib import wod
from vlib.core import Sub

f = st.one_of(st.integers(-50, 50).map(float), st.floats(-1e4, 1e4, allow_nan=False).map(lambda x: x + 0.0))

# Documented colours and dashes per feature type.
W, Y = ('lightgray', 'yellow')
STYLE = {
    ('lane', 0): ('UNKNOWN_FEATURE', 'black', 'solid'),
    ('lane', 1): ('FREEWAY_LANE', 'white', 'solid'),
    ('lane', 2): ('SURFACE_STREET_LANE', 'royalblue', 'solid'),
    ('lane', 3): ('BIKE_LANE', 'magenta', 'solid'),
    ('road_line', 0): ('UNKNOWN_FEATURE', 'black', 'solid'),
    ('road_line', 1): ('BROKEN_SINGLE_WHITE_BOUNDARY', W, 'dash'),
    ('road_line', 2): ('SOLID_SINGLE_WHITE_BOUNDARY', W, 'solid'),
    ('road_line', 3): ('SOLID_DOUBLE_WHITE_BOUNDARY', W, 'solid'),
    ('road_line', 4): ('BROKEN_SINGLE_YELLOW_BOUNDARY', Y, 'dash'),
    ('road_line', 5): ('BROKEN_DOUBLE_YELLOW_BOUNDARY', Y, 'dash'),
    ('road_line', 6): ('SOLID_SINGLE_YELLOW_BOUNDARY', Y, 'solid'),
    ('road_line', 7): ('SOLID_DOUBLE_YELLOW_BOUNDARY', Y, 'solid'),
    ('road_line', 8): ('PASSING_DOUBLE_YELLOW_BOUNDARY', Y, 'dash'),
    ('road_edge', 0): ('UNKNOWN_FEATURE', 'black', 'solid'),
    ('road_edge', 1): ('ROAD_EDGE_BOUNDARY', 'green', 'solid'),
    ('road_edge', 2): ('ROAD_EDGE_MEDIAN', 'green', 'solid'),
    ('stop_sign', 0): ('STOP_SIGN', 'red', 'solid'),
    ('crosswalk', 0): ('CROSSWALK', 'orange', 'solid'),
    ('speed_bump', 0): ('SPEED_BUMP', 'cyan', 'solid'),
    ('driveway', 0): ('DRIVEWAY', 'blue', 'solid'),
}
SINGLE = [k for k in sorted(STYLE) if k[0] not in ('lane', 'road_line', 'road_edge')]
POLYGONS = ('crosswalk', 'speed_bump', 'driveway')


def prepare(tier):
  from vlib import build
  build.gen_protos()
  return {}


def open_env(env):
  wod.setup()
  from waymo_open_dataset.utils import plot_maps
  return dict(m=plot_maps, pb=wod.pb('protos.map_pb2'))


@st.composite
def cases(draw):
  kinds = draw(st.lists(st.one_of(st.sampled_from(sorted(STYLE) + [('none', 0)]), st.sampled_from(SINGLE)), min_size=draw(st.sampled_from([0, 1, 3, 4])), max_size=7))
  ids = draw(st.lists(st.one_of(st.integers(0, 9), st.integers(-2**63, 2**63 - 1)), min_size=len(kinds),
                      max_size=len(kinds), unique=True))
  pt = st.tuples(f, f, f)
  out = []
  for k, i in zip(kinds, ids):
    n = 1 if k[0] == 'stop_sign' else draw(st.sampled_from([3, 2, 1, 0, 4, 6]))
    pts = draw(st.lists(pt, min_size=n, max_size=n))
    if n > 2 and draw(st.integers(0, 3)) == 0:
      pts[-1] = pts[0]
    out.append(dict(kind=k[0], type=k[1], id=i, pts=pts, default=draw(st.booleans())))
  return dict(features=out)


def features(case, pb):
  for x in case['features']:
    m = pb.MapFeature(id=x['id'])
    if x['kind'] != 'none':
      sub = getattr(m, x['kind'])
      sub.SetInParent()
      if x['kind'] == 'stop_sign':
        sub.position.x, sub.position.y, sub.position.z = x['pts'][0]
      else:
        dst = sub.polygon if x['kind'] in POLYGONS else sub.polyline
        for p in x['pts']:
          dst.add(x=p[0], y=p[1], z=p[2])
        if x['kind'] not in POLYGONS and (x['type'] or not x['default']):
          sub.type = x['type']
    yield m


def expected(case):
  for x in case['features']:
    pts = list(x['pts'])
    if x['kind'] == 'none' or not pts:
      continue
    if x['kind'] in POLYGONS:
      pts.append(pts[0])
    yield x, STYLE[(x['kind'], x['type'])], pts


def xyz(t):
  return [] if t.x is None else list(zip(map(float, t.x), map(float, t.y), map(float, t.z)))


def check_plot(case, ctx):
  m, pb = ctx.env['m'], ctx.env['pb']
  fs = list(features(case, pb))
  before = [x.SerializeToString() for x in fs]
  fig = ctx.call(m.plot_map_features, fs)
  ctx.equal([x.SerializeToString() for x in fs], before, 'features after plotting')
  want = list(expected(case))
  dots, lines = [], []
  for t in fig.data:
    # The overview scatter has one trace per type, named after it.
    (dots if t.name and str(t.name).startswith('FeatureType.') or t.mode == 'markers' and t.name == '' else lines).append(t)
  lines = [t for t in lines if xyz(t)]
  ctx.equal(len(lines), len(want), 'number of traces')
  for t, (x, (_, color, dash), pts) in zip(lines, want):
    what = '%s %d' % (x['kind'], x['id'])
    ctx.equal(xyz(t), pts, 'points of ' + what)
    if t.mode == 'markers':
      # A stop sign is a single point.
      ctx.equal((x['kind'], t.marker.color), ('stop_sign', color), 'marker of ' + what)
    else:
      ctx.equal((t.line.color, t.line.dash or 'solid'), (color, dash), 'style of ' + what)
  by = {}
  for _, s, pts in want:
    by.setdefault(s[0], []).extend(pts)
  got = {t.name.split('.')[1]: t for t in dots if xyz(t)}
  ctx.equal({k: xyz(t) for k, t in got.items()}, by, 'points per type')
  for _, s, _ in want:
    ctx.equal(got[s[0]].marker.color, s[1], 'colour of type ' + s[0])
  ctx.nontrivial(len(want) > 1)
  for x in case['features']:
    ctx.label(x['kind'] + (' without points' if not x['pts'] and x['kind'] != 'none' else ''))
  if not want:
    ctx.label('empty map')


SUBS = [Sub('features', cases, check_plot, 1600, rule='two or more features with points')]
