"""v2 components: flat columns, schemas and joins."""
import dataclasses
import math
import typing

import numpy as np
from hypothesis import strategies as st

from vlib import v2, wod
from vlib.core import Sub

REPEATED = {('CameraHumanKeypointsComponent', 'camera_keypoints'), ('LiDARHumanKeypointsComponent', 'lidar_keypoints')}
EXPECTED = ['CameraBoxComponent', 'CameraCalibrationComponent', 'CameraHumanKeypointsComponent', 'CameraImageComponent',
            'CameraToLiDARBoxAssociationComponent', 'LiDARBoxComponent', 'LiDARCalibrationComponent',
            'LiDARCameraSyncedBoxComponent', 'LiDARHumanKeypointsComponent', 'ProjectedLiDARBoxComponent',
            'StatsComponent', 'VehiclePoseComponent']
_S = {}


def prepare(tier):
  from vlib import build
  build.gen_protos()
  return {}


def setup():
  if not _S:
    wod.setup(shim=True)
    _S.update(c=v2.load('component'), df=v2.load('dataframe_utils'), comps=v2.components())
  return _S


def open_env(env):
  return dict(env, **setup())


fl = st.floats(allow_nan=False, allow_infinity=False)
leaf = {float: fl, int: st.integers(-128, 127), str: st.text(max_size=4), bytes: st.binary(max_size=4), bool: st.booleans()}


def value(draw, cls, small_keys=False):
  out = {}
  for f, t, opt in v2.hints(cls):
    if opt and draw(st.integers(0, 2)) == 0:
      out[f.name] = None
    elif dataclasses.is_dataclass(t):
      out[f.name] = value(draw, t, small_keys)
    elif typing.get_origin(t) is list:
      out[f.name] = draw(st.lists(leaf[typing.get_args(t)[0]], max_size=3))
    elif small_keys and issubclass(cls, setup()['c'].Key):
      # Few values per key, so that rows of different tables meet.
      out[f.name] = draw(st.sampled_from([1, 2, 3] if t is int else ['a', 'b', '']))
    else:
      out[f.name] = draw(leaf[t])
  return out


@st.composite
def real_cases(draw):
  s = setup()
  name = draw(st.sampled_from(sorted(s['comps'])))
  return dict(cls=name, v=value(draw, s['comps'][name]))


def flat(cls, obj, is_component, is_key, repeated):
  """The documented flat form of an instance: [(column, value)]."""
  out = []
  for f, t, _ in v2.hints(cls):
    name = f.name + ('[*]' if repeated(cls, f.name) else '')
    if is_component(cls) and not is_key(t):
      name = '[%s].%s' % (cls.__name__, name)
    x = None if obj is None else getattr(obj, f.name)
    if dataclasses.is_dataclass(t):
      out += [(name + '.' + n, y) for n, y in flat(t, x, is_component, is_key, repeated)]
    else:
      out.append((name, x))
  return out


def check_one(ctx, cls, obj, repeated):
  c = ctx.env['c']
  is_comp = lambda t: isinstance(t, type) and issubclass(t, c.Component)
  is_key = lambda t: isinstance(t, type) and dataclasses.is_dataclass(t) and issubclass(t, c.Key)
  want = flat(cls, obj, is_comp, is_key, repeated)
  before = v2.plain(obj)
  got = ctx.call(obj.to_flatten_dict)
  ctx.equal(dict(got), dict(want), 'columns')
  ctx.require(list(got) == [n for n, _ in want], 'order of columns %s', list(got))
  cols = dict(got)
  back = ctx.call(cls.from_dict, cols)
  ctx.require(type(back) is cls, 'read back as %s', type(back))
  ctx.equal(v2.plain(back), before, 'component read back')
  ctx.equal(cols, dict(got), 'columns after reading')
  ctx.equal(dict(back.to_flatten_dict()), dict(got), 'columns of the component read back')
  # Columns of other components next to it, in any order, change nothing.
  extra = {'[Other].' + k.split('].', 1)[-1]: 'other' for k in got if k.startswith('[')}
  mixed = dict(list(extra.items()) + list(reversed(list(got.items()))))
  ctx.equal(v2.plain(ctx.call(cls.from_dict, mixed)), before, 'component read from a joined row')
  ctx.equal(v2.plain(ctx.call(cls.from_dict, dict(list(got.items()) + list(extra.items())))), before,
            'component read from a joined row')
  schema = ctx.call(cls.schema)
  ctx.equal(list(schema.names), [n for n, _ in want], 'schema columns')
  return dict(zip(schema.names, schema.types))


def fits(t, x):
  """Whether a value of the declared arrow type could hold x."""
  n = t.name
  if x is None:
    return True
  if isinstance(x, list):
    return n == 'list' and all(fits(t.value_type, y) for y in x)
  if isinstance(x, bool):
    return n == 'bool'
  if isinstance(x, int):
    return n.startswith('int')
  if isinstance(x, float):
    return n.startswith('float')
  return n == ('string' if isinstance(x, str) else 'binary')


def check_real(case, ctx):
  s = ctx.env
  ctx.equal([n for n in EXPECTED if n not in s['comps']], [], 'missing components')
  cls = s['comps'][case['cls']]
  obj = ctx.call(v2.make, cls, case['v'])
  types = check_one(ctx, cls, obj, lambda k, f: (k.__name__, f) in REPEATED)
  for n, x in obj.to_flatten_dict().items():
    ctx.require(fits(types[n], x), 'column %s of type %s holds %r', n, types[n], x)
  ctx.label(case['cls'])
  ctx.nontrivial(any(x is None for x in obj.to_flatten_dict().values()) or case['cls'] in (
      'CameraImageComponent', 'VehiclePoseComponent', 'LiDARCameraSyncedBoxComponent', 'ProjectedLiDARBoxComponent'))


# Made-up component classes.
ARROW = [('int64', int), ('float64', float), ('string', str), ('bool_', bool), ('binary', bytes)]


@st.composite
def spec(draw, depth):
  """[(field name, optional, repeated, leaf index or nested spec or -leaf list)]."""
  names = draw(st.lists(st.sampled_from(['x', 'y', 'a', 'ab', 'key', 'box', 'size', 'x_', 'foo']), min_size=1,
                        max_size=4, unique=True))
  out = []
  for n in names:
    kind = draw(st.sampled_from(['leaf', 'leaf', 'list', 'nested', 'nested'] if depth else ['leaf', 'list']))
    body = draw(spec(depth - 1)) if kind == 'nested' else draw(st.integers(0, 4))
    out.append(dict(name=n, kind=kind, body=body, opt=draw(st.booleans()), rep=draw(st.integers(0, 3)) == 0))
  return out


def spec_value(draw, sp):
  out = {}
  for f in sp:
    if f['opt'] and draw(st.integers(0, 2)) == 0:
      out[f['name']] = None
    elif f['kind'] == 'nested':
      out[f['name']] = spec_value(draw, f['body'])
    else:
      s = leaf[ARROW[f['body']][1]]
      out[f['name']] = draw(st.lists(s, max_size=2) if f['kind'] == 'list' else s)
  return out


@st.composite
def made_cases(draw):
  body = [f for f in draw(spec(3)) if f['name'] != 'key'] or [dict(name='x', kind='leaf', body=0, opt=False, rep=False)]
  key = [dict(f, opt=False, rep=False, kind='leaf', body=f['body'] if isinstance(f['body'], int) else 2)
         for f in draw(spec(0))]
  return dict(name=draw(st.sampled_from(['C', 'MyComponent', 'x', 'Box'])), key=key, body=body,
              v=dict(spec_value(draw, body), key=spec_value(draw, key)), first=draw(st.booleans()))


def make_class(c, pa, name, sp, bases, extra=()):
  rep = {f['name'] for f in sp if f['rep']}
  fields, late = [], []
  for f in sp:
    if f['kind'] == 'nested':
      t, arrow = make_class(c, pa, name + '_' + f['name'], f['body'], ())[0], None
    else:
      a, t = ARROW[f['body']]
      arrow = getattr(pa, a)()
      if f['kind'] == 'list':
        t, arrow = list[t], pa.list_(arrow)
    kw = dict(default=None) if f['opt'] else {}
    col = c.create_column(arrow_type=arrow, is_repeated=f['rep'], **kw)
    (late if f['opt'] else fields).append((f['name'], typing.Optional[t] if f['opt'] else t, col))
  cls = dataclasses.make_dataclass(name, list(extra) + fields + late, bases=bases, frozen=True)
  cls.REP = frozenset(rep)
  return cls, rep


def all_types(sp, pa, prefix):
  out = {}
  for f in sp:
    n = prefix + f['name'] + ('[*]' if f['rep'] else '')
    if f['kind'] == 'nested':
      out.update(all_types(f['body'], pa, n + '.'))
    else:
      t = getattr(pa, ARROW[f['body']][0])()
      out[n] = pa.list_(t) if f['kind'] == 'list' else t
  return out


def check_made(case, ctx):
  import pyarrow as pa
  c = ctx.env['c']
  key, _ = make_class(c, pa, case['name'] + 'Key', case['key'], (c.Key,))
  cls, _ = make_class(c, pa, case['name'], case['body'], (c.Component,), [('key', key)])
  obj = v2.make(cls, case['v'])
  types = check_one(ctx, cls, obj, lambda k, f: f in k.REP)
  want = all_types(case['body'], pa, '[%s].' % case['name'])
  want.update(all_types(case['key'], pa, 'key.'))
  ctx.equal(types, want, 'schema types')
  ctx.nontrivial(any(f['kind'] == 'nested' for f in case['body']))


# Joins.
KEYS = ['key.a', 'key.b', 'key.c', 'key.d']


@st.composite
def tables(draw):
  nk = draw(st.integers(1, 3))
  left = draw(st.lists(st.sampled_from(KEYS[:3]), min_size=1, max_size=nk, unique=True))
  common = draw(st.sampled_from(left))
  right = [common] + [k for k in draw(st.lists(st.sampled_from(KEYS), max_size=2, unique=True)) if k != common]
  types = {k: draw(st.sampled_from(['int64', 'int8', 'str', 'cat'])) for k in KEYS}
  def rows(keys, side):
    n = draw(st.integers(0 if draw(st.integers(0, 5)) == 0 else 1, 6))
    out = []
    for _ in range(n):
      r = [draw(st.sampled_from(['u', 'v', 'w', '']) if types[k] in ('str', 'cat') else st.integers(-1, 2)) for k in keys]
      out.append(r + [draw(st.integers(0, 99)), draw(st.sampled_from('pqr'))])
    return out
  return dict(left=left, right=right, types=types, lrows=rows(left, 'l'), rrows=rows(right, 'r'),
              ln=draw(st.booleans()), rn=draw(st.booleans()), lg=draw(st.booleans()), rg=draw(st.booleans()),
              prefix=draw(st.sampled_from(['key.', 'key.', 'k#'])))


def norm(x):
  if isinstance(x, list):
    return tuple(norm(y) for y in x)
  if x is None or isinstance(x, float) and math.isnan(x):
    return None
  if isinstance(x, (np.generic, float, int)) and not isinstance(x, str):
    return float(x)
  return x


def bag(rows):
  return sorted((tuple(sorted(r.items())) for r in rows), key=repr)


def grouped(rows, keys, common):
  out, seen = [], {}
  for r in rows:
    k = tuple(r[c] for c in common)
    if k not in seen:
      seen[k] = {c: r[c] for c in common}
      out.append(seen[k])
    for n, x in r.items():
      if n not in common:
        seen[k].setdefault(n, []).append(x)
  return out


def check_merge(case, ctx):
  import pandas as pd
  pre = case['prefix']
  ren = lambda k: k.replace('key.', pre)
  types = {ren(k): v for k, v in case['types'].items()}
  lk, rk = [ren(k) for k in case['left']], [ren(k) for k in case['right']]
  lcols, rcols = lk + ['[L].n', '[L].s'], rk + ['[R].n', '[R].key.s']

  def frame(rows, cols):
    # Partition keys are read as categories.
    kind = lambda c: pd.CategoricalDtype(list('uvw') + ['', 'unused']) if types.get(c) == 'cat' else object if types.get(
        c) == 'str' or c.endswith('s') else types.get(c, 'int64')
    d = pd.DataFrame({c: pd.Series([r[i] for r in rows], dtype=kind(c)) for i, c in enumerate(cols)})
    return d[cols]
  left, right = frame(case['lrows'], lcols), frame(case['rrows'], rcols)
  l0, r0 = left.copy(deep=True), right.copy(deep=True)
  common = [k for k in lk if k in rk]
  lg, rg = case['lg'] and set(lk) != set(common), case['rg'] and set(rk) != set(common)
  if (lg and not case['lrows']) or (rg and not case['rrows']):
    # Grouping an empty table leaves no list columns to compare.
    ctx.label('empty group')
    return
  kw = {} if pre == 'key.' else dict(key_prefix=pre)
  got = ctx.call(ctx.env['df'].merge, left, right, left_nullable=case['ln'], right_nullable=case['rn'],
                 left_group=case['lg'], right_group=case['rg'], **kw)
  ctx.require(left.equals(l0) and right.equals(r0) and list(left.columns) == lcols and list(right.columns) == rcols,
              'merge changed its inputs')
  L = [dict(zip(lcols, r)) for r in case['lrows']]
  R = [dict(zip(rcols, r)) for r in case['rrows']]
  if lg:
    L = grouped(L, lk, common)
  if rg:
    R = grouped(R, rk, common)
  # A key only one side has appears under the same name; both having it makes
  # it common.
  allcols = list(dict.fromkeys(lcols + rcols))
  want, used = [], set()
  for a in L:
    hit = False
    for j, b in enumerate(R):
      if all(a[k] == b[k] for k in common):
        want.append(dict({c: None for c in allcols}, **a, **{k: v for k, v in b.items() if k not in common}))
        hit = True
        used.add(j)
    if not hit and case['rn']:
      want.append(dict({c: None for c in allcols}, **a))
  if case['ln']:
    want += [dict({c: None for c in allcols}, **b) for j, b in enumerate(R) if j not in used]
  ctx.equal(sorted(got.columns), sorted(allcols), 'columns')
  rows = [{c: norm(x) for c, x in r.items()} for r in got.to_dict('records')]
  want = [{c: norm(x) for c, x in r.items()} for r in want]
  ctx.equal(bag(rows), bag(want), 'joined rows')
  if case['lrows'] and case['rrows']:
    for k in common:
      if not case['ln'] and not case['rn'] and want:
        ctx.equal(str(got[k].dtype), str(l0[k].dtype), 'type of ' + k)
  ctx.nontrivial(bool(want) and bool(L) and bool(R))
  ctx.label('how %d%d' % (case['ln'], case['rn']), 'left grouped' if lg else '-', 'right grouped' if rg else '-')


# Joined tables of real components.
PAIRS = [('LiDARBoxComponent', 'LiDARHumanKeypointsComponent'), ('CameraImageComponent', 'CameraBoxComponent'),
         ('LiDARBoxComponent', 'VehiclePoseComponent'), ('CameraCalibrationComponent', 'CameraImageComponent'),
         ('CameraBoxComponent', 'CameraToLiDARBoxAssociationComponent'), ('LiDARBoxComponent', 'ProjectedLiDARBoxComponent'),
         ('StatsComponent', 'LiDARCalibrationComponent'), ('LiDARCameraSyncedBoxComponent', 'LiDARBoxComponent')]


@st.composite
def joined_cases(draw):
  s = setup()
  pair = draw(st.sampled_from(PAIRS))
  if draw(st.booleans()):
    pair = pair[::-1]
  vs = []
  for n in pair:
    rows = [value(draw, s['comps'][n], True) for _ in range(draw(st.integers(1, 4)))]
    uniq = {repr(r['key']): r for r in rows}
    vs.append(list(uniq.values()))
  return dict(pair=pair, a=vs[0], b=vs[1])


def check_joined(case, ctx):
  import pandas as pd
  A, B = (ctx.env['comps'][n] for n in case['pair'])
  a = [v2.make(A, v) for v in case['a']]
  b = [v2.make(B, v) for v in case['b']]
  fa = pd.DataFrame([x.to_flatten_dict() for x in a], dtype=object)
  fb = pd.DataFrame([x.to_flatten_dict() for x in b], dtype=object)
  got = ctx.call(ctx.env['df'].merge, fa, fb)
  rows = []
  for r in got.to_dict('records'):
    rows.append((repr(v2.plain(ctx.call(A.from_dict, r))), repr(v2.plain(ctx.call(B.from_dict, r)))))
  want = []
  for x in a:
    for y in b:
      kx, ky = v2.plain(x)['key'], v2.plain(y)['key']
      if all(kx[k] == ky[k] for k in kx if k in ky):
        want.append((repr(v2.plain(x)), repr(v2.plain(y))))
  ctx.equal(sorted(rows), sorted(want), 'pairs of components')
  ctx.nontrivial(bool(want))
  ctx.label('-'.join(case['pair']))


SUBS = [
    Sub('dataset components', real_cases, check_real, 8000, rule='an absent optional field, or a component without optional fields'),
    Sub('made-up components', made_cases, check_made, 5000, rule='nested structures'),
    Sub('joins', tables, check_merge, 5000, rule='both tables have rows and the result is not empty'),
    Sub('joined components', joined_cases, check_joined, 3000, rule='at least one pair of rows joins'),
]
