"""Scenario -> tf.Example: the call, and what is common to its two checks."""
from vlib import wod
from vlib.driver import i, ud, ui, unpack


def convert(ctx, scenario, config, counters=True):
  """-> None when refused, else ({feature: (kind, values)}, counters)."""
  out = ctx.env['drv'].call('convert', scenario.SerializeToString(), config.SerializeToString(), i(int(counters)))
  count = dict(zip([x.decode() for x in unpack(out[1])], map(int, ui(out[2]))))
  if not ui(out[0])[0]:
    return None, count
  ft = {}
  for k in range(3, len(out), 3):
    kind = out[k + 1].decode()
    v = out[k + 2]
    ft[out[k].decode()] = (kind, unpack(v) if kind == 'b' else (ud(v) if kind == 'f' else ui(v)))
  return ft, count


def take(ctx, ft, key, kind, n):
  """The values of one feature; absent means empty."""
  got = ft.get(key)
  if got is None:
    ctx.equal(0, n, 'number of values of %s' % key)
    return []
  ctx.equal(got[0], kind, 'kind of %s' % key)
  ctx.equal(len(got[1]), n, 'number of values of %s' % key)
  return got[1]


def proto(name):
  return getattr(wod.pb('protos.scenario_pb2'), name)


def config_proto(**kw):
  return wod.pb('protos.conversion_config_pb2').MotionExampleConversionConfig(**kw)
