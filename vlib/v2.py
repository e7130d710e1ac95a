"""Loads the v2 modules one by one (its __init__ needs the codec packages)."""
import dataclasses
import importlib
import sys
import types
import typing

from vlib import build, wod

P = 'waymo_open_dataset.v2'
PURE = ['base', 'box', 'camera_image', 'context', 'keypoints', 'pose']


def load(name):
  wod.setup(shim=True)
  if P not in sys.modules:
    m = types.ModuleType(P)
    m.__path__ = [build.SRC + '/waymo_open_dataset/v2']
    sys.modules[P] = m
  return importlib.import_module(P + '.' + name)


def components(names=PURE):
  """{class name: class} of the concrete components."""
  comp = load('component')
  out = {}
  for n in names:
    m = load('perception.' + n)
    for k, v in vars(m).items():
      if isinstance(v, type) and issubclass(v, comp.Component) and v.__module__ == m.__name__ and n != 'base':
        out[k] = v
  return dict(sorted(out.items()))


def hints(cls):
  """[(field, type without Optional, is optional)]."""
  h = typing.get_type_hints(cls)
  out = []
  for f in dataclasses.fields(cls):
    t = h[f.name]
    opt = False
    if typing.get_origin(t) in (typing.Union, getattr(types, 'UnionType', None)):
      a = [x for x in typing.get_args(t) if x is not type(None)]
      opt, t = True, a[0]
    out.append((f, t, opt))
  return out


def make(cls, v):
  """Builds an instance from {field: value or nested dict or None}."""
  kw = {}
  for f, t, _ in hints(cls):
    x = v[f.name]
    kw[f.name] = make(t, x) if dataclasses.is_dataclass(t) and x is not None else x
  return cls(**kw)


def plain(obj):
  """Nested dicts, an absent structure being one whose fields are all None."""
  def go(cls, o):
    d = {}
    for f, t, _ in hints(cls):
      x = None if o is None else getattr(o, f.name)
      d[f.name] = go(t, x) if dataclasses.is_dataclass(t) else x
    return d
  return go(type(obj), obj)
