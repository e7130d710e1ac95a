"""Imports the repository's Python package from /repo/src.

*_pb2 modules come from vlib.build.gen_protos (generated from the tree's
protos), not from whatever was generated into the tree earlier.
"""
import importlib.abc
import importlib.util
import os
import sys

from vlib import build


class _Pb2Finder(importlib.abc.MetaPathFinder):

  def __init__(self, root):
    self.root = root

  def find_spec(self, name, path, target=None):
    if not (name.startswith('waymo_open_dataset.') and name.endswith('_pb2')):
      return None
    p = os.path.join(self.root, *name.split('.')) + '.py'
    if not os.path.exists(p):
      return None
    return importlib.util.spec_from_file_location(name, p)


def setup(shim=False):
  root = build.gen_protos() + '/py'
  if not any(isinstance(f, _Pb2Finder) for f in sys.meta_path):
    sys.meta_path.insert(0, _Pb2Finder(root))
  if build.SRC not in sys.path:
    sys.path.insert(0, build.SRC)
  if shim:
    import pandas  # Looks for a real pyarrow when first imported.
    del pandas
  if shim and build.VERIF + '/shim' not in sys.path:
    sys.path.insert(0, build.VERIF + '/shim')


def pb(name):
  """pb('label_pb2'), pb('protos.metrics_pb2')."""
  setup()
  return importlib.import_module('waymo_open_dataset.' + name)
