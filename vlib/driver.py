"""Client of the C++ driver processes (length-prefixed fields over pipes)."""
import os
import struct
import subprocess
import tempfile

import numpy as np


class DriverCrash(Exception):
  pass


class Driver:

  def __init__(self, exe):
    self.exe = exe
    self.p = None
    self.err = None
    self.restarts = 0

  def start(self):
    self.err = tempfile.TemporaryFile()
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = ('detect_leaks=0:detect_odr_violation=0:'
                           'detect_container_overflow=0')
    self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE,
                              stdout=subprocess.PIPE, stderr=self.err, env=env)
    self.restarts += 1

  def stop(self):
    if self.p is not None:
      for f in (self.p.stdin, self.p.stdout):
        try:
          f.close()
        except OSError:
          pass
      self.p.kill()
      self.p.wait()
      self.err.close()
      self.p = None

  def _crash(self, cmd):
    try:
      rc = self.p.wait(timeout=20)
    except subprocess.TimeoutExpired:
      rc = 'no exit'
    self.err.seek(0)
    text = self.err.read().decode(errors='replace')
    self.stop()
    raise DriverCrash('%s: the process under test ended (%s)\n%s' % (
        cmd, rc, text[-1500:]))

  def call(self, cmd, *fields):
    if self.p is None:
      self.start()
    fs = [cmd.encode()] + [f.encode() if isinstance(f, str) else bytes(f)
                           for f in fields]
    msg = struct.pack('<I', len(fs)) + b''.join(
        struct.pack('<I', len(f)) + f for f in fs)
    try:
      self.p.stdin.write(msg)
      self.p.stdin.flush()
    except (BrokenPipeError, OSError):
      self._crash(cmd)
    n, = struct.unpack('<I', self._read(4, cmd))
    out = []
    for _ in range(n):
      m, = struct.unpack('<I', self._read(4, cmd))
      out.append(self._read(m, cmd))
    if out[0] == b'bad':
      raise RuntimeError('driver: ' + out[1].decode())
    return out[1:]

  def _read(self, n, cmd):
    if n == 0:
      return b''
    b = self.p.stdout.read(n)
    if len(b) != n:
      self._crash(cmd)
    return b


def pack(items):
  items = [i.encode() if isinstance(i, str) else bytes(i) for i in items]
  return struct.pack('<I', len(items)) + b''.join(
      struct.pack('<I', len(i)) + i for i in items)


def unpack(b):
  n, = struct.unpack_from('<I', b, 0)
  o = 4
  out = []
  for _ in range(n):
    m, = struct.unpack_from('<I', b, o)
    o += 4
    out.append(b[o:o + m])
    o += m
  return out


def d(*a):
  """Doubles."""
  return np.asarray(a[0] if len(a) == 1 else a, dtype='<f8').tobytes()


def i(*a):
  """int64s."""
  return np.asarray(a[0] if len(a) == 1 else a, dtype='<i8').tobytes()


def ud(b):
  return np.frombuffer(b, dtype='<f8')


def ui(b):
  return np.frombuffer(b, dtype='<i8')
