"""Builds driver executables against /repo's current working tree.

Sources come from the repository's own Bazel BUILD files (as /opt/wod/gen.py
does), so files that a change adds or moves are picked up.  Objects are cached
under /verif/.build by the hash of everything they depend on (the source, every
header and proto of the tree, and the flags); nothing prebuilt is used.
"""
import concurrent.futures as cf
import hashlib
import os
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = REPO + '/src'
CACHE = os.environ.get('VERIF_BUILD', VERIF + '/.build')
TF = '/opt/wod/tf/tensorflow'
ANDROID = '/usr/lib/x86_64-linux-gnu/android'
KINDS = ('cc_library', 'cc_binary', 'cc_test', 'all_proto_library')
EXT = {
    '@com_google_glog//:glog': ([], ['-lglog']),
    '@zlib': ([], ['-lz']),
    '@boringssl//:crypto': (
        ['-isystem', '/usr/include/android'],
        ['-L' + ANDROID, '-Wl,-rpath,' + ANDROID, '-l:libcrypto.so.0']),
}


class BuildError(Exception):
  pass


class _Env(dict):
  def __missing__(self, name):
    return {'True': True, 'False': False, 'None': None}.get(
        name, lambda *a, **k: [])


def _label(pkg, s):
  if s.startswith('@'):
    return s
  if s.startswith(':'):
    return '//' + pkg + s
  if s.startswith('//'):
    return s if ':' in s else s + ':' + s.rsplit('/', 1)[1]
  return '//' + pkg + ':' + s


def load_targets():
  targets = {}

  def rule(kind, pkg):
    def add(name=None, src=None, srcs=(), hdrs=(), deps=(), copts=(), **kw):
      deps_ = [_label(pkg, d) for d in deps or ()]
      if kind == 'all_proto_library':
        base = '//%s:%s' % (pkg, src[:-len('.proto')])
        targets[base + '_proto'] = dict(
            kind='proto', src=pkg + '/' + src, deps=deps_)
        return
      targets['//%s:%s' % (pkg, name)] = dict(
          kind=kind, pkg=pkg, name=name, deps=deps_, copts=list(copts),
          srcs=[pkg + '/' + s for s in srcs if s.endswith('.cc')])
    return add

  for d, dirs, files in os.walk(SRC + '/waymo_open_dataset'):
    dirs.sort()
    if 'BUILD' in files:
      pkg = os.path.relpath(d, SRC)
      env = _Env((k, rule(k, pkg)) for k in KINDS)
      with open(d + '/BUILD') as f:
        exec(compile(f.read(), d + '/BUILD', 'exec'), env)
  return targets


def closure(targets, name, seen):
  if name in seen:
    return
  seen.append(name)
  if name.startswith('@'):
    return
  t = targets.get(name)
  if t is None and name.endswith('_cc_proto'):
    closure(targets, name[:-len('_cc_proto')] + '_proto', seen)
  elif t is None:
    raise BuildError('no such target: ' + name)
  else:
    for dep in t['deps']:
      closure(targets, dep, seen)


def _sha(*parts):
  h = hashlib.sha256()
  for p in parts:
    if isinstance(p, str):
      p = p.encode()
    h.update(len(p).to_bytes(8, 'little'))
    h.update(p)
  return h.hexdigest()


def _read(p):
  with open(p, 'rb') as f:
    return f.read()


def _walk(ext):
  out = []
  for d, dirs, files in os.walk(SRC + '/waymo_open_dataset'):
    dirs.sort()
    for f in sorted(files):
      if f.endswith(ext):
        out.append(os.path.join(d, f))
  return out


_tree = {}


def tree_hash(ext):
  if ext not in _tree:
    _tree[ext] = _sha(*[x for p in _walk(ext) for x in (p, _read(p))])
  return _tree[ext]


def _run(cmd, what):
  r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
  if r.returncode:
    raise BuildError('%s failed:\n%s\n%s' % (
        what, ' '.join(cmd), r.stdout.decode(errors='replace')[-4000:]))


def gen_protos():
  """protoc for C++ and Python; returns the directory (gen/ and py/ below)."""
  out = os.path.join(CACHE, 'proto-' + tree_hash('.proto')[:16])
  if os.path.isdir(out):
    return out
  os.makedirs(CACHE, exist_ok=True)
  tmp = tempfile.mkdtemp(dir=CACHE, prefix='tmp-proto-')
  os.makedirs(tmp + '/gen')
  os.makedirs(tmp + '/py')
  rel = [os.path.relpath(p, SRC) for p in _walk('.proto')]
  _run(['/usr/bin/protoc', '-I' + SRC, '--cpp_out=' + tmp + '/gen',
        '--python_out=' + tmp + '/py'] + rel, 'protoc')
  try:
    os.rename(tmp, out)
  except OSError:
    if not os.path.isdir(out):
      raise
  return out


SAN = os.environ.get('VERIF_SAN', '')


def flags(san):
  f = ['-std=c++17', '-DNDEBUG', '-fPIC', '-pthread', '-w',
       '-D_GLIBCXX_USE_CXX11_ABI=1', '-DEIGEN_MAX_ALIGN_BYTES=64',
       '-D_GLIBCXX_ASSERTIONS', '-fno-omit-frame-pointer']
  if san:
    f += ['-O1', '-g1', '-fsanitize=address,signed-integer-overflow,bounds,null,'
          'integer-divide-by-zero,vla-bound,shift,return',
          '-fno-sanitize-recover=all']
  else:
    f += ['-O2']
  return f


def build(driver, deps, san=False, extra=(), defines=(), extra_inc=()):
  """Links /verif/cc/<driver>.cc with the BUILD targets `deps`.

  With driver '' the program is the one binary target in deps, built with a
  stand-in for absl/flags.
  """
  if not driver:
    extra_inc = list(extra_inc) + ['-I' + VERIF + '/cc/flagstub']
  gen = gen_protos()
  targets = load_targets()
  seen = []
  for d in deps:
    closure(targets, d, seen)
  base = flags(san) + ['-I' + VERIF + '/cc'] + list(extra_inc) + list(defines) + [
      '-I' + SRC, '-I' + gen + '/gen', '-isystem', TF + '/include']
  libs = []
  inc = []
  jobs = []  # (source path, key content)
  hdr = tree_hash('.h')
  prh = tree_hash('.proto')
  mine = _sha(*[_read(os.path.join(VERIF, 'cc', f))
                for f in sorted(os.listdir(VERIF + '/cc')) if f.endswith('.h')])
  for n in seen:
    if n in EXT:
      inc += EXT[n][0]
      libs += EXT[n][1]
  srcs = []
  for n in seen:
    t = targets.get(n)
    if t is None:
      continue
    if t['kind'] == 'proto':
      srcs.append((gen + '/gen/' + t['src'][:-6] + '.pb.cc', True, []))
    else:
      for s in t['srcs']:
        srcs.append((SRC + '/' + s, False, t['copts']))
  for e in extra:
    srcs.append((e, False, []))
  if driver:
    srcs.append((VERIF + '/cc/' + driver + '.cc', False, []))
  else:
    driver = deps[0].rsplit(':', 1)[1]
  uniq = []
  for s in srcs:
    if s[0] not in [u[0] for u in uniq]:
      uniq.append(s)
  odir = CACHE + '/obj'
  os.makedirs(odir, exist_ok=True)
  objs = []
  todo = []
  for path, is_pb, copts in uniq:
    fl = base + inc + copts
    own = path.startswith(VERIF + '/cc')
    if b'absl/flags' not in _read(path):
      fl = [x for x in fl if 'flagstub' not in x]
    key = _sha(path, _read(path), prh, '' if is_pb else hdr,
               mine if own else '', ' '.join(fl))
    o = '%s/%s.o' % (odir, key[:32])
    objs.append(o)
    if not os.path.exists(o):
      todo.append((path, o, fl, is_pb))
  # Big files first.
  todo.sort(key=lambda x: -os.path.getsize(x[0]))

  def comp(job):
    path, o, fl, is_pb = job
    tmp = '%s.%d.tmp.o' % (o, os.getpid())
    if is_pb and not san:
      fl = [x for x in fl if x != '-O2'] + ['-O1']
    _run(['g++'] + fl + ['-c', path, '-o', tmp], 'compiling ' + path)
    os.rename(tmp, o)

  with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
    list(ex.map(comp, todo))
  bindir = CACHE + '/bin'
  os.makedirs(bindir, exist_ok=True)
  exe = '%s/%s-%s%s' % (bindir, driver, _sha(*objs)[:16], '-san' if san else '')
  if not os.path.exists(exe):
    tmp = '%s.%d.tmp' % (exe, os.getpid())
    link = ['g++', '-pthread', '-fuse-ld=lld', '-o', tmp] + objs
    if san:
      link.insert(1, '-fsanitize=address,undefined')
    _run(link + libs + ['-L' + TF, '-Wl,-rpath,' + TF,
                        '-l:libtensorflow_framework.so.2', '-lglog', '-lrt',
                        '-lm', '-lpthread'], 'linking ' + driver)
    os.rename(tmp, exe)
  return exe
