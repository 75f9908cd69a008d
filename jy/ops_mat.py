"""operations on /repo/vts/matrix_of_signs.py: cache histories, crash injection and
controlled interleavings of processes sharing one cache directory.

A "process" is a fresh execution of the module's source in its own namespace with its
own pid; every file-system effect it has goes through the proxies below, which is where
crashes are injected and where the scheduler switches between processes."""
import os
import sys
import imp
import shutil
import random
import tempfile
import threading
import __builtin__

REPO = os.environ.get('VERIF_REPO', '/repo')
VTS = os.path.join(REPO, 'vts')
sys.path.insert(0, VTS)

import sympy
import sympy.physics.quantum
import pickle

SRC = os.path.join(VTS, 'matrix_of_signs.py')
CODE = compile(open(SRC, 'rb').read().replace('\r\n', '\n') + '\n', SRC, 'exec')
BASE = os.getcwd()

_open = __builtin__.open
_os = dict((n, getattr(os, n)) for n in
           ('rename', 'remove', 'unlink', 'makedirs', 'mkdir', 'fdopen', 'getpid', 'listdir', 'rmdir')
           if hasattr(os, n))
_isfile = os.path.isfile
_exists = os.path.exists
_isdir = os.path.isdir


def info():
  return {'files': [SRC]}


class Crash(BaseException):
  pass


class World(object):
  """file-system effects of one simulated process"""
  def __init__(self, pid, crash_at=None, sched=None):
    self.pid = pid
    self.count = 0
    self.crash_at = crash_at
    self.dead = False
    self.sched = sched
    self.ops = []

  def step(self, what):
    """True: the effect happens; raises Crash at the chosen point and ever after"""
    if self.dead:
      raise Crash()
    if self.sched is not None:
      self.sched.turn(self)
    self.count += 1
    if len(self.ops) < 4000:
      self.ops.append(what)
    if self.crash_at is not None and self.count >= self.crash_at:
      self.dead = True
      return False
    return True


LOCAL = threading.local()


def world():
  return getattr(LOCAL, 'world', None)


class ProxyFile(object):
  def __init__(self, f, w):
    self._f = f
    self._w = w
  def write(self, s):
    if self._w.step('write'):
      self._f.write(s)
      self._f.flush()
    else:
      self._f.write(s[:len(s) // 2])
      self._f.flush()
      self._f.close()
      raise Crash()
  def writelines(self, ls):
    for l in ls:
      self.write(l)
  def close(self):
    if self._w.dead:
      return
    if not self._w.step('close'):
      self._f.close()
      raise Crash()
    self._f.close()
  def __enter__(self):
    return self
  def __exit__(self, *a):
    self.close()
  def __getattr__(self, n):
    return getattr(self._f, n)
  def __iter__(self):
    return iter(self._f)


class ReadProxy(object):
  """a reader that may be overtaken between two reads"""
  def __init__(self, f, w):
    self._f = f
    self._w = w
  def read(self, *a):
    return self._f.read(*a)
  def readline(self, *a):
    return self._f.readline(*a)
  def close(self):
    self._f.close()
  def __enter__(self):
    return self
  def __exit__(self, *a):
    self._f.close()
  def __getattr__(self, n):
    return getattr(self._f, n)


def p_open(name, mode='r', *a):
  w = world()
  if w is None:
    return _open(name, mode, *a)
  writing = 'w' in mode or 'a' in mode or '+' in mode
  if not writing:
    if not w.step('open-read'):
      raise Crash()
    return _open(name, mode, *a)
  if not w.step('open-write'):
    raise Crash()
  return ProxyFile(_open(name, mode, *a), w)


def p_fdopen(fd, mode='r', *a):
  w = world()
  f = _os['fdopen'](fd, mode, *a)
  if w is None or ('w' not in mode and 'a' not in mode and '+' not in mode):
    return f
  return ProxyFile(f, w)


def wrap(name):
  f = _os[name]
  def g(*a, **k):
    w = world()
    if w is not None and not w.step(name):
      raise Crash()
    return f(*a, **k)
  return g


def p_isfile(p):
  w = world()
  if w is not None and not w.step('isfile'):
    raise Crash()
  return _isfile(p)


def p_exists(p):
  w = world()
  if w is not None and not w.step('exists'):
    raise Crash()
  return _exists(p)


def p_isdir(p):
  w = world()
  if w is not None and not w.step('isdir'):
    raise Crash()
  return _isdir(p)


def p_getpid():
  w = world()
  return w.pid if w is not None else _os['getpid']()


def install():
  __builtin__.open = p_open
  for n in ('rename', 'remove', 'unlink', 'makedirs', 'mkdir', 'listdir', 'rmdir'):
    if n in _os:
      setattr(os, n, wrap(n))
  os.fdopen = p_fdopen
  os.path.isfile = p_isfile
  os.path.exists = p_exists
  os.path.isdir = p_isdir
  os.getpid = p_getpid


def uninstall():
  __builtin__.open = _open
  for n in _os:
    setattr(os, n, _os[n])
  os.path.isfile = _isfile
  os.path.exists = _exists
  os.path.isdir = _isdir


def flat(m):
  rows, cols = m.shape
  return [rows, cols, [str(e) for e in m]]


def process(requests, w):
  """one life of the module; returns one answer per request"""
  LOCAL.world = w
  out = []
  try:
    try:
      mod = imp.new_module('matrix_of_signs')
      mod.__file__ = SRC
      exec CODE in mod.__dict__
    except Crash:
      return [['crashed']]
    except Exception as e:
      return [['import-exc', '%s: %s' % (type(e).__name__, e)]]
    for kind, n in requests:
      try:
        f = mod.get_matrix if kind == 'm' else mod.get_matrix_inverse
        out.append([kind, n, flat(f(n))])
      except Crash:
        out.append(['crashed'])
        return out
      except Exception as e:
        out.append([kind, n, 'exc', '%s: %s' % (type(e).__name__, e)])
    return out
  finally:
    LOCAL.world = None


class Sched(object):
  """runs one simulated process at a time, switching only at file-system effects"""
  def __init__(self, seed):
    self.rng = random.Random(seed)
    self.cv = threading.Condition()
    self.alive = []
    self.current = None
    self.trace = []
    self.burst = 1 + self.rng.randrange(6)
    self.late = {}      # processes that start when an effect of some kind has happened so often
    self.seen = {}
    self.late_starts = 0
  def pick(self):
    if self.alive:
      self.current = self.rng.choice(self.alive)
      if len(self.trace) < 3000:
        self.trace.append(self.current)
    else:
      self.current = None
    self.cv.notifyAll()
  def turn(self, w):
    self.cv.acquire()
    try:
      if w.ops and w.pid in self.alive:
        self.seen[w.ops[-1]] = self.seen.get(w.ops[-1], 0) + 1
        for pid in sorted(self.late):
          kind, n = self.late[pid]
          if self.seen.get(kind, 0) >= n:
            del self.late[pid]
            self.alive.append(pid)
            self.late_starts += 1
            self.current = pid
            if len(self.trace) < 3000:
              self.trace.append(pid)
            self.cv.notifyAll()
            break
        else:
          if self.rng.randrange(self.burst) == 0:
            self.pick()
      elif self.rng.randrange(self.burst) == 0:
        self.pick()
      while self.current != w.pid and (self.current is not None or w.pid in self.late) and (
          w.pid in self.alive or w.pid in self.late):
        self.cv.wait(30)
    finally:
      self.cv.release()
  def done(self, pid):
    self.cv.acquire()
    try:
      if pid in self.alive:
        self.alive.remove(pid)
      self.late.pop(pid, None)
      if not self.alive:
        self.alive.extend(sorted(self.late))
        self.late.clear()
      self.pick()
    finally:
      self.cv.release()


def listing():
  try:
    return sorted(_os['listdir']('cache'))
  except OSError:
    return []


def run(case, sink):
  d = tempfile.mkdtemp(dir=BASE)
  here = os.getcwd()
  os.chdir(d)
  install()
  try:
    return globals()['op_' + case['op']](case)
  finally:
    uninstall()
    os.chdir(here)
    shutil.rmtree(d, True)


def op_history(case):
  """a sequence of process lives in one directory, with cache files removed in between"""
  out = []
  for i, life in enumerate(case['lives']):
    for name in life.get('drop', []):
      files = listing()
      if files:
        _os['remove'](os.path.join('cache', files[name % len(files)]))
    out.append({'ans': process(life['req'], World(1000 + i)), 'files': listing()})
  return out


def op_crash(case):
  """a process that dies at its k-th file-system effect, then a fresh process"""
  out = []
  pid = 2000
  for life in case.get('before', []):
    process(life['req'], World(pid))
    pid += 1
  total = None
  k = case['k']
  if isinstance(k, float):
    # learn the number of effects from a dry run elsewhere
    here = os.getcwd()
    dry = tempfile.mkdtemp(dir=BASE)
    if _exists('cache'):
      shutil.copytree('cache', os.path.join(dry, 'cache'))
    os.chdir(dry)
    w = World(1)
    process(case['req'], w)
    total = w.count
    ops = w.ops
    os.chdir(here)
    shutil.rmtree(dry, True)
    kind = case.get('kind')
    at = [i + 1 for i, name in enumerate(ops) if kind is None or name == kind]
    if not at:
      at = range(1, total + 1)
    k = at[min(len(at) - 1, int(k * len(at)))]
  w = World(pid, crash_at=k)
  first = process(case['req'], w)
  out.append({'died': w.dead, 'at': w.ops[-1] if w.ops else None, 'k': k, 'total': total,
              'files': listing()})
  for j in range(2):
    out.append({'ans': process(case['after'], World(pid + 1 + j)), 'files': listing()})
  return out


def op_interleave(case):
  """several processes sharing one cache directory"""
  s = Sched(case['seed'])
  n = len(case['procs'])
  res = [None] * n
  crash = case.get('crash') or {}
  def body(i):
    w = World(3000 + i, sched=s, crash_at=crash.get(str(i)))
    try:
      res[i] = process(case['procs'][i], w)
    finally:
      s.done(3000 + i)
  s.late = dict((3000 + int(i), t) for i, t in (case.get('late') or {}).items())
  s.alive = [3000 + i for i in range(n) if 3000 + i not in s.late]
  ts = [threading.Thread(target=body, args=(i,)) for i in range(n)]
  s.cv.acquire()
  s.pick()
  s.cv.release()
  for t in ts:
    t.start()
  for t in ts:
    t.join()
  fresh = process(case['after'], World(3500))
  switches = sum(1 for a, b in zip(s.trace, s.trace[1:]) if a != b)
  return {'res': res, 'fresh': fresh, 'switches': switches, 'late': s.late_starts, 'files': listing(),
          'trace': hash(tuple(s.trace))}
