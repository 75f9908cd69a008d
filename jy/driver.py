"""Jython 2.7 driver: runs workload cases against the real code of /repo and
records one event per case (plus the internal calls the hooks saw).

usage: jython driver.py FAMILY CASES.jsonl OUT.jsonl
The current directory is a scratch directory (the code under test writes there).
"""
import sys
import os
import json
import time
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)


class Sink(object):
  """stands in for stdout while the code under test runs"""
  def __init__(self):
    self.parts = []
    self.size = 0
  def write(self, s):
    if self.size < 400000:
      self.parts.append(s)
      self.size += len(s)
  def flush(self):
    pass
  def text(self):
    return ''.join(self.parts)


def main():
  family, cases_path, out_path = sys.argv[1:4]
  real_out = sys.stdout
  sys.stdout = Sink()
  out = open(out_path, 'a')

  def emit(ev):
    out.write(json.dumps(ev) + '\n')
    out.flush()

  try:
    mod = __import__('ops_' + family)
  except:
    emit({'id': '__import__', 'exc': traceback.format_exc()[-3000:]})
    out.close()
    return
  emit({'id': '__ready__', 'info': mod.info()})
  for line in open(cases_path):
    line = line.strip()
    if not line:
      continue
    case = json.loads(line)
    emit({'id': '__start__', 'case': case['id']})
    sink = Sink()
    sys.stdout = sink
    t0 = time.time()
    ev = {'id': case['id']}
    try:
      ev['ret'] = mod.run(case, sink)
    except:
      et, evl, tb = sys.exc_info()
      ev['exc'] = '%s: %s' % (getattr(et, '__name__', et), unicode(evl)[:300])
      ev['tb'] = traceback.format_exc()[-2500:]
    sys.stdout = real_out
    ev['t'] = time.time() - t0
    internal = getattr(mod, 'drain', None)
    if internal:
      ev['int'] = internal()
    if case.get('want_out'):
      ev['out'] = sink.text()[:case['want_out']]
    emit(ev)
  emit({'id': '__end__'})
  out.close()

main()
