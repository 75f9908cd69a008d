"""operations on the problem front end of /repo/vts: GRF parser, univariate reduction,
sequent preformatting, example corpus and the checker"""
import os
import re
import sys
import pickle
import shutil
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'vts'))

import sympy
import ops_vts
import grf_parser
import examples_parser
import checker

BASE = os.getcwd()
X = sympy.Symbol('x')
CLS = {'le': sympy.Le, 'lt': sympy.Lt, 'eq': sympy.Eq, 'ne': sympy.Ne, 'ge': sympy.Ge, 'gt': sympy.Gt}
NAMES = [(sympy.StrictLessThan, 'lt'), (sympy.LessThan, 'le'), (sympy.StrictGreaterThan, 'gt'),
         (sympy.GreaterThan, 'ge'), (sympy.Eq, 'eq'), (sympy.Ne, 'ne')]
num = ops_vts.num
build = ops_vts.build


def info():
  return {'files': [grf_parser.__file__]}


def drain():
  return ops_vts.drain()


def clsname(r):
  for c, n in NAMES:
    if isinstance(r, c):
      return n
  return 'other:%s' % type(r).__name__


def value(e, pt):
  v = sympy.sympify(e).subs([(sympy.Symbol(k), sympy.Rational(q)) for k, q in pt.items()])
  if isinstance(v, sympy.Float):
    v = sympy.Rational(v)
  return str(v)


def rel_values(r, pts):
  if r == True or r == False:
    return {'bool': bool(r == True)}
  return {'cls': clsname(r), 'free': sorted(str(s) for s in r.free_symbols),
          'l': [value(r.lhs, p) for p in pts], 'r': [value(r.rhs, p) for p in pts]}


def coeffs(e):
  e = sympy.sympify(e)
  if [s for s in e.free_symbols if s != X]:
    return 'other:%s' % e
  d = {}
  for m, c in sympy.Poly(e, X).terms():
    d[int(m[0])] = c
  n = max(d) if d else 0
  out = []
  for i in range(n + 1):
    c = d.get(i, 0)
    if isinstance(c, sympy.Float):
      c = sympy.Rational(c)
    out.append(num(c) if not isinstance(c, int) else c)
  return out


def rel_coeffs(r):
  if r == True or r == False:
    return {'bool': bool(r == True)}
  return {'cls': clsname(r), 'l': coeffs(r.lhs), 'r': coeffs(r.rhs)}


def mkrel(d):
  """{'cls','l','r'} with ASTs or {'bool': b} -> sympy relation"""
  if 'bool' in d:
    return sympy.true if d['bool'] else sympy.false
  return CLS[d['cls']](build(d['l']), build(d['r']))


def run(case, sink):
  ops_vts.HOOK['on'] = False
  case['_sink'] = sink
  return globals()['op_' + case['op']](case)


def op_parse(case):
  out = []
  for res, start, end in grf_parser.cmd.scanString(case['text']):
    out.append({'name': res.get('str_name', ''),
                'ante': [rel_values(r, case['pts']) for r in res['antecedent']['fmls']],
                'succ': [rel_values(r, case['pts']) for r in res['succedent']['fmls']]})
  return out


def op_univ(case):
  rels = [mkrel(d) for d in case['rels']]
  before = list(rels)
  out = examples_parser.make_univariate(rels)
  return {'v': [rel_coeffs(r) for r in out], 'mut': rels != before}


def op_pre(case):
  ante = [mkrel(d) for d in case['ante']]
  succ = [mkrel(d) for d in case['succ']]
  b = (list(ante), list(succ))
  clauses = checker.vts_preformat(ante, succ)
  maps = []
  for c in clauses:
    m = checker.make_relation_map(c)
    maps.append(dict((k, [coeffs(p) for p in m[k]]) for k in m))
  return {'clauses': [[rel_coeffs(r) for r in c] for c in clauses], 'maps': maps,
          'mut': b != (ante, succ)}


def op_negate(case):
  rels = [mkrel(d) for d in case['rels']]
  return {'neg': [rel_coeffs(r) for r in checker.negate_relations(rels)],
          'less': [rel_coeffs(r) for r in checker.rewrite_to_less(rels)]}


class Dir(object):
  def __enter__(self):
    self.d = tempfile.mkdtemp(dir=BASE)
    self.here = os.getcwd()
    return self.d
  def __exit__(self, *a):
    os.chdir(self.here)
    shutil.rmtree(self.d, True)


def put(path, text):
  d = os.path.dirname(path)
  if not os.path.isdir(d):
    os.makedirs(d)
  f = open(path, 'wb')
  f.write(text)
  f.close()


def example(ex):
  ante, succ = ex
  return [[rel_coeffs(r) for r in ante], [rel_coeffs(r) for r in succ]]


def op_corpus(case):
  with Dir() as d:
    for name in case['files']:
      put(os.path.join(d, 'GRF', 'Examples', 'MetiTarski', name), case['files'][name].encode('utf-8'))
    os.makedirs(os.path.join(d, 'vts'))
    os.chdir(os.path.join(d, 'vts'))
    examples_parser.write_sympy_parseable_examples()
    for name in case.get('hiding', {}):
      exs = [([mkrel(r) for r in a], [mkrel(r) for r in s]) for a, s in case['hiding'][name]]
      put(os.path.join(d, 'vts', 'Examples', 'HidingProblems', name), pickle.dumps(exs))
    loaded = examples_parser.unpickle_dirs()
    gen = [[example(e) for e in f] for f in examples_parser.unpickle_dirs_gen()]
    out = {}
    for dn in loaded:
      out[dn] = dict((fn, [example(e) for e in loaded[dn][fn]]) for fn in loaded[dn])
    return {'loaded': out, 'gen': gen}


def op_checker(case):
  with Dir() as d:
    for dn in case['dirs']:
      for fn in case['dirs'][dn]:
        exs = [([mkrel(r) for r in a], [mkrel(r) for r in s]) for a, s in case['dirs'][dn][fn]]
        put(os.path.join(d, 'Examples', dn, fn), pickle.dumps(exs))
    os.chdir(d)
    checker.check_examples(case['vts'])
    vals, rep = [], []
    for line in case['_sink'].text().splitlines():
      line = line.strip()
      if line.startswith('file nr'):
        vals.append([])
      elif line.startswith('formula value:') and vals:
        vals[-1].append(line.split(':')[1].strip())
      else:
        m = re.match(r'^\(?(\d+), (\d+)\)? - (\w+)$', line)
        if m:
          rep.append([int(m.group(1)), int(m.group(2)), m.group(3)])
    return {'vals': vals, 'rep': rep}
