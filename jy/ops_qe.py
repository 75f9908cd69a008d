"""operations on /repo/highschool_qe (quantifier elimination by Muchnik and Cohen-Hormander)"""
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'shims'))
sys.path.insert(0, os.path.join(REPO, 'highschool_qe'))

import sympy
import muchnik
import cohenhorm
import sympywrapper
import cachedsympywrapper


class Memo(object):
  """the algebra interface the procedures are given: SympyWrapper's answers, remembered
  (the procedures ask the same few questions thousands of times)"""
  def __init__(self, v):
    self._w = sympywrapper.SympyWrapper(v)
    self._m = {}
    for name in dir(self._w):
      if not name.startswith('_'):
        setattr(self, name, self._make(name, getattr(self._w, name)))

  def _make(self, name, f):
    memo = self._m

    def g(*args):
      k = (name, args)
      if k not in memo:
        memo[k] = f(*args)
      return memo[k]
    return g


WRAP = {'plain': sympywrapper.SympyWrapper, 'cached': cachedsympywrapper.CachedSympyWrapper,
        'memo': Memo}
POOL = {}


def info():
  return {'files': [muchnik.__file__]}


def mp(p):
  """[[coef, {var: exp}], ...] -> expanded sympy expression"""
  r = sympy.Integer(0)
  for c, m in p:
    t = sympy.Rational(c)
    for v in sorted(m):
      t = t * sympy.Symbol(v) ** m[v]
    r = r + t
  return r


def pm(e):
  """sympy polynomial -> [[coef, {var: exp}]]"""
  e = sympy.sympify(e)
  syms = sorted(e.free_symbols, key=str)
  if not syms:
    return [[str(e), {}]]
  out = []
  for m, c in sympy.Poly(e, *syms).terms():
    out.append([str(c), dict((str(s), int(k)) for s, k in zip(syms, m) if k)])
  return out


def algebra(case):
  """'fresh' algebra objects or one shared by all cases that name it"""
  k = case.get('wrap', 'plain')
  v = sympy.Symbol(case.get('var', 'x'))
  if case.get('share'):
    key = (k, case.get('var', 'x'), case['share'])
    if key not in POOL:
      POOL[key] = WRAP[k](v)
    return POOL[key]
  return WRAP[k](v)


def run(case, sink):
  case['_sink'] = sink
  return globals()['op_' + case['op']](case)


def dnf(ret):
  """the clauses over a table of the distinct polynomials"""
  table, index = [], {}
  out = []
  for clause in ret:
    parts = []
    for part in clause:
      row = []
      for p in part:
        if p not in index:
          index[p] = len(table)
          table.append(pm(p))
        row.append(index[p])
      parts.append(row)
    out.append(parts)
  return {'polys': table, 'clauses': out}


def verdict(sink):
  for line in reversed(sink.text().splitlines()):
    line = line.strip()
    if line.startswith('Satisf'):
      return 'sat'
    if line.startswith('Unsat'):
      return 'unsat'
  return None


def tables(sink, top=6):
  """the sign tables the procedure printed: [[row polynomial, [cells]], ...]"""
  out, cur = [], []
  for line in sink.text().replace('\r', '\n').splitlines() + ['']:
    f = line.rsplit('   ', 1)
    cells = f[-1].split() if len(f) == 2 else []
    if cells and all(c in ('-1', '0', '1', '*') for c in cells):
      try:
        cur.append([pm(sympy.sympify(f[0].strip())), cells])
        continue
      except Exception:
        pass
    if cur:
      out.append(cur)
    cur = []
  return out[:top], len(out)


def answer(case, f, ls):
  before = [list(l) for l in ls]
  r = f(*ls)
  out = {'dnf': dnf(r), 'v': verdict(case['_sink']), 'mut': before != ls}
  if case.get('tables'):
    out['tables'], out['ntables'] = tables(case['_sink'])
  return out


def op_real(case):
  ls = [[mp(p) for p in case[k]] for k in ('lt', 'eq', 'gt')]
  alg = algebra(case)
  if case['who'] == 'muchnik':
    return answer(case, muchnik.Muchniker(alg).real_full, ls)
  return answer(case, cohenhorm.CohenHormander(alg).real_full, ls)


def op_complex(case):
  ls = [[mp(p) for p in case[k]] for k in ('eq', 'ne')]
  alg = algebra(case)
  return answer(case, muchnik.Muchniker(alg).complex_full, ls)


def value(r):
  """an algebra result: polynomials, tuples of them, numbers, booleans"""
  if isinstance(r, tuple):
    return [value(x) for x in r]
  if isinstance(r, bool):
    return r
  if r == -sympy.oo:
    return '-oo'
  return pm(r)


def op_alg(case):
  """a history of algebra calls: [wrapper, variable, function, args...]"""
  out = []
  for wrap, var, f, args in case['calls']:
    alg = algebra({'wrap': wrap, 'var': var, 'share': case['share']})
    try:
      out.append(value(getattr(alg, f)(*[mp(a) for a in args])))
    except Exception as e:
      out.append({'exc': '%s: %s' % (e.__class__.__name__, e)})
  return out


def val(p, pt):
  return sympy.sympify(p).subs(dict((sympy.Symbol(k), sympy.Rational(v)) for k, v in pt.items()))


def op_partial(case):
  """a partial procedure whose interactive questions are answered with the signs at a point"""
  import __builtin__
  sink = case['_sink']
  alg = algebra(case)
  mu = muchnik.Muchniker(alg)
  name = case['kind'] + '_extend'
  depth, got, asked = [0], [], []
  orig = getattr(mu, name)

  def hook(diagram, todo):
    depth[0] += 1
    try:
      r = orig(diagram, todo)
    finally:
      depth[0] -= 1
    if depth[0] == 0:
      got.append(r)
    return r
  setattr(mu, name, hook)
  bad = [case.get('bad', 0)]
  here = [case['pt']]

  def answer_(prompt=''):
    if bad[0]:
      bad[0] -= 1
      return ['7', '', 'yes', '2'][bad[0] % 4]
    line = (sink.text() + prompt).split('value for:')[-1]
    target = line.rsplit(':', 1)[0].strip()
    asked.append(target)
    s = sympy.sign(val(target, here[0]))
    if case['kind'] == 'complex':
      s = abs(s)
    return str(s)
  ps = [mp(p) for p in case['polys']]
  before = list(ps)
  old = getattr(__builtin__, 'raw_input')
  __builtin__.raw_input = answer_
  try:
    f = getattr(mu, case['kind'] + '_partial')
    # the same object may have answered at other points before
    for here[0] in case.get('earlier', []) + [case['pt']]:
      got[:] = []
      asked[:] = []
      if case.get('default'):
        f(ps)
      else:
        f(ps, getattr(mu, case['kind'][0] + '_assignment_interactive'))
  finally:
    __builtin__.raw_input = old
  out = {'asked': len(asked), 'mut': ps != before, 'rows': None}
  if got:
    d = got[-1]
    out['rows'] = [[pm(p), [int(d[p][c][0]) for c in sorted(d[p].keys())],
                    [repr(c) for c in sorted(d[p].keys())]] for p in d]
    out['inputs'] = [p in d for p in before]
  return out


def op_assign(case):
  """the ready-made assignments: constants get their sign, everything else the one value"""
  mu = muchnik.Muchniker(algebra(case))
  ps = [mp(p) for p in case['polys']]
  d = getattr(mu, case['name'])(ps)
  return [[int(d[p][c][0]) for c in sorted(d[p].keys())] if p in d else None for p in ps]
