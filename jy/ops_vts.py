"""operations on /repo/vts"""
import os
import sys
import json
import copy

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'vts'))

import sympy
import z3rcf

MK = []
EPS = []
CURRENT = []


def which(p):
  for i, q in enumerate(CURRENT):
    if q == p:
      return i


def value_at(p, x):
  v = 0
  for c in reversed(p):
    v = v * x + c
  return v

_mk = z3rcf.MkRoots

def _recording_MkRoots(p, *a):
  # the boundary to the root isolation back end: recorded, never altered
  r = _mk(p, *a)
  if len(MK) < 400:
    try:
      if plain(p):
        MK.append([poly(p), [x.decimal(9) for x in r]])
      else:
        EPS.append([which(p), [x.decimal(9) for x in r], all(value_at(p, x) == 0 for x in r)])
    except Exception:
      pass
  return r

z3rcf.MkRoots = _recording_MkRoots

import uni_vts
import isym
import matrix_of_signs

LOG = []
SEEN = set()
HOOK = {'on': False, 'budget': 0}


def info():
  return {'files': [os.path.abspath(uni_vts.__file__)]}


def num(c):
  """JSON form of a coefficient: int, or fraction/expression as string"""
  if isinstance(c, bool):
    return 'bool:%s' % c
  if isinstance(c, (int, long)):
    return c
  if isinstance(c, sympy.Rational):
    if c.q == 1:
      return int(c.p)
    return '%s/%s' % (c.p, c.q)
  if isinstance(c, float):
    return 'float:%r' % c
  return 'str:%s' % (c,)


def poly(p):
  return [num(c) for c in p]


def plain(p):
  for c in p:
    if isinstance(c, bool) or not isinstance(c, (int, long)):
      return False
  return True


def drain():
  r = {'calls': list(LOG), 'mk': list(MK)}
  if EPS:
    r['eps'] = list(EPS)
  del EPS[:]
  del CURRENT[:]
  del LOG[:]
  del MK[:]
  return r


def _hook(mod, name, describe):
  """wrap mod.name so that every internal call is recorded (never altered)"""
  f = getattr(mod, name, None)
  if f is None:
    return
  def wrapper(*a, **k):
    r = f(*a, **k)
    if HOOK['on'] and HOOK['budget'] > 0:
      try:
        d = describe(a, r)
      except Exception:
        d = None
      if d is not None:
        key = json.dumps(d)
        if key not in SEEN:
          SEEN.add(key)
          HOOK['budget'] -= 1
          LOG.append(d)
    return r
  setattr(mod, name, wrapper)


def _d_tq(a, r):
  if len(a) == 2 and plain(a[0]) and plain(a[1]):
    return ['tq', poly(a[0]), poly(a[1]), num(r)]

def _d_srs(a, r):
  if len(a) == 2 and plain(a[0]) and plain(a[1]):
    return ['srs', poly(a[0]), poly(a[1]), [poly(p) for p in r]]

def _d_ci(a, r):
  if len(a) == 2 and plain(a[0]) and plain(a[1]):
    return ['ci', poly(a[0]), poly(a[1]), num(r)]

def _d_spr(a, r):
  if len(a) == 2 and plain(a[0]) and plain(a[1]):
    return ['spr', poly(a[0]), poly(a[1]), poly(r)]

def _d_mul(a, r):
  if len(a) == 2 and plain(a[0]) and plain(a[1]):
    return ['mul', poly(a[0]), poly(a[1]), poly(r)]

def _d_mpl(a, r):
  if len(a) == 1 and all(plain(p) for p in a[0]):
    return ['mpl', [poly(p) for p in a[0]], [poly(p) for p in r]]

def _d_dds(d):
  return {'dec': d.point.decimal(12),
          'neg': [poly(p) for p in d.neg_polies],
          'zer': [poly(p) for p in d.zer_polies],
          'pos': [poly(p) for p in d.pos_polies]}

def _d_disc(a, r):
  # only top-level calls: all roots of the polynomial are given
  if len(a) == 2 and plain(a[1]):
    return ['disc', [x.decimal(12) for x in a[0]], poly(a[1]), [_d_dds(d) for d in r]]

def _d_sign(a, r):
  if len(a) == 2 and plain(a[1]) and plain(a[0].origin):
    return ['sgn', poly(a[0].origin), _d_dds(a[0]), poly(a[1]), num(r)]

def _d_esign(a, r):
  if len(a) == 2 and plain(a[1]) and plain(a[0].origin):
    return ['esgn', poly(a[0].origin), _d_dds(a[0]), poly(a[1]), num(r)]

_hook(uni_vts, 'tarski_query', _d_tq)
_hook(uni_vts, 'signed_remainder_cauchy_index', _d_ci)
_hook(uni_vts, 'signed_remainder_sequence', _d_srs)
_hook(uni_vts, 'make_product_list', _d_mpl)
_hook(uni_vts, 'evaluate_single_on_sign_assignment', _d_sign)
_hook(uni_vts, 'e_close_evaluate_single_on_sign_assignment', _d_esign)


X = sympy.Symbol('x')


def build(ast, syms=None):
  """JSON expression -> sympy expression (no call into /repo)"""
  k = ast[0]
  if k == 'v':
    return sympy.Symbol(ast[1])
  if k == 'q':
    return sympy.Rational(ast[1])
  if k == 'i':
    return ast[1]               # a python int
  if k == 'f':
    return sympy.Float(ast[1])
  if k == '+':
    return reduce(lambda a, b: a + b, [build(t) for t in ast[1:]])
  if k == '*':
    return reduce(lambda a, b: a * b, [build(t) for t in ast[1:]])
  if k == '-':
    if len(ast) == 2:
      return -build(ast[1])
    return build(ast[1]) - build(ast[2])
  if k == '^':
    return build(ast[1]) ** ast[2]
  if k == 'x':                  # expanded
    return sympy.expand(build(ast[1]))
  if k == 'p':                  # coefficient list in a variable
    s = sympy.Symbol(ast[2]) if len(ast) > 2 else X
    return sum([sympy.Rational(c) * s ** i for i, c in enumerate(ast[1])], sympy.Integer(0))
  raise ValueError(k)


def lists(case):
  return [[list(p) for p in case[k]] for k in ('le', 'lt', 'eq', 'ne')]


def run(case, sink):
  op = case['op']
  HOOK['on'] = bool(case.get('hook'))
  HOOK['budget'] = case.get('hook') or 0
  return globals()['op_' + op](case)


def _verdict(v):
  return v if v is True or v is False else 'other:%r' % (v,)


def op_internal_vts(case):
  ls = lists(case)
  before = copy.deepcopy(ls)
  r = uni_vts.internal_vts(*ls)
  return {'v': _verdict(r), 'mut': ls != before}


def op_internal_ts(case):
  ls = lists(case)
  before = copy.deepcopy(ls)
  r = uni_vts.internal_ts(*ls)
  return {'v': _verdict(r), 'mut': ls != before}


def _sym_lists(case):
  return [[build(p) for p in case[k]] for k in ('le', 'lt', 'eq', 'ne')]


def op_isym_vts(case):
  return {'v': _verdict(isym.vts(*_sym_lists(case)))}


def op_isym_ts(case):
  return {'v': _verdict(isym.ts(*_sym_lists(case)))}


def op_tq(case):
  p, q = list(case['p']), list(case['q'])
  r = uni_vts.tarski_query(p, q)
  return {'v': num(r), 'mut': p != case['p'] or q != case['q']}


def op_ci(case):
  return {'v': num(uni_vts.signed_remainder_cauchy_index(list(case['p']), list(case['q'])))}


def op_srs(case):
  p, q = list(case['p']), list(case['q'])
  r = uni_vts.signed_remainder_sequence(p, q)
  return {'v': [poly(s) for s in r], 'mut': p != case['p'] or q != case['q']}


def op_spr(case):
  p, q = list(case['p']), list(case['q'])
  r = uni_vts.signed_pseudo_remainder(p, q)
  return {'v': poly(r), 'mut': p != case['p'] or q != case['q']}


def op_arith(case):
  ps = [list(p) for p in case['ps']]
  out = {'mul': poly(uni_vts.multiply(ps[0], ps[1])),
         'der': [poly(uni_vts.derivative(p)) for p in ps],
         'ev': [num(uni_vts.evaluate_poly(ps[0], sympy.Rational(x))) for x in case['pts']]}
  if case.get('mpl') is not None:
    out['mpl'] = [poly(p) for p in uni_vts.make_product_list([list(p) for p in case['mpl']])]
  out['mut'] = ps != case['ps']
  return out


def _dds_for(p):
  rs = z3rcf.MkRoots(p)
  dds = uni_vts.get_discri_der_signs(rs, p)
  for d in dds:
    d.set_origin_poly(p)
  return rs, dds


def op_disc(case):
  p = list(case['p'])
  rs, dds = _dds_for(p)
  out = []
  for d in dds:
    e = _d_dds(d)
    e['all'] = [poly(q) for q in d.get_all_polies()]
    e['gs'] = [num(d.get_sign(q)) for q in d.get_all_polies()]
    out.append(e)
  return {'nroots': len(rs), 'dds': out, 'mut': p != case['p']}


def op_sign(case):
  p = list(case['p'])
  rs, dds = _dds_for(p)
  out = []
  maxd = case.get('maxd', 3)
  for d in dds:
    e = _d_dds(d)
    n = len(d.get_all_polies()) + 1
    if n > maxd:
      e['skip'] = n
      out.append(e)
      continue
    e['at'] = [num(uni_vts.evaluate_single_on_sign_assignment(d, list(g))) for g in case['goals']]
    e['right'] = [num(uni_vts.e_close_evaluate_single_on_sign_assignment(d, list(g)))
                  for g in case['goals']]
    out.append(e)
  return {'nroots': len(rs), 'dds': out}


def op_convert(case):
  e = build(case['e'])
  r = isym.convert(e)
  b = isym.convert_back(r)
  b = sympy.sympify(b)
  terms = [[num(c), int(m[0])] for m, c in sympy.Poly(b, X).terms()]
  return {'v': poly(r), 'types': sorted(set(type(c).__name__ for c in r)), 'back': terms,
          'free': sorted(str(s) for s in b.free_symbols)}


def op_probe(case):
  return [len(_mk(list(p))) for p in case['ps']]


def eps_poly(p, es):
  out = []
  for c in p:
    v = 0
    for i, j, q in c:
      q = sympy.Rational(q)
      t = int(q.p)
      if q.q != 1:
        t = z3rcf.MkSmallInt(int(q.p)) / z3rcf.MkSmallInt(int(q.q))
      for _ in range(i):
        t = t * es[0]
      for _ in range(j):
        t = t * es[1]
      v = v + t
    out.append(v)
  return out


def _eps_lists(case):
  es = [z3rcf.MkInfinitesimal('eps_1'), z3rcf.MkInfinitesimal('eps_2')]
  ls = [[eps_poly(p, es) for p in case[k]] for k in ('le', 'lt', 'eq', 'ne')]
  CURRENT.extend([p for l in ls for p in l])
  return ls


def op_eps_vts(case):
  return {'v': _verdict(uni_vts.internal_vts(*_eps_lists(case)))}


def op_eps_ts(case):
  return {'v': _verdict(uni_vts.internal_ts(*_eps_lists(case)))}


def op_eps_probe(case):
  """what z3 alone has to be able to do: isolate the roots, signs at and next to them"""
  es = [z3rcf.MkInfinitesimal('eps_1'), z3rcf.MkInfinitesimal('eps_2')]
  ps = [eps_poly(p, es) for p in case['ps']]
  e = z3rcf.MkInfinitesimal('eps')
  n = 0
  for p in ps:
    roots = list(_mk(p))
    for pt in [r for root in roots for r in (root, root + e)] + [-1 / e]:
      pt.decimal(5)
      for q in ps:
        v = 0
        for i, c in enumerate(q):
          v = v + c * pt ** i
        n += 1 if v > 0 else 2 if v < 0 else 3
  return n
