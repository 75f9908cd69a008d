"""operations on /repo/GRF (geometric relevance filtering), on top of a stand-in for Sage"""
import os
import random
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sage_shim'))
sys.path.insert(0, os.path.join(REPO, 'GRF'))

from fractions import Fraction as Q
import minisage

# what load('grf.sage'); load('smt2.py') does in a Sage session
G = {'__name__': 'grf_session', 'true': True, 'false': False}
for _n in dir(minisage):
  if not _n.startswith('_'):
    G[_n] = getattr(minisage, _n)
for _f in ('grf.sage', 'smt2.py'):
  _p = os.path.join(REPO, 'GRF', _f)
  exec compile(open(_p).read(), _p, 'exec') in G

import local_search


def info():
  return {'files': [local_search.__file__]}


def run(case, sink):
  case['_sink'] = sink
  random.seed(case.get('seed', 1))
  try:
    return globals()['op_' + case['op']](case)
  except minisage.ShimGap as e:
    return {'gap': str(e)}
  except (AttributeError, NameError) as e:
    if 'minisage' in str(e) or "'Poly'" in str(e) or "'Uni'" in str(e) or "'Ring'" in str(e):
      return {'gap': str(e)}
    raise


def mp(p, x):
  """[[coef, {'x0': exp}], ...] -> polynomial over the generators x"""
  r = x[0] - x[0]
  for c, m in p:
    t = x[0] - x[0] + Q(c)
    for v in sorted(m):
      t = t * x[int(v[1:])] ** m[v]
    r = r + t
  return r


def pm(p):
  if not hasattr(p, 'd'):
    p = p.poly() if hasattr(p, 'poly') else None
  if p is None:
    return None
  return [[str(c), dict(m)] for m, c in p.d.items()]


def num(v):
  """a number as exact text; floats marked"""
  if isinstance(v, float):
    return 'f' + repr(v)
  if hasattr(v, 'constant_coefficient'):
    v = v.constant_coefficient()
  return str(Q(v))


def dct(d):
  return dict((str(k), num(v)) for k, v in d.items())


def point(pt, x):
  out = {}
  for v, k in pt.items():
    out[x[int(v[1:])]] = float(k[1:]) if k[0] == 'f' else Q(k)
  return out


def atom(a, x):
  return G['RCF_Atom'](mp(a[0], x), a[1], mp(a[2], x) if len(a) > 2 else 0)


def factory(n):
  return G['QE_Factory'](n)


def show(a):
  return [pm(a.poly), a.op]


def op_atoms(case):
  """evaluation of atoms and goals at points, before and after negation"""
  x = factory(case['n']).x
  out = []
  atoms = [atom(a, x) for a in case['atoms']]
  goal = G['RCF_Goal'](main_goal=atoms[0], goal_hyps=atoms[1:])
  for pt in case['points']:
    d = point(pt, x)
    if not d:
      continue
    row = {'a': [a.eval_on_dict(d) for a in atoms], 'g': goal.eval_on_dict(d)}
    for a in atoms:
      a.negate()
    row['n'] = [a.eval_on_dict(d) for a in atoms]
    for a in atoms:
      a.negate()
    row['aa'] = [a.eval_on_dict(d) for a in atoms]
    out.append(row)
  return out


def op_sample(case):
  n = case['n']
  q = factory(n)
  ps = [mp(p, q.x) for p in case['polys']]
  q.install_polys(*ps)
  kw = {'num_sps': case.get('num_sps', 1)}
  if case.get('goal'):
    kw['goal'] = G['RCF_Goal'](main_goal=atom(case['goal'], q.x))
  if case.get('amb'):
    kw['ambient_hyps'] = [atom(a, q.x) for a in case['amb']]
  ds = q.sample_pt_dicts(**kw)
  return {'pts': [dct(d) for d in ds], 'ord': [str(v) for v in q.proj_ord]}


def decide(case):
  d = G['RCF_GD_Decide'](case['n'], case.get('num_sps', 1))
  x = d.q.x
  hyps = [atom(a, x) for a in case['hyps']]
  if hyps:
    d.assert_hyps(*hyps)
  d.assert_goal(atom(case['goal'], x))
  return d, hyps


def op_check(case):
  """the goal-directed loop: which hypotheses stay, which are promoted, how it ends"""
  d, hyps = decide(case)
  orig = [show(h) for h in hyps]
  promoted = []
  real = d.promote_right

  def hook(i):
    h = d.hyps[i]
    promoted.append(hyps.index(h) if h in hyps else -1)
    return real(i)
  d.promote_right = hook
  import __builtin__
  script = list(case.get('script', []))
  old = __builtin__.raw_input

  def answer(prompt=''):
    return script.pop(0) if script else 'go'
  __builtin__.raw_input = answer
  out = {}
  try:
    r = d.check(partial=bool(case.get('partial')), k=case.get('k', 5), epsilon=case.get('eps', 0.1),
                interactive=bool(case.get('script')))
    out['ret'] = r
  except Exception as e:
    if e.__class__ is not Exception and not isinstance(e, minisage.MIPSolverException):
      raise
    out['stop'] = '%s: %s' % (e.__class__.__name__, e)
    t = str(e)
    if t.startswith('Counterexample!:'):
      env = dict((str(v), v) for v in d.q.x)
      env['Fraction'] = Q
      out['cex'] = dct(eval(t.split(':', 1)[1], env))
  finally:
    __builtin__.raw_input = old
  out['promoted'] = promoted
  out['left'] = [hyps.index(h) if h in hyps else -1 for h in d.hyps]
  out['right'] = [hyps.index(h) if h in hyps else -1 for h in d.goal.goal_hyps]
  out['left_now'] = [show(h) for h in d.hyps]
  out['right_now'] = [show(h) for h in d.goal.goal_hyps]
  out['goal_now'] = show(d.goal.main_goal)
  out['done'] = 'RHS of goal sequent is True' in case['_sink'].text()
  return out


def op_parse(case):
  P = G['ParseSMT']()
  atoms = []
  for t in case['texts']:
    atoms.append(P.fmlsTokenList(t))
  vm = dict((k, str(v)) for k, v in P.context.var_map.items())
  return {'atoms': [[show(a) for a in l] for l in atoms], 'vars': vm}


def op_file(case):
  f = open('in.smt', 'w')
  f.write(case['text'])
  f.close()
  for o in ('out.txt',):
    if os.path.exists(o):
      os.remove(o)
  seen = []
  names = {}
  cls, ctx = G['RCF_GD_Decide'], G['SMTContext']
  real, rv = cls.check, ctx.get_ring_var

  def hook(self, *a, **k):
    if not seen or seen[0] is not self:
      seen[:] = [self, list(self.hyps), [show(h) for h in self.hyps]]
    return real(self, *a, **k)

  def ring_var(self, s):
    r = rv(self, s)
    names[str(s)] = str(r)
    return r
  cls.check, ctx.get_ring_var = hook, ring_var
  out = {}
  try:
    out['counts'] = list(G['grf_on_file']('in.smt', k=case.get('k', 5), epsilon=case.get('eps', 0.1),
                                          interactive=False, outfile='out.txt'))
    out['text'] = open('out.txt').read()
  except Exception as e:
    if e.__class__ is not Exception and not isinstance(e, minisage.MIPSolverException):
      raise
    out['stop'] = '%s: %s' % (e.__class__.__name__, e)
    t = str(e)
    if t.startswith('Counterexample!:'):
      env = dict((v, v) for v in names.values())
      env.update(('x%d' % i, 'x%d' % i) for i in range(6))
      env['Fraction'] = Q
      out['cex'] = dct(eval(t.split(':', 1)[1], env))
  finally:
    cls.check, ctx.get_ring_var = real, rv
  out['names'] = names
  if seen:
    d, hyps, was = seen
    out['left'] = [was[hyps.index(h)] for h in d.hyps]
  return out


def op_good(case):
  """which hypotheses are suggested for given bad subsets"""
  d, hyps = decide(case)
  for i in sorted(case.get('used', []), reverse=True):
    d.promote_right(i)
  out = {'left': [hyps.index(h) for h in d.hyps]}
  w = d.weight_hyps()
  out['weights'] = [num(k) for k in w]
  try:
    out['good'] = sorted(int(i) for i in d.good_hyps([list(b) for b in case['bads']]))
  except minisage.MIPSolverException as e:
    out['stop'] = str(e)
  return out


def op_local(case):
  """points near a sample point, for several points in a row"""
  d, hyps = decide(case)
  out = []
  for pt in case['points']:
    ps = d.sample_points(point(pt, d.q.x))
    out.append([dct(p) for p in ps])
  return out


def op_bads(case):
  """bad subsets recorded around sample points, with the points that were looked at"""
  d, hyps = decide(case)
  for i in sorted(case.get('used', []), reverse=True):
    d.promote_right(i)
  x = d.q.x
  seen = []
  lss = G['lss']
  real, ball = lss.local_search_sampling, d.k_sample_points_in_ball

  def spy(f):
    def g(*a, **k):
      ps = f(*a, **k)
      seen.extend(ps)
      return ps
    return g
  out = []
  lss.local_search_sampling = spy(real)
  d.k_sample_points_in_ball = spy(ball)
  try:
    for pt in case['points']:
      del seen[:]
      row = {}
      try:
        b = d.bad_subsets_on_dict(point(pt, x), k=case.get('k', 5), epsilon=case.get('eps', 0.01))
        row['bads'] = b if b is None else [[int(i) for i in s] for s in b]
      except Exception as e:
        if 'ounterexample' not in str(e):
          raise
        row['cex'] = 1
      row['pts'] = [dct(p) for p in seen]
      out.append(row)
  finally:
    lss.local_search_sampling = real
  return {'rows': out, 'left': [hyps.index(h) for h in d.hyps], 'now': [show(h) for h in d.hyps],
          'goal': show(d.goal.main_goal)}
