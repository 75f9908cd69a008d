"""The part of Sage that GRF uses, in plain Python 2: exact multivariate polynomials over
the rationals, root isolation, Groebner bases, resultants, 0-1 programs. Written from the
Sage reference manual; polynomials compare and hash by their value whatever ring they are in
(Sage's coercion makes them equal too)."""
import math as _math
from fractions import Fraction as Q


class ShimGap(Exception):
  """something of Sage that this stand-in does not have"""


def _num(v):
  return isinstance(v, (int, long, Q))


def _rat(v):
  if isinstance(v, float):
    return Q(v)
  return Q(v)


def _key(m, names):
  """degrevlex (x0 > x1 > ...): larger is bigger"""
  e = [0] * len(names)
  for v, k in m:
    e[names.index(v)] = k
  return (sum(e), tuple(-k for k in reversed(e)))


def _vkey(v):
  i = len(v)
  while i and v[i - 1].isdigit():
    i -= 1
  return (v[:i], int(v[i:] or 0))


class Poly(object):
  __slots__ = ('d', 'ring', '_h')

  def __init__(self, d, ring):
    self.d = d
    self.ring = ring
    self._h = None

  # ------------------------------------------------ value
  def _names(self):
    vs = set(v for m in self.d for v, _ in m)
    return sorted(vs, key=_vkey)

  def __hash__(self):
    if self._h is None:
      if self.is_constant():
        self._h = hash(self.constant_coefficient())
      else:
        self._h = hash(frozenset(self.d.items()))
    return self._h

  def _cmp_poly(self, other):
    o = _coerce(other, self.ring)
    if o is None:
      return None
    return self - o

  def __eq__(self, other):
    if isinstance(other, Poly):
      return self.d == other.d
    if _num(other):
      return self.d == ({(): Q(other)} if other else {})
    if isinstance(other, float):
      return self.is_constant() and float(self.constant_coefficient()) == other
    return False

  def __ne__(self, other):
    return not self == other

  def _sgn(self, other):
    """Sage orders polynomials by their leading terms"""
    if isinstance(other, float) and self.is_constant():
      c = float(self.constant_coefficient())
      return (c > other) - (c < other)
    if not (isinstance(other, Poly) or _num(other)):
      raise TypeError('cannot compare a polynomial with %r' % (other,))
    diff = self - other
    if not diff.d:
      return 0
    return 1 if diff.lc() > 0 else -1

  def __lt__(self, o):
    return self._sgn(o) < 0

  def __le__(self, o):
    return self._sgn(o) <= 0

  def __gt__(self, o):
    return self._sgn(o) > 0

  def __ge__(self, o):
    return self._sgn(o) >= 0

  def __cmp__(self, o):
    return self._sgn(o)

  def __nonzero__(self):
    return bool(self.d)

  def is_zero(self):
    return not self.d

  def is_one(self):
    return self == 1

  def __float__(self):
    return float(self.constant_coefficient()) if self.is_constant() else self._gap('float')

  def __int__(self):
    return int(self.constant_coefficient())

  def _gap(self, what):
    raise TypeError('unable to convert %s to %s' % (self, what))

  def __str__(self):
    if not self.d:
      return '0'
    out = ''
    for m in self._monos():
      c = self.d[m]
      s = '*'.join(v if k == 1 else '%s^%d' % (v, k) for v, k in m)
      a = abs(c)
      if not s:
        t = str(a)
      elif a == 1:
        t = s
      else:
        t = '%s*%s' % (a, s)
      if not out:
        out = ('-' if c < 0 else '') + t
      else:
        out += (' - ' if c < 0 else ' + ') + t
    return out

  __repr__ = __str__

  # ------------------------------------------------ arithmetic
  def _bin(self, other, f, swap=False):
    if isinstance(other, float):
      if not self.is_constant():
        raise ShimGap('polynomial with float coefficients')
      a, b = float(self.constant_coefficient()), other
      return f(b, a) if swap else f(a, b)
    return None

  def _ring_with(self, other):
    return other.ring if isinstance(other, Poly) and len(other.ring.names) > len(self.ring.names) else self.ring

  def __add__(self, other):
    if isinstance(other, float):
      return self._bin(other, lambda a, b: a + b)
    o = _coerce(other, self.ring)
    if o is None:
      return NotImplemented
    d = dict(self.d)
    for m, c in o.d.iteritems():
      s = d.get(m, 0) + c
      if s:
        d[m] = s
      elif m in d:
        del d[m]
    return Poly(d, self._ring_with(o))

  __radd__ = __add__

  def __neg__(self):
    return Poly(dict((m, -c) for m, c in self.d.iteritems()), self.ring)

  def __pos__(self):
    return self

  def __sub__(self, other):
    if isinstance(other, float):
      return self._bin(other, lambda a, b: a - b)
    o = _coerce(other, self.ring)
    if o is None:
      return NotImplemented
    return self + (-o)

  def __rsub__(self, other):
    if isinstance(other, float):
      return self._bin(other, lambda a, b: a - b, True)
    return (-self) + other

  def __mul__(self, other):
    if isinstance(other, float):
      return self._bin(other, lambda a, b: a * b)
    o = _coerce(other, self.ring)
    if o is None:
      return NotImplemented
    d = {}
    for m1, c1 in self.d.iteritems():
      for m2, c2 in o.d.iteritems():
        m = _mmul(m1, m2)
        s = d.get(m, 0) + c1 * c2
        if s:
          d[m] = s
        elif m in d:
          del d[m]
    return Poly(d, self._ring_with(o))

  __rmul__ = __mul__

  def __pow__(self, n):
    n = int(n)
    if n < 0:
      raise ShimGap('negative power')
    r, b = Poly({(): Q(1)}, self.ring), self
    while n:
      if n & 1:
        r = r * b
      b = b * b if n > 1 else b
      n >>= 1
    return r

  def __div__(self, other):
    if isinstance(other, float):
      return self._bin(other, lambda a, b: a / b)
    o = _coerce(other, self.ring)
    if o is None:
      return NotImplemented
    if not o.d:
      raise ZeroDivisionError('fraction field element division by zero')
    if o.is_constant():
      k = 1 / o.constant_coefficient()
      return Poly(dict((m, c * k) for m, c in self.d.iteritems()), self._ring_with(o))
    q, r = _divide(self, [o])
    if r.d:
      return Frac(self, o)
    return q[0]

  __truediv__ = __div__

  def __rdiv__(self, other):
    return _coerce(other, self.ring) / self

  __rtruediv__ = __rdiv__

  def __mod__(self, other):
    return self.quo_rem(other)[1]

  def __floordiv__(self, other):
    return self.quo_rem(other)[0]

  def quo_rem(self, other):
    q, r = _divide(self, [_coerce(other, self.ring)])
    return q[0], r

  # ------------------------------------------------ structure
  def parent(self):
    return self.ring

  def base_ring(self):
    return QQ

  def variables(self):
    return tuple(self.ring.gen_named(v) for v in self._names())

  def variable(self, i=0):
    return self.variables()[i]

  def nvariables(self):
    return len(self._names())

  def _monos(self):
    names = sorted(set(self.ring.names) | set(self._names()), key=_vkey)
    return sorted(self.d, key=lambda m: _key(m, names), reverse=True)

  def monomials(self):
    return [Poly({m: Q(1)}, self.ring) for m in self._monos()]

  def coefficients(self):
    return [self.d[m] for m in self._monos()]

  def lt(self):
    if not self.d:
      return self
    m = self._monos()[0]
    return Poly({m: self.d[m]}, self.ring)

  def lm(self):
    return Poly(dict((m, Q(1)) for m in self.lt().d), self.ring)

  def lc(self):
    return self.lt().d.values()[0] if self.d else Q(0)

  def is_constant(self):
    return not self.d or (len(self.d) == 1 and () in self.d)

  def constant_coefficient(self):
    return self.d.get((), Q(0))

  def is_monomial(self):
    return len(self.d) == 1 and self.d.values()[0] == 1

  def is_univariate(self):
    return self.nvariables() <= 1

  def number_of_terms(self):
    return len(self.d)

  def degree(self, x=None):
    if x is None:
      return self.total_degree()
    v = str(x)
    if not self.d:
      return -1
    return max(dict(m).get(v, 0) for m in self.d)

  def total_degree(self):
    if not self.d:
      return -1
    return max(sum(k for _, k in m) for m in self.d)

  def degrees(self):
    return tuple(max(0, self.degree(v)) for v in self.ring.names)

  def coefficient(self, degrees):
    """terms with exactly these degrees in these variables, these divided out"""
    if isinstance(degrees, Poly):
      degrees = dict((Poly({((v, 1),): Q(1)}, self.ring), k) for v, k in degrees.d.keys()[0])
    want = dict((str(v), int(k)) for v, k in degrees.items())
    d = {}
    for m, c in self.d.iteritems():
      e = dict(m)
      if all(e.get(v, 0) == k for v, k in want.items()):
        d[tuple((v, k) for v, k in m if v not in want)] = c
    return Poly(d, self.ring)

  def derivative(self, x=None):
    v = str(x) if x is not None else self._names()[0]
    d = {}
    for m, c in self.d.iteritems():
      e = dict(m)
      k = e.get(v, 0)
      if k:
        mm = tuple((w, n - (w == v)) for w, n in m if n - (w == v))
        d[mm] = d.get(mm, 0) + c * k
    return Poly(d, self.ring)

  diff = derivative

  def substitute(self, dct=None, **kw):
    s = dict((str(k), v) for k, v in (dct or {}).items())
    s.update(kw)
    if any(isinstance(v, float) or type(v).__name__ in ('RealNumber',) for v in s.values()):
      left = [v for v in self._names() if v not in s]
      if left:
        raise ShimGap('substituting floats for some of the variables')
      r = 0.0
      for m in self._monos():
        t = float(self.d[m])
        for v, k in m:
          try:
            t = t * float(s[v]) ** k
          except OverflowError:
            t = t * float('inf')
        r += t
      return r
    r = Poly({}, self.ring)
    pw = {}
    for m, c in self.d.iteritems():
      keep = tuple((v, k) for v, k in m if v not in s)
      poly = None
      for v, k in m:
        if v in s:
          if (v, k) not in pw:
            pw[v, k] = s[v] ** k if isinstance(s[v], Poly) else Q(s[v]) ** k
          w = pw[v, k]
          if isinstance(w, Poly):
            if w.is_constant():
              c = c * w.constant_coefficient()
            else:
              poly = w if poly is None else poly * w
          else:
            c = c * w
      t = Poly({keep: c} if c else {}, self.ring)
      r = r + (t if poly is None else t * poly)
    return r

  subs = substitute

  def __call__(self, *args):
    return self.substitute(dict(zip(self.ring.names, args)))

  def reduce(self, basis):
    bs = [_coerce(b, self.ring) for b in basis]
    return _divide(self, [b for b in bs if b.d])[1]

  def resultant(self, other, x=None):
    return _resultant(self, _coerce(other, self.ring), str(x) if x is not None else self._names()[0])

  def discriminant(self, x=None):
    """(-1)^(n(n-1)/2) Res(p, p') / lc(p); of a constant in x: 0"""
    v = str(x)
    n = self.degree(v)
    if n <= 0:
      return Poly({}, self.ring)
    if n == 1:
      return Poly({(): Q(1)}, self.ring)
    r = _resultant(self, self.derivative(v), v)
    q, rem = _divide(r, [_lead(self, v)])
    assert not rem.d
    return q[0] if (n * (n - 1) // 2) % 2 == 0 else -q[0]

  def gcd(self, other):
    raise ShimGap('gcd')

  def factor(self):
    return _factor(self)

  def univariate_polynomial(self, R=None):
    if self.nvariables() > 1:
      raise TypeError('polynomial must involve at most one variable')
    return Uni.of(self)

  # one-variable methods (of Q['x0'])
  def roots(self, multiplicities=True):
    return Uni.of(self).roots(multiplicities)

  def real_root_intervals(self):
    return Uni.of(self).real_root_intervals()

  def list(self):
    return list(Uni.of(self).c)


_FACTORS = {}


class Factorization(list):
  """list of (irreducible factor, multiplicity), with a unit"""
  _unit = Q(1)

  def unit(self):
    return self._unit


def _factor(p):
  """irreducible factors over Q, each with integer coefficients (by sympy)"""
  if not p.d:
    raise ArithmeticError('factorization of 0 is not defined')
  names = p._names()
  key = tuple(sorted(p.d.items()))
  if key not in _FACTORS:
    if not names:
      _FACTORS[key] = (p.d[()], [])
    elif p.total_degree() == 1:
      _FACTORS[key] = (Q(1), [(dict(p.d), 1)])
    else:
      import sympy
      syms = [sympy.Symbol(v) for v in names]
      e = sympy.Poly(dict((tuple(dict(m).get(v, 0) for v in names),
                           sympy.Rational(c.numerator, c.denominator)) for m, c in p.d.items()), *syms)
      u, fs = e.factor_list()
      out = []
      for f, k in fs:
        d = {}
        for m, c in f.terms():
          c = sympy.Rational(c)
          d[tuple((v, int(n)) for v, n in zip(names, m) if n)] = Q(int(c.p), int(c.q))
        out.append((d, int(k)))
      u = sympy.Rational(u)
      _FACTORS[key] = (Q(int(u.p), int(u.q)), out)
  u, fs = _FACTORS[key]
  r = Factorization((Poly(dict(d), p.ring), k) for d, k in fs)
  r._unit = u
  return r


class Frac(object):
  """an element of the fraction field that is not a polynomial"""
  def __init__(self, n, d):
    self.n, self.d = n, d

  def __repr__(self):
    return '(%s)/(%s)' % (self.n, self.d)


def _mmul(a, b):
  if not a:
    return b
  if not b:
    return a
  e = dict(a)
  for v, k in b:
    e[v] = e.get(v, 0) + k
  return tuple(sorted(e.items()))


def _coerce(v, ring):
  if isinstance(v, Poly):
    return v
  if _num(v):
    return Poly({(): Q(v)} if v else {}, ring)
  if isinstance(v, Uni):
    return v.poly()
  return None


def _lead(p, v):
  return p.coefficient({v: max(0, p.degree(v))})


def _mdiv(a, b):
  e = dict(a)
  for v, k in b:
    n = e.get(v, 0) - k
    if n < 0:
      return None
    e[v] = n
  return tuple(sorted((v, k) for v, k in e.items() if k))


def _divide(p, bs):
  """multivariate division: p = sum q_i b_i + r (degrevlex)"""
  names = set(p.ring.names)
  for b in bs:
    names |= set(b._names()) | set(b.ring.names)
  names = sorted(names | set(p._names()), key=_vkey)
  key = lambda m: _key(m, names)
  leads = [max(b.d, key=key) for b in bs]
  qs = [{} for _ in bs]
  rem, work = {}, dict(p.d)
  while work:
    m = max(work, key=key)
    c = work[m]
    for i, b in enumerate(bs):
      t = _mdiv(m, leads[i])
      if t is not None:
        k = c / b.d[leads[i]]
        qs[i][t] = qs[i].get(t, 0) + k
        for bm, bc in b.d.iteritems():
          mm = _mmul(bm, t)
          s = work.get(mm, 0) - k * bc
          if s:
            work[mm] = s
          elif mm in work:
            del work[mm]
        break
    else:
      rem[m] = c
      del work[m]
  ring = p.ring
  for b in bs:
    if len(b.ring.names) > len(ring.names):
      ring = b.ring
  return [Poly(q, ring) for q in qs], Poly(rem, ring)


def _coeffs(p, v):
  n = max(0, p.degree(v))
  return [p.coefficient({v: k}) for k in range(n + 1)]


def _resultant(p, q, v):
  """determinant of the Sylvester matrix, fraction-free"""
  if not p.d or not q.d:
    return Poly({}, p.ring)
  a, b = _coeffs(p, v)[::-1], _coeffs(q, v)[::-1]
  m, n = len(a) - 1, len(b) - 1
  if m == 0 and n == 0:
    return Poly({(): Q(1)}, p.ring)
  zero = Poly({}, p.ring)
  rows = []
  for i in range(n):
    rows.append([zero] * i + a + [zero] * (n - 1 - i))
  for i in range(m):
    rows.append([zero] * i + b + [zero] * (m - 1 - i))
  return _det(rows, p.ring)


def _det(a, ring):
  n = len(a)
  a = [list(r) for r in a]
  sign, prev = 1, Poly({(): Q(1)}, ring)
  for k in range(n - 1):
    if not a[k][k].d:
      for i in range(k + 1, n):
        if a[i][k].d:
          a[k], a[i] = a[i], a[k]
          sign = -sign
          break
      else:
        return Poly({}, ring)
    for i in range(k + 1, n):
      for j in range(k + 1, n):
        t = a[k][k] * a[i][j] - a[i][k] * a[k][j]
        q, r = _divide(t, [prev])
        assert not r.d
        a[i][j] = q[0]
    prev = a[k][k]
  return a[n - 1][n - 1] if sign > 0 else -a[n - 1][n - 1]


# ---------------------------------------------------------------- one variable

def _trim(c):
  c = list(c)
  while c and not c[-1]:
    c.pop()
  return c


def _ev(c, x):
  r = Q(0)
  for k in reversed(c):
    r = r * x + k
  return r


def _udiv(a, b):
  a = list(a)
  q = [Q(0)] * max(0, len(a) - len(b) + 1)
  while len(a) >= len(b):
    k = a[-1] / b[-1]
    s = len(a) - len(b)
    q[s] = k
    for i in range(len(b)):
      a[s + i] -= k * b[i]
    a = _trim(a[:-1])
  return _trim(q), a


def _ugcd(a, b):
  while b:
    a, b = b, _udiv(a, b)[1]
  return [c / a[-1] for c in a] if a else a


def _deriv(c):
  return _trim([c[i] * i for i in range(1, len(c))])


class Uni(object):
  """a univariate polynomial over QQ"""
  def __init__(self, c, name='x', ring=None):
    self.c = _trim(c)
    self.name = name
    self.ring = ring

  @staticmethod
  def of(p):
    names = p._names()
    v = names[0] if names else p.ring.names[0]
    return Uni([p.d.get(((v, k),) if k else (), Q(0)) for k in range(max(0, p.degree(v)) + 1)], v, p.ring)

  def poly(self):
    return Poly(dict((((self.name, i),) if i else (), k) for i, k in enumerate(self.c) if k), self.ring)

  def __mul__(self, o):
    if _num(o):
      return Uni([k * o for k in self.c], self.name, self.ring)
    if isinstance(o, Poly):
      return self.poly() * o
    if not self.c or not o.c:
      return Uni([], self.name, self.ring)
    r = [Q(0)] * (len(self.c) + len(o.c) - 1)
    for i, a in enumerate(self.c):
      for j, b in enumerate(o.c):
        r[i + j] += a * b
    return Uni(r, self.name, self.ring)

  __rmul__ = __mul__

  def __add__(self, o):
    b = [Q(o)] if _num(o) else list(o.c)
    a = list(self.c)
    n = max(len(a), len(b))
    a += [Q(0)] * (n - len(a))
    b += [Q(0)] * (n - len(b))
    return Uni([x + y for x, y in zip(a, b)], self.name, self.ring)

  __radd__ = __add__

  def __neg__(self):
    return Uni([-k for k in self.c], self.name, self.ring)

  def __sub__(self, o):
    return self + (-o)

  def __pow__(self, n):
    r = Uni([Q(1)], self.name, self.ring)
    for _ in range(n):
      r = r * self
    return r

  def __eq__(self, o):
    if _num(o):
      return self.c == ([Q(o)] if o else [])
    if isinstance(o, Uni):
      return self.c == o.c
    if isinstance(o, Poly):
      return self.poly() == o
    return False

  def __ne__(self, o):
    return not self == o

  def __hash__(self):
    return hash(self.poly())

  def __call__(self, x):
    if isinstance(x, float):
      return float(_ev(self.c, Q(x)))
    return _ev(self.c, Q(x))

  def __repr__(self):
    return str(self.poly())

  def degree(self, x=None):
    return len(self.c) - 1

  def is_constant(self):
    return len(self.c) <= 1

  def list(self):
    return list(self.c)

  def coefficients(self):
    return [k for k in self.c if k]

  def parent(self):
    return self.ring

  def derivative(self):
    return Uni(_deriv(self.c), self.name, self.ring)

  diff = derivative

  def gcd(self, o):
    return Uni(_ugcd(self.c, o.c), self.name, self.ring)

  def __floordiv__(self, o):
    return Uni(_udiv(self.c, o.c)[0], self.name, self.ring)

  __div__ = __floordiv__

  def __mod__(self, o):
    return Uni(_udiv(self.c, o.c)[1], self.name, self.ring)

  def quo_rem(self, o):
    return self // o, self % o

  def radical(self):
    return Uni([Q(k) for k in _squarefree(_ints(self.c))], self.name, self.ring)

  def roots(self, multiplicities=True):
    """rational roots with multiplicity"""
    if not self.c:
      raise ArithmeticError('taking the roots of the zero polynomial')
    out = []
    if len(self.c) > 1:
      sf = _squarefree(_ints(self.c))
      for lo, hi in _isolate(sf):
        r = _rational_in(sf, abs(sf[-1]), lo, hi)
        if r is not None:
          m, c = 0, list(self.c)
          while not _ev(c, r):
            c = _udiv(c, [-r, Q(1)])[0]
            m += 1
          out.append((r, m))
    if not multiplicities:
      return [r for r, _ in out]
    return out

  def real_root_intervals(self):
    """disjoint closed intervals, one per real root; a rational root may be found exactly"""
    if not self.c:
      raise ArithmeticError('Cannot isolate roots of the zero polynomial')
    if len(self.c) <= 1:
      return []
    c = _ints(self.c)
    sf = _squarefree(c)
    parts = [sf]                     # the m-th: roots of multiplicity above m
    if len(sf) < len(c):
      rest = _iquo(c, sf)
      while len(rest) > 1:
        parts.append(_squarefree(rest))
        rest = _iquo(rest, parts[-1])
    out = []
    for lo, hi in _isolate(sf):
      m = 1
      while m < len(parts):
        if lo == hi:
          inside = not _sev(parts[m], lo)
        else:
          inside = _sev(parts[m], lo) != _sev(parts[m], hi)
        if not inside:
          break
        m += 1
      out.append(((lo, hi), m))
    return out

  def real_roots(self):
    raise ShimGap('real_roots')


# integer polynomials (lists of ints, constant first), for speed

def _ints(c):
  """the primitive integer polynomial that is a positive multiple"""
  den = 1
  for k in c:
    d = k.denominator
    den = den // _g(den, d) * d
  return _prim([int(k.numerator) * (den // k.denominator) for k in c])


def _prim(c):
  c = list(c)
  while c and not c[-1]:
    c.pop()
  g = 0
  for k in c:
    g = _g(g, abs(k))
    if g == 1:
      return c
  return [k // g for k in c] if g > 1 else c


def _isrem(a, b):
  """a positive multiple of the remainder of a by b"""
  r = list(a)
  lb = b[-1]
  pos = lb > 0
  while len(r) >= len(b):
    lr = r[-1]
    n = len(r) - len(b)
    g = _g(abs(lr), abs(lb))
    f, h = abs(lb) // g, lr // g
    if not pos:
      h = -h
    r = [k * f for k in r]
    for i, k in enumerate(b):
      r[i + n] -= h * k
    while r and not r[-1]:
      r.pop()
  return _prim(r)


def _igcd(a, b):
  while b:
    a, b = b, _isrem(a, b)
  return a


def _iquo(a, b):
  """primitive quotient, positive multiple, of an exact division"""
  q = _udiv([Q(k) for k in a], [Q(k) for k in b])[0]
  return _ints(q)


def _ideriv(c):
  return _prim([i * k for i, k in enumerate(c)][1:])


def _sev(c, x):
  """sign at a rational"""
  n, d = int(x.numerator), int(x.denominator)
  v = 0
  if d == 1:
    for k in reversed(c):
      v = v * n + k
  else:
    e = 1
    for k in reversed(c):
      v = v * n + k * e
      e *= d
  return (v > 0) - (v < 0)


def _squarefree(c):
  d = _ideriv(c)
  if not d:
    return c
  g = _igcd(c, d)
  return _iquo(c, g) if len(g) > 1 else c


def _sturm(c):
  s = [c, _ideriv(c)]
  while s[-1]:
    s.append([-k for k in _isrem(s[-2], s[-1])])
  return s[:-1]


def _var(s, x):
  last, n = 0, 0
  for c in s:
    v = _sev(c, x)
    if v:
      if last and v != last:
        n += 1
      last = v
  return n


def _isolate(c):
  """disjoint intervals with rational ends for the roots of a squarefree integer polynomial,
  the ends no roots unless the interval is a point"""
  if len(c) <= 1:
    return []
  s = _sturm(c)
  b = 1
  top = 1 + max(abs(k) for k in c[:-1]) // abs(c[-1]) + 1
  while b <= top:
    b *= 2
  b = Q(b)
  out = []
  todo = [(-b, b, _var(s, -b), _var(s, b))]
  while todo:
    lo, hi, vl, vh = todo.pop()
    if vl == vh:
      continue
    if vl - vh == 1:
      out.append((lo, hi))
      continue
    mid = (lo + hi) / 2
    k = 3
    while not _sev(c, mid):
      mid = lo + (hi - lo) * Q(k, 2 * k + 1)
      k += 1
    vm = _var(s, mid)
    todo.append((mid, hi, vm, vh))
    todo.append((lo, mid, vl, vm))
  out.sort()
  # ends shared by neighbours: shrink until they are disjoint
  res = []
  for lo, hi in out:
    while res and res[-1][1] >= lo:
      res[-1] = _shrink(c, *res[-1])
      lo, hi = _shrink(c, lo, hi)
    res.append((lo, hi))
  return res


def _shrink(c, lo, hi):
  if lo == hi:
    return lo, hi
  mid = (lo + hi) / 2
  v = _sev(c, mid)
  if not v:
    return mid, mid
  return (lo, mid) if v == _sev(c, hi) else (mid, hi)


def _rational_in(sf, lead, lo, hi):
  """the rational root of an integer polynomial (squarefree part sf, leading coefficient lead)
  in an isolating interval, if there is one"""
  if lo == hi:
    return lo
  while (hi - lo) * lead >= 1:
    lo, hi = _shrink(sf, lo, hi)
    if lo == hi:
      return lo
  # a rational root has a denominator dividing lead: at most one candidate
  t = hi * lead
  n = int(t.numerator) // int(t.denominator)
  for t in (n - 1, n, n + 1):
    r = Q(t, lead)
    if lo <= r <= hi and not _sev(sf, r):
      return r
  return None


def _g(a, b):
  while b:
    a, b = b, a % b
  return a


# ---------------------------------------------------------------- rings

class Ring(object):
  def __init__(self, names):
    self.names = list(names)

  def gens(self):
    return tuple(Poly({((v, 1),): Q(1)}, self) for v in self.names)

  def gen(self, i=0):
    return self.gens()[i]

  def gen_named(self, v):
    return Poly({((v, 1),): Q(1)}, self)

  def ngens(self):
    return len(self.names)

  def variable_names(self):
    return tuple(self.names)

  def base_ring(self):
    return QQ

  def zero(self):
    return Poly({}, self)

  def one(self):
    return Poly({(): Q(1)}, self)

  def __call__(self, v):
    if isinstance(v, Uni):
      v = v.poly()
    if isinstance(v, Poly):
      bad = [n for n in v._names() if n not in self.names]
      if bad:
        raise TypeError('%s is not in %s' % (v, self))
      return Poly(v.d, self)
    if isinstance(v, Frac):
      raise TypeError('denominator must be a unit')
    if isinstance(v, basestring):
      return self(sage_eval(v, dict(zip(self.names, self.gens()))))
    if isinstance(v, float):
      return _coerce(_simplest(v), self)
    p = _coerce(v, self)
    if p is None:
      raise TypeError('cannot convert %r' % (v,))
    return p

  def __eq__(self, o):
    return isinstance(o, Ring) and self.names == o.names

  def __ne__(self, o):
    return not self == o

  def __hash__(self):
    return hash(tuple(self.names))

  def ideal(self, *ps):
    return ideal(*ps)

  def __repr__(self):
    return 'Polynomial Ring in %s over Rational Field' % ', '.join(self.names)


def PolynomialRing(base, name, n=None, order='degrevlex', **kw):
  if isinstance(n, str) or isinstance(name, (list, tuple)):
    raise ShimGap('PolynomialRing with a list of names')
  if order != 'degrevlex':
    raise ShimGap('term order ' + str(order))
  if n is None:
    return Ring([name])
  return Ring(['%s%d' % (name, i) for i in range(n)])


def _simplest(x):
  """the rational with the smallest denominator that reads as this float"""
  q = Q(x)
  for d in (1, 10, 100, 1000, 10 ** 6, 10 ** 9, 10 ** 12, 10 ** 15):
    r = q.limit_denominator(d)
    if float(r) == x:
      return r
  return q


class _QQ(object):
  def __call__(self, v):
    if isinstance(v, float):
      return _simplest(v)
    if isinstance(v, Poly):
      return v.constant_coefficient()
    return Q(v)

  def __getitem__(self, name):
    return Ring(name.split(',')) if isinstance(name, str) else Ring(name)

  def __contains__(self, v):
    return _num(v)

  def __repr__(self):
    return 'Rational Field'


QQ = _QQ()
ZZ = int


class RealNumber(object):
  def __init__(self, v):
    self.v = float(v)

  def exact_rational(self):
    return Q(self.v)

  def __float__(self):
    return self.v

  def __repr__(self):
    return repr(self.v)


def RR(v):
  return RealNumber(v)


RDF = float
Integer = int


def parent(x):
  if isinstance(x, (Poly, Uni)):
    return x.parent()
  return QQ if _num(x) else type(x)


def floor(x):
  x = Q(x)
  return x.numerator // x.denominator


def ceil(x):
  return -floor(-Q(x))


def join(items, sep=' '):
  return sep.join(items)


def sage_eval(s, locals=None):
  s = s.strip()
  try:
    return Q(s)                          # numerals are exact
  except ValueError:
    pass
  return eval(s, dict(locals or {}))


# ---------------------------------------------------------------- ideals

class _Ideal(object):
  def __init__(self, ps):
    self.ps = ps

  def gens(self):
    return self.ps

  def groebner_basis(self, *a, **k):
    ps = [p for p in self.ps if p.d]
    if not ps:
      return [self.ps[0]]                # the zero ideal: Sage gives [0]
    ring = max((p.ring for p in self.ps), key=lambda r: len(r.names))
    names = sorted(set(ring.names).union(*[p._names() for p in ps]), key=_vkey)
    key = lambda m: _key(m, names)

    def monic(p):
      return p / p.d[max(p.d, key=key)]
    basis = []
    for p in ps:
      r = p.reduce(basis)
      if r.d:
        basis.append(monic(r))
    pairs = [(i, j) for j in range(len(basis)) for i in range(j)]
    while pairs:
      i, j = pairs.pop(0)
      a, b = basis[i], basis[j]
      la, lb = max(a.d, key=key), max(b.d, key=key)
      e = dict(la)
      for v, k in lb:
        e[v] = max(e.get(v, 0), k)
      l = tuple(sorted(e.items()))
      s = a * Poly({_mdiv(l, la): Q(1)}, ring) - b * Poly({_mdiv(l, lb): Q(1)}, ring)
      r = s.reduce(basis)
      if r.d:
        basis.append(monic(r))
        pairs += [(i, len(basis) - 1) for i in range(len(basis) - 1)]
    # minimal and reduced
    out = []
    for i, p in enumerate(basis):
      lp = max(p.d, key=key)
      rest = [q for j, q in enumerate(basis) if j != i]
      if any(_mdiv(lp, max(q.d, key=key)) is not None and
             not (max(q.d, key=key) == lp and basis.index(q) > i) for q in rest):
        continue
      out.append(p)
    red = []
    for i, p in enumerate(out):
      red.append(monic(p.reduce(out[:i] + out[i + 1:])))
    red.sort(key=lambda p: key(max(p.d, key=key)), reverse=True)
    return [Poly(p.d, ring) for p in red]


def ideal(*ps):
  if len(ps) == 1 and isinstance(ps[0], (list, tuple)):
    ps = ps[0]
  return _Ideal(list(ps))


Ideal = ideal


# ---------------------------------------------------------------- 0-1 programs

class _Lin(object):
  def __init__(self, d, k=0):
    self.d, self.k = d, k

  def _of(self, o):
    return o if isinstance(o, _Lin) else _Lin({}, o)

  def __add__(self, o):
    o = self._of(o)
    d = dict(self.d)
    for v, c in o.d.items():
      d[v] = d.get(v, 0) + c
    return _Lin(d, self.k + o.k)

  __radd__ = __add__

  def __mul__(self, c):
    return _Lin(dict((v, k * c) for v, k in self.d.items()), self.k * c)

  __rmul__ = __mul__

  def __neg__(self):
    return self * -1

  def __sub__(self, o):
    return self + self._of(o) * -1

  def __rsub__(self, o):
    return self * -1 + o

  def __ge__(self, o):
    return (self - o, '>=')

  def __le__(self, o):
    return (self - o, '<=')

  def __eq__(self, o):
    return (self - o, '==')

  __hash__ = None


class MIPSolverException(RuntimeError):
  pass


class _Var(object):
  def __init__(self, p):
    self.p = p

  def __getitem__(self, i):
    if i not in self.p.vars:
      self.p.vars.append(i)
    return _Lin({i: 1})

  def items(self):
    return [(i, self[i]) for i in self.p.vars]


class MixedIntegerLinearProgram(object):
  def __init__(self, solver=None, maximization=True, **kw):
    self.max = maximization
    self.vars, self.cons, self.obj = [], [], _Lin({})
    self.sol = None

  def new_variable(self, binary=False, **kw):
    if not binary:
      raise ShimGap('variables that are not binary')
    return _Var(self)

  def add_constraint(self, c, *a, **k):
    if not (isinstance(c, tuple) and len(c) == 2):
      raise ShimGap('this form of constraint')
    self.cons.append(c)

  def set_objective(self, o):
    self.obj = o if isinstance(o, _Lin) else _Lin({}, o or 0)

  def show(self):
    print 'Minimization:' if not self.max else 'Maximization:'

  def number_of_constraints(self):
    return len(self.cons)

  def solve(self, *a, **k):
    vs = list(self.vars)
    best = [None, None]
    sgn = -1 if self.max else 1

    def ok(val, final):
      for e, op in self.cons:
        lo = hi = e.k
        for v, c in e.d.items():
          if v in val:
            lo += c * val[v]
            hi += c * val[v]
          else:
            lo += min(0, c)
            hi += max(0, c)
        if op in ('>=', '==') and hi < 0:
          return False
        if op in ('<=', '==') and lo > 0:
          return False
      return True

    def bound(val):
      return self.obj.k * sgn + sum(sgn * c * val[v] if v in val else min(0, sgn * c)
                                    for v, c in self.obj.d.items())

    def go(i, val):
      if not ok(val, False) or (best[0] is not None and bound(val) >= best[0]):
        return
      if i == len(vs):
        best[0], best[1] = bound(val), dict(val)
        return
      for b in (0, 1):
        val[vs[i]] = b
        go(i + 1, val)
        del val[vs[i]]
    go(0, {})
    if best[1] is None:
      raise MIPSolverException('GLPK: Problem has no feasible solution')
    self.sol = best[1]
    return float(best[0] * sgn)

  def get_values(self, v):
    return dict((i, float(self.sol[i])) for i in self.vars)

  def get_objective_value(self):
    return float(sum(c * self.sol[v] for v, c in self.obj.d.items()) + self.obj.k)


# ---------------------------------------------------------------- numerics

def fsolve(f, x0, xtol=1e-8, **kw):
  """Newton steps along the gradient of the first component (the others are padding)"""
  x = [float(v) for v in x0]
  n = len(x)
  for _ in range(40):
    fx = float(f(x)[0])
    if abs(fx) < 1e-12:
      break
    g = []
    for i in range(n):
      h = 1e-6 * max(1.0, abs(x[i]))
      y = list(x)
      y[i] += h
      g.append((float(f(y)[0]) - fx) / h)
    s = sum(k * k for k in g)
    if s < 1e-18 or s != s:
      break
    step = [fx * k / s for k in g]
    x = [a - b for a, b in zip(x, step)]
    if max(abs(b) for b in step) < xtol * 1e-3:
      break
    if max(abs(a) for a in x) > 1e60:
      break
  return x
