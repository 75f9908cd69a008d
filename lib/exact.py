"""Exact univariate real algebra over Q, written for this framework only.

Shares no code and no algorithmic shortcut with /repo: polynomials are lists of
Fractions (ascending powers), roots are isolated by Sturm counting + bisection,
signs at roots are decided by gcd + interval refinement.
"""
from fractions import Fraction
from functools import lru_cache

F = Fraction


def norm(p):
    p = [F(c) for c in p]
    while p and p[-1] == 0:
        p.pop()
    return p


def deg(p):
    return len(p) - 1


def add(p, q):
    n = max(len(p), len(q))
    return norm([(p[i] if i < len(p) else 0) + (q[i] if i < len(q) else 0)
                 for i in range(n)])


def neg(p):
    return [-c for c in p]


def sub(p, q):
    return add(p, neg(q))


def scale(p, k):
    return norm([c * k for c in p])


def mul(p, q):
    if not p or not q:
        return []
    r = [F(0)] * (len(p) + len(q) - 1)
    for i, a in enumerate(p):
        if a:
            for j, b in enumerate(q):
                r[i + j] += a * b
    return norm(r)


def power(p, k):
    r = [F(1)]
    for _ in range(k):
        r = mul(r, p)
    return r


def deriv(p):
    return norm([c * i for i, c in enumerate(p)][1:])


def divmod_(p, q):
    p, q = norm(p), norm(q)
    if not q:
        raise ZeroDivisionError
    quo = [F(0)] * max(0, len(p) - len(q) + 1)
    r = list(p)
    while len(r) >= len(q):
        k = r[-1] / q[-1]
        s = len(r) - len(q)
        quo[s] = k
        for i, c in enumerate(q):
            r[s + i] -= k * c
        r.pop()
        while r and r[-1] == 0:
            r.pop()
    return norm(quo), r


def monic(p):
    return [c / p[-1] for c in p] if p else []


def primitive(p):
    """positive-scalar multiple with integer coprime coefficients"""
    if not p:
        return []
    from math import gcd
    l = 1
    for c in p:
        l = l * c.denominator // gcd(l, c.denominator)
    ints = [int(c * l) for c in p]
    g = 0
    for c in ints:
        g = gcd(g, c)
    return [F(c // g) for c in ints]


def gcd(p, q):
    p, q = norm(p), norm(q)
    while q:
        p, q = q, primitive(divmod_(p, q)[1])
    return monic(p)


def squarefree(p):
    p = norm(p)
    if deg(p) < 1:
        return p
    return primitive(divmod_(p, gcd(p, deriv(p)))[0])


def ev(p, x):
    r = F(0)
    for c in reversed(p):
        r = r * x + c
    return r


def sgn(v):
    return (v > 0) - (v < 0)


def _sturm(p):
    seq = [primitive(p), primitive(deriv(p))]
    while seq[-1]:
        r = primitive(neg(divmod_(seq[-2], seq[-1])[1]))
        seq.append(r)
    seq.pop()
    return seq


@lru_cache(maxsize=20000)
def _sturm_c(t):
    return _sturm(list(t))


def _var(signs):
    s = [x for x in signs if x]
    return sum(1 for a, b in zip(s, s[1:]) if a * b < 0)


def _vat(seq, x):
    return _var([sgn(ev(p, x)) for p in seq])


def _vinf(seq, s):
    return _var([sgn(p[-1]) * (s if deg(p) % 2 else 1) for p in seq])


def count_roots(p, a, b):
    """distinct roots of p in (a, b]; p nonzero"""
    p = squarefree(p)
    if deg(p) < 1:
        return 0
    seq = _sturm_c(tuple(p))
    return _vat(seq, a) - _vat(seq, b)


def bound(p):
    p = norm(p)
    return 1 + max([abs(c / p[-1]) for c in p[:-1]] or [F(0)])


@lru_cache(maxsize=20000)
def _isolate(t):
    p = list(t)
    if deg(p) < 1:
        return []
    b = bound(p)
    k = F(1)
    while k < b:
        k *= 2
    out = []
    seq = _sturm_c(t)
    stack = [(-k, k, _vat(seq, -k), _vat(seq, k))]
    while stack:
        lo, hi, vl, vh = stack.pop()
        n = vl - vh
        if n == 0:
            continue
        if n == 1:
            out.append((lo, hi))
            continue
        m = (lo + hi) / 2
        vm = _vat(seq, m)
        stack.append((m, hi, vm, vh))
        stack.append((lo, m, vl, vm))
    out.sort()
    return out


class Root:
    """the unique root of squarefree p in (lo, hi]"""
    __slots__ = ("p", "lo", "hi")

    def __init__(self, p, lo, hi):
        self.p, self.lo, self.hi = p, lo, hi
        if ev(p, hi) == 0:
            self.lo = self.hi

    def refine(self):
        if self.lo == self.hi:
            return
        m = (self.lo + self.hi) / 2
        if ev(self.p, m) == 0:
            self.lo = self.hi = m
        elif count_roots(self.p, self.lo, m):
            self.hi = m
        else:
            self.lo = m

    def sign_of(self, q):
        q = norm(q)
        if not q:
            return 0
        if deg(q) == 0:
            return sgn(q[0])
        if self.lo == self.hi:
            return sgn(ev(q, self.lo))
        g = gcd(self.p, q)
        if deg(g) >= 1 and count_roots(g, self.lo, self.hi):
            return 0
        while True:
            if self.lo == self.hi:
                return sgn(ev(q, self.lo))
            if count_roots(q, self.lo, self.hi) == 0 and ev(q, self.lo) != 0:
                return sgn(ev(q, self.hi))
            self.refine()

    def sign_right_of(self, q):
        """sign of q immediately to the right of the root"""
        q = norm(q)
        while q:
            s = self.sign_of(q)
            if s:
                return s
            q = deriv(q)
        return 0

    def approx(self):
        while self.hi - self.lo > F(1, 10 ** 14) * max(1, min(abs(self.lo), abs(self.hi))):
            self.refine()
        return float((self.lo + self.hi) / 2)


def roots(p):
    """sorted distinct real roots of nonzero p"""
    p = squarefree(norm(p))
    if deg(p) < 1:
        return []
    return [Root(p, a, b) for a, b in _isolate(tuple(p))]


def sign_vectors(polys):
    """all (point description, sign vector) cells of R for a list of polys"""
    polys = [norm(p) for p in polys]
    prod = [F(1)]
    for p in polys:
        if deg(p) >= 1:
            s = squarefree(p)
            prod = mul(prod, divmod_(s, gcd(s, prod))[0])
    rs = roots(prod)
    cells = []
    if not rs:
        cells.append(("R", tuple(sgn(ev(p, F(0))) for p in polys)))
        return cells
    # separate intervals strictly so that midpoints between them are not roots
    for a, b in zip(rs, rs[1:]):
        while not (a.hi < b.lo or (a.hi == b.lo and a.lo < a.hi and False)):
            if a.lo == a.hi and b.lo == b.hi:
                break
            a.refine()
            b.refine()
    pts = [rs[0].lo - 1]
    for a, b in zip(rs, rs[1:]):
        pts.append((a.hi + b.lo) / 2)
    pts.append(rs[-1].hi + 1)
    for i, r in enumerate(rs):
        cells.append((("pt", pts[i]), tuple(sgn(ev(p, pts[i])) for p in polys)))
        cells.append((("root", i), tuple(r.sign_of(p) for p in polys)))
    cells.append((("pt", pts[-1]), tuple(sgn(ev(p, pts[-1])) for p in polys)))
    return cells


ALLOWED = {"le": (-1, 0), "lt": (-1,), "eq": (0,), "ne": (-1, 1),
           "ge": (0, 1), "gt": (1,)}


def decide(constraints):
    """constraints: list of (poly, rel) with rel in ALLOWED. Returns witness or None."""
    polys = [p for p, _ in constraints]
    ok = [ALLOWED[r] for _, r in constraints]
    for where, sv in sign_vectors(polys):
        if all(s in a for s, a in zip(sv, ok)):
            return (where, sv)
    return None


def tarski(p, q):
    p = norm(p)
    if not p:
        raise ValueError
    return sum(r.sign_of(q) for r in roots(p))


def cauchy_index(p, q):
    """Cauchy index of q/p on R by looking at the jumps of the reduced fraction"""
    p, q = norm(p), norm(q)
    if not q:
        return 0
    g = gcd(p, q)
    p, q = divmod_(p, g)[0], divmod_(q, g)[0]
    tot = 0
    for r in roots(p):
        # sign of p right/left of root
        k, d = 0, p
        while r.sign_of(d) == 0:
            d = deriv(d)
            k += 1
        right = r.sign_of(d)
        left = right * (-1) ** k
        sq = r.sign_of(q)
        tot += (sq * right - sq * left) // 2
    return tot
