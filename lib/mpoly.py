"""Exact multivariate polynomials over Q: dict from sorted ((var, exp), ...) to Fraction."""
from fractions import Fraction as F


def const(c):
    c = F(c)
    return {(): c} if c else {}


def var(v):
    return {((v, 1),): F(1)}


def add(a, b):
    r = dict(a)
    for m, c in b.items():
        s = r.get(m, 0) + c
        if s:
            r[m] = s
        else:
            r.pop(m, None)
    return r


def neg(a):
    return {m: -c for m, c in a.items()}


def sub(a, b):
    return add(a, neg(b))


def mulmono(m, n):
    d = dict(m)
    for v, e in n:
        d[v] = d.get(v, 0) + e
    return tuple(sorted((v, e) for v, e in d.items() if e))


def mul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mulmono(m, n)
            s = r.get(k, 0) + c * d
            if s:
                r[k] = s
            else:
                r.pop(k, None)
    return r


def power(a, k):
    r = const(1)
    for _ in range(k):
        r = mul(r, a)
    return r


def ev(a, pt):
    t = F(0)
    for m, c in a.items():
        for v, e in m:
            c = c * pt[v] ** e
        t += c
    return t


def vars_of(a):
    return sorted({v for m in a for v, _ in m})


def collapse(a):
    """all variables identified: coefficient list"""
    d = {}
    for m, c in a.items():
        k = sum(e for _, e in m)
        d[k] = d.get(k, F(0)) + c
    n = max(d) + 1 if d else 0
    p = [d.get(i, F(0)) for i in range(n)]
    while p and p[-1] == 0:
        p.pop()
    return p


def as_univariate(a, v):
    """coefficients (mpolys in the other variables) by ascending power of v"""
    out = []
    for m, c in a.items():
        e = dict(m).get(v, 0)
        rest = tuple((w, k) for w, k in m if w != v)
        while len(out) <= e:
            out.append({})
        out[e] = add(out[e], {rest: c})
    return out


def subst(a, pt):
    """substitute rationals for some variables"""
    r = {}
    for m, c in a.items():
        rest = []
        for v, e in m:
            if v in pt:
                c = c * F(pt[v]) ** e
            else:
                rest.append((v, e))
        r = add(r, {tuple(rest): c} if c else {})
    return r
