"""Random generators for univariate workloads (integer coefficient lists)."""
from fractions import Fraction as F
import exact as E

POOL = [F(0), F(1), F(-1), F(2), F(-2), F(3), F(-3), F(1, 2), F(-1, 2), F(3, 2), F(5),
        F(-7), F(1, 3), F(-4, 3), F(10), F(1001, 1000), F(-100)]
QUADS = [[-2, 0, 1], [-3, 0, 1], [-1, -1, 1], [1, 0, 1], [1, 1, 1], [-1, 3, 1], [2, 0, 1],
         [-5, 1, 2], [1, -5, 3], [-2, 0, 0, 1], [1, -3, 0, 1], [-7, 0, 1], [1, -4, 1]]


def ints(p):
    p = E.norm(p)
    return [int(c) for c in E.primitive(p)] if p else []


def lin(r):
    r = F(r)
    return [-r.numerator, r.denominator]


def prod(ps):
    r = [F(1)]
    for p in ps:
        r = E.mul(r, E.norm(p))
    return [int(c) for c in r] if r else []


def coef(rng, big=False):
    k = rng.random()
    if big and k < 0.5:
        return rng.randint(-10 ** rng.choice([6, 12, 25]), 10 ** rng.choice([6, 12, 25]))
    if k < 0.75:
        return rng.randint(-4, 4)
    return rng.randint(-60, 60)


def rand_poly(rng, maxdeg=5, pool=None, kinds=None):
    """a normalised nonzero integer polynomial"""
    pool = pool or POOL
    kind = rng.choice(kinds or ["rnd", "rnd", "roots", "roots", "roots", "rep", "quad", "quad",
                                "sparse", "const", "lin", "big", "noreal", "mono"])
    if kind == "rnd":
        p = [coef(rng) for _ in range(rng.randint(1, maxdeg) + 1)]
    elif kind == "roots":
        p = prod([lin(rng.choice(pool)) for _ in range(rng.randint(1, min(4, maxdeg)))])
    elif kind == "rep":
        r = rng.choice(pool)
        k = rng.randint(2, min(4, max(2, maxdeg)))
        p = prod([lin(r)] * k + [lin(rng.choice(pool)) for _ in range(rng.randint(0, max(0, min(2, maxdeg - k))))])
    elif kind == "quad":
        p = prod([rng.choice(QUADS)] + [lin(rng.choice(pool)) for _ in range(rng.randint(0, max(0, min(2, maxdeg - 3))))])
    elif kind == "sparse":
        p = [0] * (rng.randint(1, maxdeg) + 1)
        p[-1] = rng.choice([1, -1, 2, -3])
        p[rng.randrange(len(p))] += coef(rng) or 1
        p[0] += coef(rng)
    elif kind == "const":
        p = [rng.choice([1, -1, 2, -5, 7, 100, -1000])]
    elif kind == "lin":
        p = lin(rng.choice(pool))
    elif kind == "big":
        p = [coef(rng, True) for _ in range(rng.randint(1, min(3, maxdeg)) + 1)]
    elif kind == "close":
        r = rng.choice(pool)
        p = prod([lin(r), lin(r + F(1, rng.choice([10, 1000, 10 ** 6])))])
    elif kind == "noreal":
        p = prod([[rng.randint(1, 9), 0, rng.randint(1, 3)]] * rng.randint(1, max(1, min(2, maxdeg // 2))))
    else:
        p = [0] * rng.randint(0, maxdeg) + [rng.choice([1, -1, 2, -2, 5])]
    if rng.random() < 0.4:
        p = [-c for c in p]
    if rng.random() < 0.15:
        k = rng.choice([2, 3, 6, 100])
        p = [c * k for c in p]
    while p and p[-1] == 0:
        p = p[:-1]
    return p or [rng.choice([1, -1])]


def backend_ok(p):
    """z3 4.8.12 isolates roots wrongly (or never answers) when nonzero roots are very
    small or large: keep generated polynomials inside the range where it is right"""
    p = E.norm(p)
    z = 0
    while p and p[0] == 0:
        p, z = p[1:], 1
    s = E.squarefree(p)
    if E.deg(s) < 1:
        return True
    seq = E._sturm_c(tuple(s))
    tot = E._vinf(seq, -1) - E._vinf(seq, 1)
    if tot == 0:
        return True
    b, a = F(66, 10), F(124, 1000)
    v = [E._vat(seq, t) for t in (-b, -a, a, b)]
    return v[0] - v[1] + v[2] - v[3] == tot


def qualified(make, rng, *a, **k):
    while True:
        ls = make(rng, *a, **k)
        if all(backend_ok(p) for p, _ in constraints(ls) if p):
            return ls


def twin(rng, p):
    """a polynomial that resembles p in one respect (degree, outer coefficients, the multiset of
    coefficients, absolute values, the text, the roots) and differs in another: what a memo with
    too small a key, or a shortcut that compares too little, takes for p"""
    p = list(p)
    k = rng.randrange(14)
    if k == 0 and len(p) > 2:           # an inner coefficient changed
        p[rng.randrange(1, len(p) - 1)] += rng.choice([1, -1, 2, -3, 6])
    elif k == 1 and len(p) > 2:         # an inner coefficient negated
        j = rng.randrange(1, len(p) - 1)
        p[j] = -p[j] or rng.choice([1, -1])
    elif k == 2:
        p[0] += rng.choice([1, -1, 2])
    elif k == 3:
        p[-1] += rng.choice([1, -1]) if abs(p[-1]) > 1 else p[-1]
    elif k == 4:                        # mirrored
        p = [c * (-1) ** i for i, c in enumerate(p)]
    elif k == 5:
        p = p[::-1]
    elif k == 6:
        rng.shuffle(p)
    elif k == 7:
        p = [abs(c) for c in p]
    elif k == 8:
        p = [0] + p
    elif k == 9:                        # the same roots, other multiplicities
        f = rng.choice([lin(rng.choice(POOL)), p if len(p) < 4 else [1]])
        p = prod([p, f])
    elif k == 10 and len(p) > 2:        # lower coefficients cut off
        p = p[1:]
    elif k == 11 and len(p) > 2:
        p = p[:-1]
    elif k == 12:                       # shifted argument
        p = [int(c) for c in E.norm(shift(p, rng.choice([1, -1])))]
    else:
        j = rng.randrange(len(p))
        p[j] = -p[j]
    while p and p[-1] == 0:
        p = p[:-1]
    return p or [1]


def shift(p, a):
    out = [F(0)]
    for c in reversed(p):
        out = E.mul(E.norm(out), [F(a), F(1)]) or [F(0)]
        out = [out[0] + c] + list(out[1:])
    return out


def twin_system(rng):
    """systems with two or three polynomials that resemble each other"""
    p = rand_poly(rng, rng.choice([2, 3, 4]), kinds=["rnd", "roots", "roots", "rep", "quad", "quad"])
    ls = {"le": [], "lt": [], "eq": [], "ne": []}
    ls[rng.choice(["le", "eq", "eq", "lt", "ne"])].append(list(p))
    for _ in range(rng.choice([1, 1, 2])):
        q = twin(rng, p)
        if rng.random() < 0.3:
            q = twin(rng, q)
        if rng.random() < 0.4:
            q = [-c for c in q]
        ls[rng.choice(["le", "lt", "lt", "eq", "ne"])].append(q)
    if rng.random() < 0.3:
        ls[rng.choice(["le", "lt"])].append(rand_poly(rng, 1))
    return ls


def system(rng, maxpolys=4, maxdeg=4, zero=False):
    """le/lt/eq/ne lists sharing roots, with duplicates and conflicting repeats"""
    pool = [rng.choice(POOL) for _ in range(rng.randint(1, 4))]
    base = [rand_poly(rng, maxdeg, pool) for _ in range(rng.randint(1, maxpolys))]
    ls = {"le": [], "lt": [], "eq": [], "ne": []}
    style = rng.random()
    for p in base:
        if style < 0.5:
            k = rng.choice(["le", "lt", "lt", "eq", "ne"])
        elif style < 0.75:
            k = rng.choice(["le", "le", "ne"])
        elif style < 0.9:
            k = rng.choice(["lt", "ne"])
        else:
            k = rng.choice(["le", "lt", "eq", "ne"])
        ls[k].append(p)
    r = rng.random()
    if r < 0.10:                       # the same polynomial in two lists
        p = rng.choice(base)
        ls[rng.choice(["le", "lt", "eq", "ne"])].append(list(p))
    elif r < 0.20:                     # its negation
        p = rng.choice(base)
        ls[rng.choice(["le", "lt", "ne"])].append([-c for c in p])
    elif r < 0.25:                     # a multiple of it
        p = rng.choice(base)
        ls[rng.choice(["le", "lt", "eq", "ne"])].append([3 * c for c in p])
    if zero and rng.random() < 0.5:
        ls[rng.choice(["le", "lt", "eq", "ne"])].append([])
    for k in ls:
        rng.shuffle(ls[k])
    return ls


def constraints(ls):
    return [(p, k) for k in ("le", "lt", "eq", "ne") for p in ls[k]]


def bounded_system(rng, lo_style=True, maxdeg=4):
    """systems whose only solutions are isolated or in small gaps: they force the
    decision through specific test points rather than through minus infinity"""
    a, b = sorted(rng.sample(POOL, 2))
    ls = {"le": [], "lt": [], "eq": [], "ne": []}
    kind = rng.choice(["gap", "pt", "pt", "edge", "right", "left", "twoirr"])
    if kind == "gap":       # a < x < b plus a poly
        ls[rng.choice(["lt", "le"])].append([int(c) for c in lin(a)][::1] if False else [-c for c in lin(a)])
        ls[rng.choice(["lt", "le"])].append(lin(b))
        p = rand_poly(rng, maxdeg, [a, b, (a + b) / 2])
        ls[rng.choice(["le", "lt", "eq", "ne"])].append(p)
    elif kind == "pt":      # squares force a point
        q = rng.choice([lin(a), lin(b), rng.choice(QUADS)])
        ls["le"].append(prod([q, q]))
        p = rand_poly(rng, maxdeg, [a, b])
        ls[rng.choice(["le", "lt", "eq", "ne"])].append(p)
        if rng.random() < 0.5:
            ls[rng.choice(["le", "lt"])].append(rng.choice([lin(a), [-c for c in lin(a)]]))
    elif kind == "edge":    # closed interval touching
        ls["le"] += [[-c for c in lin(a)], lin(a)] if rng.random() < 0.5 else [[-c for c in lin(b)], lin(a)]
        ls[rng.choice(["le", "lt", "eq", "ne"])].append(rand_poly(rng, maxdeg, [a, b]))
    elif kind == "right":   # solutions only immediately right of something
        e = F(1, rng.choice([10, 1000]))
        ls["lt"].append(prod([lin(a), lin(a + e)]))
        ls[rng.choice(["ne", "lt", "le"])].append(rand_poly(rng, maxdeg, [a, a + e, a + e / 2]))
    elif kind == "left":
        ls["lt"].append(lin(b))
        ls["ne"].append(lin(b))
        ls[rng.choice(["eq", "le", "lt"])].append(rand_poly(rng, maxdeg, [a, b]))
        ls[rng.choice(["lt", "le"])].append([-c for c in lin(a)])
    else:
        q = rng.choice(QUADS)
        ls["eq"].append(q)
        ls[rng.choice(["le", "lt", "ne"])].append(rand_poly(rng, maxdeg, [a, b]))
        ls[rng.choice(["le", "lt"])].append([-c for c in lin(a)])
    return ls


def many_roots_system(rng, top=3):
    """a polynomial with many real roots (needs several derivative signs to tell them
    apart) together with constraints that pick out individual roots"""
    roots = [F(-5), F(-3), F(-2), F(-1), F(-1, 2), F(0), F(1, 2), F(1), F(2), F(3), F(4), F(6)]
    k = rng.randint(4, 5) if top == 3 else rng.randint(5, 6)
    rs = rng.sample(roots, k)
    p = prod([lin(r) for r in rs])
    if rng.random() < 0.5:
        p = [-c for c in p]
    ls = {"le": [], "lt": [], "eq": [], "ne": []}
    ls[rng.choice(["eq", "eq", "le", "lt"])].append(p)
    ls[rng.choice(["lt", "le"])].append(lin(rng.choice(roots)))
    if rng.random() < 0.7:
        ls[rng.choice(["lt", "le"])].append([-c for c in lin(rng.choice(roots))])
    if rng.random() < 0.5:
        ls["ne"].append(lin(rng.choice(rs)))
    return ls


def thin_system(rng):
    """solution sets that are very thin intervals or pairs of very close points"""
    a = rng.choice([F(1), F(-1), F(2), F(-3), F(1, 2), F(3, 2), F(0)])
    e = F(1, rng.choice([10 ** 4, 10 ** 6, 10 ** 7, 10 ** 9, 10 ** 12, 2 ** 40]))
    if a == 0:
        a = F(1)
    ls = {"le": [], "lt": [], "eq": [], "ne": []}
    k = rng.random()
    lo, hi = [-c for c in lin(a)], lin(a + e)
    if k < 0.45:
        ls[rng.choice(["lt", "lt", "le"])].append(lo)
        ls[rng.choice(["lt", "lt", "le"])].append(hi)
    elif k < 0.6:
        ls["lt"].append(prod([lin(a), lin(a + e)]))
    elif k < 0.8:                       # empty by a hair
        ls[rng.choice(["lt", "le"])].append([-c for c in lin(a + e)])
        ls[rng.choice(["lt", "le"])].append(lin(a))
    else:
        ls["eq"].append(lin(a))
        ls[rng.choice(["eq", "lt", "ne", "le"])].append(rng.choice([hi, [-c for c in hi]]))
    if rng.random() < 0.5:
        m = rng.choice([lin(a + e / 2), lin(a), lin(a + e), rand_poly(rng, 2)])
        ls[rng.choice(["lt", "le", "ne", "eq"])].append(rng.choice([m, [-c for c in m]]))
    return ls


def same_poly_system(rng):
    """one polynomial (and its negation or multiples) under several relations"""
    p = rand_poly(rng, 3)
    ls = {"le": [], "lt": [], "eq": [], "ne": []}
    for _ in range(rng.randint(2, 3)):
        q = rng.choice([p, p, p, [-c for c in p], [2 * c for c in p]])
        ls[rng.choice(["le", "lt", "eq", "ne"])].append(list(q))
    if rng.random() < 0.5:
        ls[rng.choice(["le", "lt", "ne"])].append(rand_poly(rng, 2))
    return ls


def vary(rng, ls):
    """a system close to one asked before: what a stale or confused cache would mix up"""
    out = {k: [list(p) for p in ls[k]] for k in ls}
    full = [k for k in out if out[k]]
    if not full:
        return out
    k = rng.choice(full)
    i = rng.randrange(len(out[k]))
    p = out[k][i]
    c = rng.random()
    if c < 0.35:                        # another relation
        out[k].pop(i)
        out[rng.choice(["le", "lt", "eq", "ne"])].append(p)
    elif c < 0.55:
        out[k][i] = [-x for x in p]
    elif c < 0.65 and len(p) > 1:       # mirrored
        out[k][i] = [x * (-1) ** j for j, x in enumerate(p)]
    elif c < 0.8 and len(p) > 1:
        j = rng.randrange(len(p) - 1)
        p[j] += rng.choice([1, -1])
    elif c < 0.92:
        out[k][i] = twin(rng, p)
    else:
        out[k].append(list(rng.choice(out[k])))
    return out
