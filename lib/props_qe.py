"""Monitors for quantifier elimination (highschool_qe): the returned formula must mean
exactly 'there is an x', at every parameter value looked at."""
from fractions import Fraction as F

import core
import exact as E
import mpoly as M


def up(p):
    r = {}
    for c, m in p:
        k = tuple(sorted((v, e) for v, e in m.items() if e))
        r[k] = r.get(k, F(0)) + F(c)
        if not r[k]:
            del r[k]
    return r


def down(a):
    return [[str(c), dict(m)] for m, c in sorted(a.items())]


def params(case, keys):
    vs = set()
    for k in keys:
        for p in case[k]:
            vs |= set(M.vars_of(up(p)))
    vs.discard(case.get("var", "x"))
    return sorted(vs)


def uni(a, pt, v="x"):
    """substitute the parameters: univariate coefficient list in v"""
    d = {}
    for m, c in a.items():
        k = 0
        for w, e in m:
            if w == v:
                k = e
            else:
                c = c * pt[w] ** e
        d[k] = d.get(k, F(0)) + c
    return E.norm([d.get(i, F(0)) for i in range(max(d) + 1)] if d else [])


def real_truth(case, pt):
    v = case.get("var", "x")
    cs = [(uni(up(p), pt, v), k) for k in ("lt", "eq", "gt") for p in case[k]]
    return E.decide(cs) is not None


def complex_truth(case, pt):
    v = case.get("var", "x")
    g = []
    for p in case["eq"]:
        g = E.gcd(g, uni(up(p), pt, v))
    hs = [uni(up(p), pt, v) for p in case["ne"]]
    if any(not h for h in hs):
        return False
    if not g:
        return True
    for h in hs:
        while E.deg(g) > 0:
            c = E.gcd(g, h)
            if E.deg(c) <= 0:
                break
            g = E.divmod_(g, c)[0]
    return E.deg(g) > 0


REL3 = (lambda s: s < 0, lambda s: s == 0, lambda s: s > 0)
REL2 = (lambda s: s == 0, lambda s: s != 0)


def dnf_truth(polys, clauses, rels, pt):
    signs = [E.sgn(M.ev(p, pt)) for p in polys]
    return any(all(r(signs[i]) for r, part in zip(rels, cl) for i in part) for cl in clauses)


BASE = [F(n) for n in range(-4, 5)] + [F(1, 2), F(-1, 2), F(1, 3), F(-3, 2), F(1, 4), F(-1, 4),
                                       F(5, 2), F(9, 4), F(1, 100), F(-1, 100), F(50), F(-50)]


def points(ps, polys, rng):
    """parameter values: with one parameter every rational root of the polynomials the
    answer speaks about, one value in each gap between their roots, and a grid"""
    if not ps:
        return [{}]
    if len(ps) == 1:
        vals = set(BASE)
        prod = [F(1)]
        for a in polys:
            u = E.squarefree(uni(a, {}, ps[0]))
            if u and E.deg(u) > 0:
                g = E.gcd(prod, u)
                prod = E.mul(prod, E.divmod_(u, g)[0])
        rs = E.roots(prod) if E.deg(prod) > 0 else []
        for r in rs:
            while r.hi - r.lo > F(1, 10 ** 8):
                r.refine()
        for a, b in zip(rs, rs[1:]):
            while a.hi >= b.lo and (a.lo < a.hi or b.lo < b.hi):
                a.refine()
                b.refine()
        for i, r in enumerate(rs):
            near = ((r.lo + r.hi) / 2).limit_denominator(2000)
            if E.ev(prod, near) == 0:
                vals.add(near)
            vals.add((r.hi + rs[i + 1].lo) / 2 if i + 1 < len(rs) else r.hi + 1)
            if i == 0:
                vals.add(r.lo - 1)
        return [{ps[0]: x} for x in sorted(vals)]
    grid = [F(0), F(1), F(-1), F(2), F(-2), F(1, 2), F(3), F(-3), F(4), F(-1, 3)]
    out = [{}]
    for v in ps:
        out = [dict(o, **{v: x}) for o in out for x in grid]
    if len(out) > 120:
        out = rng.sample(out, 120)
    return out


# ---------------------------------------------------------------- workload

X = M.var("x")


def c(n):
    return M.const(n)


def small(rng, lo=-3, hi=3):
    return rng.randint(lo, hi)


def coef(rng, ps, rich):
    """a coefficient in the parameters"""
    r = rng.random()
    if not ps or r < 0.45:
        return c(small(rng))
    y = M.var(rng.choice(ps))
    if r < 0.75:
        a = y
    elif r < 0.9:
        a = M.add(M.mul(c(rng.choice([1, -1, 2, -2])), y), c(small(rng)))
    elif rich:
        a = M.add(M.mul(y, y), c(small(rng)))
    else:
        a = M.neg(y)
    return a


def poly(rng, ps, top=2, rich=False):
    """a polynomial in x over Z[parameters]"""
    r = rng.random()
    if ps and r < 0.25:                     # shapes that degenerate at particular values
        y = M.var(rng.choice(ps))
        k = small(rng)
        return rng.choice([
            lambda: M.sub(X, y),
            lambda: M.sub(M.mul(y, X), c(k or 1)),
            lambda: M.sub(M.mul(X, X), y),
            lambda: M.add(M.mul(y, M.mul(X, X)), X),
            lambda: M.add(M.mul(X, X), M.add(M.mul(y, X), c(k))),
            lambda: M.power(M.sub(X, y), 2),
            lambda: M.sub(M.mul(X, X), M.mul(y, y)),
            lambda: M.add(M.mul(y, M.sub(X, c(k))), c(0)),
            lambda: M.sub(M.mul(M.sub(y, c(k)), X), M.sub(y, c(small(rng)))),
            lambda: M.add(y, c(k)),
        ])()
    if r < 0.4:                             # products of linear factors, double roots
        a = c(rng.choice([1, 1, -1, 2, -3]))
        n, k = rng.randint(1, top), small(rng)
        same = rng.random() < 0.4                     # one root of multiplicity n
        for _ in range(n):
            a = M.mul(a, M.sub(X, c(k if same else small(rng))))
        return a
    d = rng.choice([1, 1, 2, 2, 3][:2 + top]) if top < 4 else rng.randint(1, 4)
    d = min(d, top)
    a = {}
    for k in range(d + 1):
        a = M.add(a, M.mul(coef(rng, ps, rich), M.power(X, k)))
    return a


def cells(polys):
    return [sv for _, sv in E.sign_vectors(polys)]


def split(rng, polys, keys):
    """which relation each polynomial is asked to satisfy"""
    d = {k: [] for k in keys}
    if len(keys) == 3 and rng.random() < 0.5:
        try:
            us = [uni(a, {}) for a in polys]
            sv = rng.choice(cells(us))
            for a, s in zip(polys, sv):
                d[keys[1 + s]].append(down(a))
            return d
        except KeyError:
            pass
    for a in polys:
        d[rng.choice(keys)].append(down(a))
    return d


def deg_x(a):
    return max([dict(m).get("x", 0) for m in a] or [0])


def lead(a):
    d = deg_x(a)
    return {tuple((v, e) for v, e in m if v != "x"): k for m, k in a.items()
            if dict(m).get("x", 0) == d}


def prem(a, b):
    n, d, lb = deg_x(a) - deg_x(b) + 1, deg_x(b), lead(b)
    for _ in range(n):
        if a and deg_x(a) >= d:
            t = M.mul(lead(a), M.power(X, deg_x(a) - d))
            a = M.sub(M.mul(lb, a), M.mul(t, b))
        else:
            a = M.mul(lb, a)
    return a


def closure(polys, limit):
    """size of the set closed under tail, derivative and pseudo-remainder, and how many
    parameter conditions are in it (the procedure enumerates their sign combinations);
    None when there are more than limit polynomials"""
    seen, todo = [], list(polys)
    keys = set()
    while todo:
        a = todo.pop(0)
        k = tuple(sorted(a.items()))
        if not a or k in keys:
            continue
        keys.add(k)
        d = deg_x(a)
        todo.append({m: v for m, v in a.items() if dict(m).get("x", 0) != d})
        der = {}
        for m, v in a.items():
            e = dict(m).get("x", 0)
            if e:
                mm = tuple((w, n - (w == "x")) for w, n in m)
                der[tuple((w, n) for w, n in mm if n)] = v * e
        todo.append(der)
        if d > 0:
            for b in seen:
                e = deg_x(b)
                if e > 0 and e <= d:
                    todo.append(prem(a, b))
                if e > 0 and e >= d:
                    todo.append(prem(b, a))
        seen.append(a)
        if len(seen) > limit:
            return None
    return len(seen), sum(1 for a in seen if not deg_x(a) and M.vars_of(a))


def sized(rng, keys, nparam, npoly, top, limit, cap, rich=False):
    """like build, but of bounded cost (the procedure is exponential in the conditions)"""
    while True:
        d = build(rng, keys, nparam, npoly, top, rich)
        r = closure([up(p) for k in keys for p in d[k]], limit)
        if r and r[1] <= cap:
            return d, r


def build(rng, keys, nparam, npoly, top, rich=False):
    ps = ["y", "z"][:nparam]
    while True:
        out = []
        for _ in range(npoly):
            a = poly(rng, ps, top, rich)
            if out and rng.random() < 0.15:
                b = rng.choice(out)                   # related polynomials
                a = rng.choice([b, M.neg(b), M.mul(b, c(2)), M.mul(b, M.sub(X, c(small(rng)))),
                                M.add(b, c(small(rng))), M.mul(b, b), M.power(b, 3)])
                if max([dict(m).get("x", 0) for m in a] or [0]) > max(top, 2):
                    continue
            out.append(a)
        if all(out) and (rng.random() < 0.03 or any(dict(m).get("x") for a in out for m in a)):
            return split(rng, out, keys)


def table_error(tables, collapse=True):
    """a printed sign table of parameter-free rows must be the true one"""
    n = 0
    for t in tables:
        rows = []
        for p, cs in t:
            a = up(p)
            if set(M.vars_of(a)) - {"x"}:
                rows = None
                break
            if "*" in cs:
                return "sign table with an empty cell: %s" % (cs,), n
            rows.append((uni(a, {}), [int(z) for z in cs]))
        if not rows:
            continue
        width = {len(r) for _, r in rows}
        if len(width) != 1:
            return "sign table with rows of different length", n
        got = squeeze(list(zip(*[r for _, r in rows])))
        want = squeeze(cells([p for p, _ in rows]))
        n += 1
        if got != want:
            return "sign table of %s is %s, the signs are %s" % (
                [[str(z) for z in p] for p, _ in rows], got, want), n
    return None, n


def root_classes(polys):
    """zero pattern of the polynomials -> number of complex numbers that have it"""
    polys = [E.norm(p) for p in polys]
    prod = [F(1)]
    for p in polys:
        if E.deg(p) >= 1:
            q = E.squarefree(p)
            prod = E.mul(prod, E.divmod_(q, E.gcd(q, prod))[0])
    parts = [(prod, ())]
    for p in polys:
        nxt = []
        for a, v in parts:
            if not p:
                nxt.append((a, v + (0,)))
                continue
            g = E.gcd(a, p) if E.deg(p) >= 1 else [F(1)]
            nxt.append((g, v + (0,)))
            nxt.append((E.divmod_(a, g)[0], v + (1,)))
        parts = [(a, v) for a, v in nxt if E.deg(a) >= 1]
    out = {}
    for a, v in parts:
        out[v] = out.get(v, 0) + E.deg(a)
    gen = tuple(0 if not p else 1 for p in polys)
    out[gen] = out.get(gen, 0) + 1
    return out


def complex_table_error(tables):
    n = 0
    for t in tables:
        rows = []
        for p, cs in t:
            a = up(p)
            if set(M.vars_of(a)) - {"x"}:
                rows = None
                break
            if "*" in cs:
                return "root table with an empty cell: %s" % (cs,), n
            rows.append((uni(a, {}), [int(z) for z in cs]))
        if not rows:
            continue
        if len({len(r) for _, r in rows}) != 1:
            return "root table with rows of different length", n
        got = {}
        for v in zip(*[r for _, r in rows]):
            got[v] = got.get(v, 0) + 1
        want = root_classes([p for p, _ in rows])
        n += 1
        if got != want:
            return "root table of %s has columns %s, should have %s" % (
                [[str(z) for z in p] for p, _ in rows], sorted(got.items()), sorted(want.items())), n
    return None, n


def squeeze(cols):
    out = []
    for v in cols:
        v = tuple(v)
        if not out or out[-1] != v:
            out.append(v)
    return out


class QE(core.Spec):
    family = "qe"
    keys = ("lt", "eq", "gt")
    rels = REL3
    step = 150
    min_ok = 60
    printed = True        # parameter-free answers are the printed verdict

    def truth(self, case, pt):
        return real_truth(case, pt)

    def judge(self, case, ev):
        import random
        ps = params(case, self.keys)
        if "exc" in ev:
            return "viol", "raised %s" % ev["exc"], {}
        r = ev["ret"]
        if r["mut"]:
            return "viol", "the caller's lists were changed", {}
        polys = [up(p) for p in r["dnf"]["polys"]]
        used = set()
        for a in polys:
            used |= set(M.vars_of(a))
        if used - set(ps):
            return "viol", "the answer mentions %s" % sorted(used - set(ps)), {}
        cnt = {"parameters:%d" % len(ps): 1, "clauses": len(r["dnf"]["clauses"])}
        src = [uni_params(up(p)) for k in self.keys for p in case[k]]
        src = [a for l in src for a in l]
        pts = points(ps, polys + src, random.Random(len(polys)))
        t = f = 0
        for pt in pts:
            want = self.truth(case, pt)
            if not ps and self.printed:
                if r["v"] is None:
                    return "viol", "no verdict printed", cnt
                got = r["v"] == "sat"
            else:
                got = dnf_truth(polys, r["dnf"]["clauses"], self.rels, pt)
            t, f = t + want, f + (not want)
            if got != want:
                return "viol", "at %s the answer says %s, there %s an x" % (
                    {k: str(v) for k, v in pt.items()}, got, "is" if want else "is no"), cnt
        if ps and self.printed and r["v"] is not None and t and r["v"] != "sat":
            return "viol", "printed unsatisfiable, but it is satisfiable for some parameters", cnt
        cnt["points true"] = t
        cnt["points false"] = f
        if "tables" in r and not ps:
            e, n = (table_error if len(self.keys) == 3 else complex_table_error)(r["tables"])
            if e:
                return "viol", e, cnt
            cnt["sign tables compared"] = n
        cnt["_nt"] = bool(t) or bool(r["dnf"]["clauses"]) or not ps
        return "ok", "", cnt


def uni_params(a):
    """the coefficients (in x) of a, as polynomials in the parameters"""
    d = {}
    for m, k in a.items():
        e = dict(m).get("x", 0)
        mm = tuple((v, n) for v, n in m if v != "x")
        d.setdefault(e, {})[mm] = k
    return [b for b in d.values() if M.vars_of(b)]


class C20(QE):
    id = "C20"
    rule = ("generated systems p<0, q=0, r>0 in x with zero, one or two parameters, the answer compared with exact truth at every "
            "rational root and in every gap of the polynomials involved; non-trivial: parameter-free, or the answer has a clause; "
            "distinct by the system")

    def cases(self, rng, tier):
        out = []
        k = 1 if tier == "quick" else 12
        for i in range(200 * k):
            d, _ = sized(rng, self.keys, 0, rng.choice([1, 2, 2, 3]), rng.choice([1, 2, 3]), 40, 0)
            out.append(dict(d, id="f%d" % i, op="real", who="muchnik", tables=1,
                            wrap=rng.choice(["plain", "memo", "memo"])))
        for i in range(150 * k):
            d, _ = sized(rng, self.keys, rng.choice([1, 1, 1, 2]), rng.choice([1, 1, 2]), 2, 40,
                         4 if k == 1 else 5)
            out.append(dict(d, id="p%d" % i, op="real", who="muchnik", wrap="memo"))
        return out


class C21(QE):
    id = "C21"
    keys = ("eq", "ne")
    rels = REL2
    rule = ("generated systems p=0, q!=0 over the complex numbers with zero, one or two parameters, the answer compared with exact gcd "
            "arithmetic at every sampled parameter point; non-trivial: parameter-free, or the answer has a clause; distinct by the system")

    def truth(self, case, pt):
        return complex_truth(case, pt)

    def cases(self, rng, tier):
        out = []
        k = 1 if tier == "quick" else 12
        for i in range(200 * k):
            d, _ = sized(rng, self.keys, 0, rng.choice([1, 2, 2, 3]), rng.choice([1, 2, 3, 4]), 40, 0)
            out.append(dict(d, id="f%d" % i, op="complex", tables=1,
                            wrap=rng.choice(["plain", "memo", "memo"])))
        for i in range(200 * k):
            d, _ = sized(rng, self.keys, rng.choice([1, 1, 1, 2]), rng.choice([1, 1, 2]), 2, 40,
                         6 if k == 1 else 8)
            out.append(dict(d, id="p%d" % i, op="complex", wrap="memo"))
        return out


class C22(QE):
    id = "C22"
    printed = False
    rule = ("generated systems p<0, q=0, r>0 in x with zero, one or two parameters, the answer compared with exact truth at every "
            "sampled parameter point, printed tables with exact signs; non-trivial: parameter-free, or the answer has a clause; "
            "distinct by the system")

    def cases(self, rng, tier):
        out = []
        k = 1 if tier == "quick" else 12
        out.append({"id": "e", "op": "real", "who": "cohen", "lt": [], "eq": [], "gt": []})
        for i in range(200 * k):
            d, _ = sized(rng, self.keys, 0, rng.choice([1, 2, 2, 3]), rng.choice([1, 2, 3]), 40, 0)
            out.append(dict(d, id="f%d" % i, op="real", who="cohen", tables=1,
                            wrap=rng.choice(["plain", "memo"])))
        for i in range(300 * k):
            d, _ = sized(rng, self.keys, rng.choice([1, 1, 2]), rng.choice([1, 1, 2]), 2, 40,
                         8 if k == 1 else 12, True)
            out.append(dict(d, id="p%d" % i, op="real", who="cohen", wrap="memo"))
        return out


def swap(a, v):
    """rename v to x (and x to v), so that x is the variable of the algebra"""
    if v == "x":
        return a
    r = {}
    for m, k in a.items():
        d = dict(m)
        d2 = {}
        for w, e in d.items():
            d2[{"x": v, v: "x"}.get(w, w)] = e
        r[tuple(sorted(d2.items()))] = k
    return r


def zero_like(v):
    return v == [["0", {}]]


def alg_error(call, got):
    wrap, var, f, args = call
    if isinstance(got, dict):
        return "raised " + got["exc"]
    ps = [swap(up(a), var) for a in args]
    p = ps[0]

    def P(v):
        return swap(up(v), var)
    if f == "degree":
        if not p:
            return None if got == "-oo" else "degree of zero is %s" % got
        return None if got == [[str(deg_x(p)), {}]] else "degree is %s" % got
    if f == "has_variable":
        return None if got == bool(M.vars_of(p)) else "has_variable is %s" % got
    if f == "sign":
        s = E.sgn(p.get((), F(0)))
        return None if got == [[str(s), {}]] else "sign is %s" % got
    if f == "LC":
        return None if P(got) == lead(p) else "leading coefficient is %s" % got
    lt = M.mul(lead(p), M.power(X, deg_x(p)))
    if f == "LT":
        return None if P(got) == lt else "leading term is %s" % got
    if f == "p_tail":
        return None if P(got) == M.sub(p, lt) else "tail is %s" % got
    if f == "derivative":
        want = {}
        for m, k in p.items():
            e = dict(m).get("x", 0)
            if e:
                mm = tuple((w, n - (w == "x")) for w, n in m if n - (w == "x"))
                want[mm] = want.get(mm, 0) + k * e
        return None if P(got) == want else "derivative is %s" % got
    if f == "div":                                  # by the variable itself
        q, r = P(got[0]), P(got[1])
        if M.add(M.mul(q, ps[1]), r) != p or deg_x(r) != 0:
            return "quotient and remainder are %s" % (got,)
        return None
    q, r = P(got[0]), P(got[1])                     # pseudo division
    n = deg_x(p) - deg_x(ps[1]) + 1
    if n <= 0:
        return None if (not q and r == p) else "pseudo division gives %s" % (got,)
    left = M.mul(M.power(lead(ps[1]), n), p)
    if M.add(M.mul(q, ps[1]), r) != left or (r and deg_x(r) >= deg_x(ps[1])):
        return "pseudo division gives %s" % (got,)
    return None


class C23(core.Spec):
    id = "C23"
    family = "qe"
    min_ok = 60
    rule = ("histories of algebra calls on the plain and the remembering wrapper, for two elimination variables alive at "
            "once, with repeated and equal-looking arguments; non-trivial: the history repeats a call; distinct by the calls")

    def cases(self, rng, tier):
        out = []
        k = 1 if tier == "quick" else 15
        for i in range(150 * k):
            pool = []
            while len(pool) < 5:
                a = poly(rng, rng.choice([[], ["y"], ["y", "z"]]), rng.choice([1, 2, 3, 4]), True)
                if a:
                    pool.append(a)
            pool.append(rng.choice([c(0), c(1), c(-2), c(F(-1, 3)), M.var("y"), M.neg(X), X]))
            calls = []
            for _ in range(rng.randint(10, 25)):
                if calls and rng.random() < 0.3:
                    w, v, f, args = rng.choice(calls)        # again, perhaps on the other object
                    calls.append([rng.choice(["plain", "cached", "cached"]),
                                  v if f in ("div", "pseudo_div") else rng.choice([v, v, "x", "y"]), f, args])
                    continue
                v = rng.choice(["x", "x", "x", "y"])
                f = rng.choice(["LT", "LC", "degree", "p_tail", "derivative", "pseudo_div", "pseudo_div",
                                "div", "has_variable", "sign"])
                p = rng.choice(pool)
                args = [p]
                if f == "sign":
                    args = [c(rng.choice([0, 3, -2, F(1, 2), F(-7, 3)]))]
                elif f == "div":
                    args = [p, M.var(v)]
                elif f == "pseudo_div":
                    q = rng.choice(pool)
                    if not deg_x(swap(q, v)) or not p:
                        continue
                    args = [p, q]
                elif f in ("LT", "LC", "p_tail") and not p:
                    continue
                calls.append([rng.choice(["plain", "cached", "cached"]), v, f, [down(a) for a in args]])
            if calls:
                out.append({"id": "a%d" % i, "op": "alg", "calls": calls, "share": "s%d" % (i % 3)})
        return out

    def judge(self, case, ev):
        if "exc" in ev:
            return "viol", "raised %s" % ev["exc"], {}
        cnt = {}
        for call, got in zip(case["calls"], ev["ret"]):
            e = alg_error(call, got)
            if e:
                return "viol", "%s.%s(%s) for %s: %s" % (call[0], call[2], call[3], call[1], e), cnt
            cnt[call[0] + ":" + call[2]] = cnt.get(call[0] + ":" + call[2], 0) + 1
        seen = [str(x[1:]) for x in case["calls"]]
        cnt["_nt"] = len(set(seen)) < len(seen)
        return "ok", "", cnt


ASSIGN = {"c_assignment_all_one": (1, 2), "c_assignment_all_zero": (0, 2),
          "r_assignment_all_pos": (1, 3), "r_assignment_all_zero": (0, 3), "r_assignment_all_neq": (-1, 3)}


class C24(core.Spec):
    id = "C24"
    family = "qe"
    step = 150
    min_ok = 60
    rule = ("partial procedures whose questions are answered with the signs at a rational parameter point (some first answered "
            "with nonsense, some by an object that was asked at other points before), every row of the finished table compared with the exact signs or roots at that point, and "
            "ready-made assignments; non-trivial: some parameter was asked for; distinct by polynomials and point")

    def cases(self, rng, tier):
        out = []
        k = 1 if tier == "quick" else 15
        for i in range(220 * k):
            kind = rng.choice(["real", "real", "complex"])
            n = rng.choice([0, 1, 1, 1, 2, 2])
            d, _ = sized(rng, ("p",), n, rng.choice([1, 1, 2, 2, 3]), rng.choice([1, 2, 2, 3]), 30, 14, True)
            ps = params(d, ("p",))
            pt = {v: str(rng.choice(BASE[:-2])) for v in ps}
            src = [a for p in d["p"] for a in uni_params(up(p))]
            if src and len(ps) == 1 and rng.random() < 0.6:   # where something degenerates
                pts = [q for q in points(ps, src, rng) if any(not M.ev(a, q) for a in src)]
                if pts:
                    pt = {v: str(x) for v, x in rng.choice(pts).items()}
            out.append({"id": "t%d" % i, "op": "partial", "kind": kind, "polys": d["p"], "pt": pt, "wrap": "memo",
                        "default": int(rng.random() < 0.3), "bad": rng.choice([0, 0, 1, 2]),
                        "earlier": [{v: str(rng.choice(BASE[:-2])) for v in ps}
                                    for _ in range(rng.choice([0, 0, 1, 1, 2]) if ps else 0)]})
        for i in range(60 * k):
            ps = [c(0)]
            for _ in range(rng.randint(1, 6)):
                a = rng.choice([c(small(rng)), c(F(rng.randint(-9, 9), 7)), M.add(M.var("y"), c(small(rng))),
                                M.mul(M.var("z"), M.var("y")), M.neg(M.var("z"))])
                if a not in ps:
                    ps.append(a)
            out.append({"id": "a%d" % i, "op": "assign", "name": rng.choice(sorted(ASSIGN)), "polys": [down(a) for a in ps]})
        return out

    def judge(self, case, ev):
        if "exc" in ev:
            return "viol", "raised %s" % ev["exc"], {}
        r = ev["ret"]
        if case["op"] == "assign":
            v, n = ASSIGN[case["name"]]
            for p, got in zip(case["polys"], r):
                a = up(p)
                want = v if M.vars_of(a) else E.sgn(a.get((), F(0)))
                if n == 2:
                    want = abs(want)
                if not got or set(got) != {want}:
                    return "viol", "%s gives %s the row %s, should be %s" % (case["name"], p, got, want), {}
            return "ok", "", {case["name"]: 1}
        if r["rows"] is None:
            return "excl", "the table is not built by %s_extend" % case["kind"], {}
        if r["mut"]:
            return "viol", "the caller's list was changed", {}
        if not all(r["inputs"]):
            return "viol", "an input polynomial has no row", {}
        pt = {k: F(v) for k, v in case["pt"].items()}
        rows = [(uni(up(p), pt), vals, cols) for p, vals, cols in r["rows"]]
        if len({tuple(cols) for _, _, cols in rows}) != 1:
            return "viol", "rows have values in different columns", {}
        us = [u for u, _, _ in rows]
        vecs = list(zip(*[v for _, v, _ in rows]))
        cnt = {case["kind"]: 1, "asked": r["asked"], "runs before on the same object": len(case.get("earlier", [])), "columns": len(vecs), "rows": len(rows),
               "_nt": r["asked"] > 0}
        if case["kind"] == "real":
            got, want = squeeze(vecs), squeeze(cells(us))
        else:
            got, want = {}, root_classes(us)
            for v in vecs:
                got[v] = got.get(v, 0) + 1
        if got != want:
            return "viol", "at %s the table is %s, should be %s (rows %s)" % (
                case["pt"], got, want, [[str(z) for z in u] for u in us]), cnt
        return "ok", "", cnt
