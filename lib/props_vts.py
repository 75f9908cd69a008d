"""Monitors for /repo/vts: decision procedures and the algebra under them."""
from fractions import Fraction as F

import core
import exact as E
import gen

REL = ("le", "lt", "eq", "ne")
BACKEND = ("z3 4.8.12's real closed field module isolates the real roots of the "
           "generated polynomials correctly (inputs outside the range where it does are "
           "not generated; a wrong isolation recorded at its boundary excludes the case)")


def num(c):
    """decode a recorded coefficient; None if it is not an exact rational"""
    if isinstance(c, bool):
        return None
    if isinstance(c, int):
        return F(c)
    if isinstance(c, str):
        try:
            return F(c)
        except ValueError:
            return None
    return None


def poly(p):
    if not isinstance(p, list):
        return None
    out = [num(c) for c in p]
    return None if any(c is None for c in out) else E.norm(out)


def backend_fault(ev):
    """did a recorded z3 root isolation disagree with exact arithmetic?"""
    for p, decs in ev.get("int", {}).get("mk", []):
        rs = E.roots(p)
        if len(rs) != len(decs):
            return True
        got = sorted(float(d.rstrip("?")) for d in decs)
        for g, r in zip(got, rs):
            x = r.approx()
            if abs(g - x) > 1e-6 * max(1.0, abs(x)):
                return True
    return False


def backend_probe(case):
    ps = []
    for k in REL:
        ps += [p for p in case.get(k, []) if isinstance(p, list) and p and not isinstance(p[0], str)]
    if "p" in case:
        ps.append(case["p"])
    return {"id": "probe", "op": "probe", "ps": ps}


def exc_violation(ev):
    return "raised %s" % ev["exc"]


# ---------------------------------------------------------------- expressions

def rand_ast(rng, p):
    """an unexpanded sympy expression AST denoting polynomial p (integer list)"""
    p = E.norm(p)
    if not p:
        k = rng.random()
        if k < 0.3:
            return ["q", "0"]
        if k < 0.5:
            return ["i", 0]
        q = gen.rand_poly(rng, 3)
        return ["-", ["^", ["p", [str(c) for c in q]], 2], ["p", [str(c) for c in E.mul(E.norm(q), E.norm(q))]]]
    s = [str(c) for c in p]
    k = rng.random()
    if k < 0.35:
        return ["p", s]
    if k < 0.5 and len(p) == 1 and p[0].denominator == 1:
        return ["i", int(p[0])]
    if k < 0.7:                       # split as a sum
        a = [F(rng.randint(-3, 3), rng.choice([1, 2, 3])) for _ in p]
        b = [x - y for x, y in zip(p, a)]
        return ["+", ["p", [str(c) for c in a]], ["p", [str(c) for c in b]]]
    if k < 0.85 and len(p) > 1:       # (p - p(r)) = (x - r) q + p(r)
        r = F(rng.randint(-2, 2), rng.choice([1, 2]))
        q, rem = E.divmod_(p, [-r, F(1)])
        e = ["*", ["p", [str(-r), "1"]], ["p", [str(c) for c in q]]]
        if rem:
            e = ["+", e, ["q", str(rem[0])]]
        return e
    return ["-", ["*", ["q", "-1"], ["p", s]]]


# ---------------------------------------------------------------- C01, C02

class Decision(core.Spec):
    family = "vts"
    assumptions = [BACKEND, "the oracle's own exact Sturm/bisection arithmetic (lib/exact.py), "
                   "cross-checked against z3's NLSAT on 3000 systems"]
    rule = ("random systems of <=, <, =, != constraints over univariate integer polynomials: shared, "
            "repeated, close and irrational roots, conflicting repeats, zero and constant polynomials, "
            "large coefficients, isolated and thin solution sets; non-trivial = some polynomial has a real "
            "root, so at least one test point is substituted")
    op = None
    n_quick, n_thorough = 1500, 30000
    heavy = 0

    def cases(self, rng, tier):
        n = self.n_quick if tier == "quick" else self.n_thorough
        out = []

        def put(ls, op=None, **k):
            c = {"id": len(out), "op": op or "internal_" + self.op, "shard": len(out) % 7}
            for r in REL:
                c[r] = ls[r]
            c.update(k)
            out.append(c)
        while len(out) < n:
            k = rng.random()
            if k < 0.12:
                put(gen.qualified(gen.twin_system, rng))
            elif k < 0.25:
                put(gen.qualified(gen.system, rng, zero=rng.random() < 0.1))
            elif k < 0.30:
                put(gen.qualified(gen.same_poly_system, rng))
            elif k < 0.36:
                put(gen.qualified(gen.thin_system, rng))
            elif k < 0.62:
                put(gen.qualified(gen.bounded_system, rng))
            elif k < 0.68:
                put(gen.qualified(gen.system, rng, maxpolys=2, maxdeg=7))
            elif k < 0.74:
                put(gen.qualified(gen.system, rng, maxpolys=7, maxdeg=2))
            elif k < 0.80:
                put(gen.qualified(gen.bounded_system, rng, maxdeg=6))
            elif k < 0.85:
                put(gen.qualified(gen.many_roots_system, rng, top=3))
            elif k < 0.93 or not out:
                ls = gen.qualified(rng.choice([gen.system, gen.bounded_system]), rng)
                if rng.random() < 0.2:
                    ls[rng.choice(REL)].append([])
                sy = {r: [rand_ast(rng, p) for p in ls[r]] for r in REL}
                put(sy, op="isym_" + self.op, polys=ls)
            else:                       # ask an earlier question again, reordered
                c = rng.choice(out)
                if "polys" in c:
                    continue
                ls = {r: list(c[r]) for r in REL}
                for r in REL:
                    rng.shuffle(ls[r])
                if rng.random() < 0.6:
                    ls = gen.vary(rng, ls)
                    if not all(gen.backend_ok(p) for p, _ in gen.constraints(ls) if p):
                        continue
                put(ls, shard=c["shard"])
        for i in range(self.heavy if tier == "quick" else self.heavy * 10):
            put(gen.qualified(gen.many_roots_system, rng, top=4), shard=i % 2)
        put({r: [] for r in REL})
        return out

    def probe(self, case):
        c = dict(case.get("polys") or case)
        return backend_probe(c)

    def judge(self, case, ev):
        ls = case.get("polys") or case
        cons = gen.constraints(ls)
        cnt = {"_nt": any(E.roots(p) for p, _ in cons if len(p) > 1)}
        if backend_fault(ev):
            return "excl", "z3 isolated the roots wrongly", cnt
        want = E.decide(cons) is not None
        cnt["satisfiable" if want else "unsatisfiable"] = 1
        for _, r in cons:
            cnt["constraint_" + r] = cnt.get("constraint_" + r, 0) + 1
        cnt["root_isolations"] = len(ev.get("int", {}).get("mk", []))
        if "exc" in ev:
            if "more than 5 polies" in ev["exc"]:
                return "excl", "declared limit of five sign polynomials", cnt
            return "viol", exc_violation(ev), cnt
        if ev["ret"]["v"] is not want:
            return "viol", "answered %s, but the system is %s" % (
                ev["ret"]["v"], "satisfiable" if want else "unsatisfiable"), cnt
        if ev["ret"].get("mut"):
            return "viol", "the caller's constraint lists were modified", cnt
        return "ok", None, cnt


class C01(Decision):
    id = "C01"
    op = "vts"
    heavy = 4
    jvm = ["-XX:CICompilerCount=2"]


class C02(Decision):
    id = "C02"
    op = "ts"
    n_quick = 2500


# ---------------------------------------------------------------- C03, C04

def _nz(rng, maxdeg, **k):
    return gen.rand_poly(rng, maxdeg, **k)


KINDS_ANY = ["rnd", "rnd", "roots", "roots", "rep", "quad", "sparse", "lin", "big", "close",
             "noreal", "mono", "const"]


def related(rng, c):
    """a query close to one asked before in the same process"""
    p, q = list(c["p"]), list(c["q"])
    k = rng.random()
    if k < 0.3:                         # the same coefficients, split elsewhere
        l = p + q
        i = rng.randrange(1, len(l)) if len(l) > 1 else 1
        p, q = l[:i], l[i:]
    elif k < 0.4:
        p, q = q, p
    elif k < 0.5:
        q = [-x for x in q]
    elif k < 0.6:
        p = [-x for x in p]
    elif k < 0.7:
        p = p[::-1]
    elif k < 0.8:
        q = q[::-1]
    elif k < 0.85:
        q = [0] + q if q else q
    elif k < 0.95:
        p = gen.twin(rng, p)
    elif q:
        q = gen.twin(rng, q)
    p, q = [int(x) for x in E.norm(p)], [int(x) for x in E.norm(q)]
    return (p, q, c["op"]) if p else (c["p"], c["q"], c["op"])


class C03(core.Spec):
    """Tarski queries and Cauchy indices"""
    id = "C03"
    family = "vts"
    rule = ("pairs (p, q) of integer polynomials up to degree 9 with shared, repeated, close and "
            "irrational roots, q = 0, q multiple of p, deg q >> deg p and huge coefficients, plus every "
            "query recorded inside full decision runs; non-trivial = p has a real root at which q is nonzero")
    assumptions = ["lib/exact.py root isolation"]

    def pair(self, rng):
        pool = [rng.choice(gen.POOL) for _ in range(4)]
        p = _nz(rng, rng.choice([3, 5, 7, 9]), pool=pool, kinds=KINDS_ANY)
        k = rng.random()
        if k < 0.55:
            q = _nz(rng, rng.choice([2, 4, 6, 9]), pool=pool, kinds=KINDS_ANY)
        elif k < 0.65:
            q = gen.prod([p, _nz(rng, 2, pool=pool)])
        elif k < 0.8:
            a = _nz(rng, 2, pool=pool)
            p, q = gen.prod([a, p]), gen.prod([a, _nz(rng, 3, pool=pool)])
        elif k < 0.85:
            q = [int(c) for c in E.deriv(E.norm(p))]
        elif k < 0.9:
            q = []
        else:
            q = [rng.choice([1, -1, 5])]
        return p, q

    def cases(self, rng, tier):
        n = 2600 if tier == "quick" else 60000
        out = []
        while len(out) < n:
            p, q = self.pair(rng)
            op = "tq" if rng.random() < 0.6 else "ci"
            if len(p) < 2 and rng.random() < 0.7:
                continue
            if out and rng.random() < 0.2:
                p, q, op = related(rng, rng.choice(out[-40:]))
            out.append({"id": len(out), "op": op, "p": p, "q": q, "shard": len(out) // 20})
        for _ in range(n // 20):
            ls = gen.qualified(gen.bounded_system, rng)
            c = {"id": len(out), "op": "internal_vts", "hook": 300, "shard": len(out)}
            c.update(ls)
            out.append(c)
        return out

    def probe(self, case):
        return backend_probe(case) if case["op"] == "internal_vts" else None

    def one(self, kind, p, q, got, cnt):
        p, q = E.norm(p), E.norm(q)
        if not p:
            return None
        want = E.tarski(p, q) if kind == "tq" else E.cauchy_index(p, q)
        cnt[kind] = cnt.get(kind, 0) + 1
        cnt["value_%s" % ("zero" if want == 0 else "nonzero")] = \
            cnt.get("value_%s" % ("zero" if want == 0 else "nonzero"), 0) + 1
        if isinstance(got, bool) or num(got) is None or num(got) != want:
            return "%s of p=%s q=%s is %s, recorded %s" % (
                {"tq": "Tarski query", "ci": "Cauchy index"}[kind],
                [str(c) for c in p], [str(c) for c in q], want, got)
        return None

    def judge(self, case, ev):
        cnt = {}
        if case["op"] == "internal_vts":
            for d in ev.get("int", {}).get("calls", []):
                if d[0] in ("tq", "ci") and d[1]:
                    cnt["recorded_inside_decisions"] = cnt.get("recorded_inside_decisions", 0) + 1
                    bad = self.one(d[0], d[1], d[2], d[3], cnt)
                    if bad:
                        return "viol", "inside a decision: " + bad, cnt
            if "exc" in ev and not cnt:
                return "excl", "decision raised before a query", cnt
            return "ok", None, cnt
        if "exc" in ev:
            return "viol", exc_violation(ev), cnt
        cnt["_nt"] = any(r.sign_of(E.norm(case["q"])) for r in E.roots(case["p"]))
        bad = self.one(case["op"], case["p"], case["q"], ev["ret"]["v"], cnt)
        if bad:
            return "viol", bad, cnt
        if ev["ret"].get("mut"):
            return "viol", "arguments were modified", cnt
        return "ok", None, cnt


def check_srs(p, q, seq):
    p, q = E.norm(p), E.norm(q)
    ps = [poly(s) for s in seq]
    if any(s is None for s in ps):
        return "not exact polynomials: %s" % seq
    if len(ps) < 2 or ps[0] != p or ps[1] != q:
        return "does not start with p, q"
    if not all(ps):
        return "contains the zero polynomial"
    for i in range(2, len(ps)):
        rem = E.neg(E.divmod_(ps[i - 2], ps[i - 1])[1])
        if not rem:
            return "continues after an exact division (element %d)" % i
        k = ps[i][-1] / rem[-1]
        if k <= 0 or E.scale(rem, k) != ps[i]:
            return "element %d is not a positive multiple of the negated remainder" % i
    if E.divmod_(ps[-2], ps[-1])[1]:
        return "stops before the division is exact"
    g = E.gcd(p, q)
    if E.monic(ps[-1]) != g:
        return "last element is not a gcd"
    return None


class C04(C03):
    """signed remainder sequences"""
    id = "C04"
    rule = ("pairs of nonzero integer polynomials up to degree 9 with common factors, negative leading "
            "coefficients, degree gaps, huge coefficients; sequences recorded inside decision runs; "
            "non-trivial = the sequence has at least three elements or the remainder is nonzero")

    def cases(self, rng, tier):
        n = 2600 if tier == "quick" else 60000
        out = []
        while len(out) < n:
            p, q = self.pair(rng)
            if not q:
                continue
            if rng.random() < 0.2:
                p, q = q, p
            op = "srs" if rng.random() < 0.6 else "spr"
            if out and rng.random() < 0.2:
                p, q, op = related(rng, rng.choice(out[-40:]))
                if not q or not p:
                    continue
            out.append({"id": len(out), "op": op, "p": p, "q": q, "shard": len(out) // 20})
        for _ in range(n // 25):
            ls = gen.qualified(gen.bounded_system, rng)
            c = {"id": len(out), "op": "internal_vts", "hook": 300, "shard": len(out)}
            c.update(ls)
            out.append(c)
        return out

    def judge(self, case, ev):
        cnt = {}
        if case["op"] == "internal_vts":
            for d in ev.get("int", {}).get("calls", []):
                if d[0] == "srs" and E.norm(d[1]) and E.norm(d[2]):
                    cnt["recorded_inside_decisions"] = cnt.get("recorded_inside_decisions", 0) + 1
                    if E.norm(d[1]) != d[1] or E.norm(d[2]) != d[2]:
                        continue
                    bad = check_srs(d[1], d[2], d[3])
                    if bad:
                        return "viol", "inside a decision: %s (%s)" % (bad, d), cnt
            return "ok", None, cnt
        if "exc" in ev:
            return "viol", exc_violation(ev), cnt
        p, q = E.norm(case["p"]), E.norm(case["q"])
        if case["op"] == "srs":
            bad = check_srs(p, q, ev["ret"]["v"])
            cnt["sequences"] = 1
            cnt["elements"] = len(ev["ret"]["v"])
            cnt["_nt"] = len(ev["ret"]["v"]) > 2
        else:
            rem = E.divmod_(p, q)[1]
            got = poly(ev["ret"]["v"])
            bad = None
            cnt["remainders"] = 1
            cnt["_nt"] = bool(rem)
            if got is None:
                bad = "not an exact polynomial: %s" % ev["ret"]["v"]
            elif bool(got) != bool(rem):
                bad = "remainder should be %s" % [str(c) for c in rem]
            elif rem:
                k = got[-1] / rem[-1]
                if k <= 0 or E.scale(rem, k) != got:
                    bad = "not a positive multiple of the remainder"
        if bad:
            return "viol", "%s: %s -> %s" % (case["op"], bad, str(ev["ret"]["v"])[:300]), cnt
        if ev["ret"].get("mut"):
            return "viol", "arguments were modified", cnt
        return "ok", None, cnt


# ---------------------------------------------------------------- C05, C06

def rooty(rng, maxroots=6, maxdeg=8):
    """polynomials with several real roots inside the back end's range"""
    pool = [F(-6), F(-5), F(-3), F(-2), F(-1), F(-1, 2), F(0), F(1, 2), F(1), F(2), F(3), F(5), F(6),
            F(3, 2), F(-4, 3), F(1001, 1000), F(5, 4)]
    while True:
        k = rng.random()
        if k < 0.55:
            rs = rng.sample(pool, rng.randint(1, maxroots))
            fs = []
            for r in rs:
                fs += [gen.lin(r)] * rng.choice([1, 1, 1, 1, 2, 3])
            if rng.random() < 0.4:
                fs.append(rng.choice(gen.QUADS))
            p = gen.prod(fs)
        elif k < 0.65:
            p = gen.prod([rng.choice(gen.QUADS) for _ in range(rng.randint(1, 3))])
        elif k < 0.72:                  # roots that agree in all printed digits
            a = rng.choice([F(1, 3), F(-2, 3), F(7, 6), F(-11, 7), F(19, 6)])
            e = F(1, rng.choice([10 ** 3, 10 ** 7, 10 ** 9, 10 ** 12]))
            fs = [gen.lin(a), gen.lin(a + e)]
            if rng.random() < 0.5:
                fs.append(gen.lin(rng.choice(pool + [a - e])))
            p = gen.prod(fs)
        else:
            p = gen.rand_poly(rng, maxdeg)
        if rng.random() < 0.4:
            p = [-c for c in p]
        if 1 < len(p) <= maxdeg + 1 and gen.backend_ok(p):
            return p


def signs_at(root, e):
    return (all(root.sign_of(E.norm(q)) == -1 for q in e["neg"]) and
            all(root.sign_of(E.norm(q)) == 0 for q in e["zer"]) and
            all(root.sign_of(E.norm(q)) == 1 for q in e["pos"]))


def same_point(dec, root):
    x = root.approx()
    return abs(float(dec.rstrip("?")) - x) <= 1e-6 * max(1.0, abs(x))


def flat(rng):
    """two very close irrational roots, at which the derivative is tiny (after Mignotte)"""
    while True:
        a, d = rng.choice([10, 20, 50, 100]), rng.choice([4, 6, 8, 10, 12, 14])
        p = gen.prod([[-1, a], [-1, a], [rng.choice([2, 3, 5])]])
        p = [-c for c in p] + [0] * (d + 1 - len(p))
        p[d] += 1
        if rng.random() < 0.5:
            p = [-c for c in p]
        if rng.random() < 0.5:
            p = [c if i % 2 == 0 else -c for i, c in enumerate(p)]
        p = [int(c) for c in gen.shift(p, rng.choice([0, 1, -1, 2]))]
        if gen.backend_ok(p):
            return p


class C05(core.Spec):
    id = "C05"
    family = "vts"
    rule = ("polynomials up to degree 10 with up to seven real roots of mixed multiplicity, irrational and "
            "close roots (also such that the derivative there is as small as 10^-12), both signs of the leading "
            "coefficient; non-trivial = at least two real roots")
    assumptions = [BACKEND]

    def cases(self, rng, tier):
        n = 1600 if tier == "quick" else 30000
        return [{"id": i, "op": "disc", "p": rooty(rng, 7, 10) if rng.random() < 0.97 else flat(rng)}
                for i in range(n)]

    def probe(self, case):
        return backend_probe(case)

    def judge(self, case, ev):
        cnt = {}
        if backend_fault(ev):
            return "excl", "z3 isolated the roots wrongly", cnt
        rs = E.roots(case["p"])
        cnt["_nt"] = len(rs) > 1
        cnt["roots"] = len(rs)
        if "exc" in ev:
            return "viol", exc_violation(ev), cnt
        dds = ev["ret"]["dds"]
        cnt["descriptors"] = len(dds)
        if len(dds) != len(rs):
            return "viol", "%d descriptors for %d real roots" % (len(dds), len(rs)), cnt
        used = set()
        for e in dds:
            ps = e["neg"] + e["zer"] + e["pos"]
            if any(poly(q) is None for q in ps):
                return "viol", "descriptor polynomial is not exact", cnt
            m = [i for i, r in enumerate(rs) if signs_at(r, e)]
            cnt["discriminating_polynomials"] = cnt.get("discriminating_polynomials", 0) + len(ps)
            if len(m) != 1:
                return "viol", "the signs recorded for the root near %s hold at %d roots" % (
                    e["dec"], len(m)), cnt
            if m[0] in used:
                return "viol", "two descriptors for one root", cnt
            used.add(m[0])
            if not same_point(e["dec"], rs[m[0]]):
                return "viol", "descriptor's point %s is not the root its signs describe" % e["dec"], cnt
            if sorted(map(str, e["all"])) != sorted(map(str, ps)):
                return "viol", "the list of descriptor polynomials differs from the recorded signs", cnt
            for q, s in zip(e["all"], e["gs"]):
                want = -1 if q in e["neg"] else 0 if q in e["zer"] else 1
                if s != want:
                    return "viol", "sign lookup says %s, recorded under %s" % (s, want), cnt
        if ev["ret"].get("mut"):
            return "viol", "arguments were modified", cnt
        return "ok", None, cnt


def separator(r, s):
    """a rational strictly between two roots, r < s"""
    a, b = F(-10 ** 6), F(10 ** 6)
    while True:
        m = (a + b) / 2
        x, y = r.sign_of([-m, F(1)]), s.sign_of([-m, F(1)])
        if x < 0 < y:
            return m
        if y <= 0:
            b = m
        else:
            a = m


class C06(core.Spec):
    id = "C06"
    family = "vts"
    jvm = ["-XX:CICompilerCount=2"]
    rule = ("every coded root of a random polynomial (up to six roots, mixed multiplicities) against goal "
            "polynomials that share roots, vanish to higher order, are multiples/derivatives of the origin, "
            "constant, zero, huge; signs at the root and immediately right of it; non-trivial = at least two "
            "roots or a goal vanishing at a root")
    assumptions = [BACKEND]
    min_ok = 100

    def goals(self, rng, p):
        rs = [F(1), F(2), F(-1), F(0), F(3), F(1, 2)]
        out = [[int(c) for c in E.deriv(E.norm(p))]]
        roots = E.roots(p)
        if len(roots) > 1:              # between two neighbouring roots
            i = rng.randrange(len(roots) - 1)
            m = separator(roots[i], roots[i + 1])
            out.append(rng.choice([gen.lin(m), [-c for c in gen.lin(m)]]))
        for _ in range(rng.randint(2, 3)):
            k = rng.random()
            if k < 0.2:
                g = gen.twin(rng, p)
            elif k < 0.5:
                g = gen.rand_poly(rng, 4, kinds=KINDS_ANY)
            elif k < 0.65:
                g = gen.prod([p, gen.rand_poly(rng, 1)])
            elif k < 0.8:
                g = gen.prod([gen.lin(rng.choice(rs))] * rng.randint(1, 3))
            elif k < 0.9:
                g = list(p)
            elif k < 0.95:
                g = [-c for c in p]
            else:
                g = []
            out.append(g)
        rng.shuffle(out)
        return [g for g in out if len(g) < 9]

    def cases(self, rng, tier):
        n = 330 if tier == "quick" else 9000
        out = []
        for i in range(n):
            p = rooty(rng, 4, 7)
            out.append({"id": i, "op": "sign", "p": p, "goals": self.goals(rng, p), "maxd": 3})
        for i in range(2 if tier == "quick" else 60):
            p = rooty(rng, 6, 6)
            while len(E.roots(p)) < 5:
                p = rooty(rng, 6, 6)
            out.append({"id": "h%d" % i, "op": "sign", "p": p, "goals": self.goals(rng, p)[:1],
                        "maxd": 4, "shard": 6})
        return out

    def probe(self, case):
        return backend_probe(case)

    def judge(self, case, ev):
        cnt = {}
        if backend_fault(ev):
            return "excl", "z3 isolated the roots wrongly", cnt
        rs = E.roots(case["p"])
        cnt["_nt"] = len(rs) > 1 or any(r.sign_of(E.norm(g)) == 0 for r in rs for g in case["goals"])
        if "exc" in ev:
            return "viol", exc_violation(ev), cnt
        dds = ev["ret"]["dds"]
        if len(dds) != len(rs):
            return "viol", "%d descriptors for %d real roots" % (len(dds), len(rs)), cnt
        for e in dds:
            if e.get("skip"):
                cnt["skipped_descriptors"] = cnt.get("skipped_descriptors", 0) + 1
                continue
            m = [r for r in rs if same_point(e["dec"], r)]
            if len(m) > 1:              # closer than the printed digits: told apart by the signs
                m = [r for r in m if signs_at(r, e)]
            if len(m) != 1:
                return "viol", "descriptor point %s is not a root" % e["dec"], cnt
            nd = len(e["neg"]) + len(e["zer"]) + len(e["pos"])
            cnt["descriptors_with_%d_signs" % nd] = cnt.get("descriptors_with_%d_signs" % nd, 0) + 1
            for g, at, right in zip(case["goals"], e["at"], e["right"]):
                gg = E.norm(g)
                wa, wr = m[0].sign_of(gg), m[0].sign_right_of(gg)
                cnt["signs_judged"] = cnt.get("signs_judged", 0) + 2
                if wa == 0 and gg:
                    cnt["vanishing_goals"] = cnt.get("vanishing_goals", 0) + 1
                if at != wa or isinstance(at, bool):
                    return "viol", "sign of %s at the root %s of %s is %s, recorded %s" % (
                        g, e["dec"], case["p"], wa, at), cnt
                if right != wr or isinstance(right, bool):
                    return "viol", "sign of %s right of the root %s of %s is %s, recorded %s" % (
                        g, e["dec"], case["p"], wr, right), cnt
        return "ok", None, cnt


# ---------------------------------------------------------------- C10

class C10(core.Spec):
    id = "C10"
    family = "vts"
    rule = ("products, derivatives, point evaluations and the full {0,1,2}-exponent product list of random "
            "integer polynomials (degree 0..12, some to 40, huge and zero coefficients); non-trivial = two polynomials of "
            "degree at least one")
    assumptions = ["lib/exact.py"]

    def cases(self, rng, tier):
        n = 3000 if tier == "quick" else 60000
        out = []
        for i in range(n):
            ps = [gen.rand_poly(rng, rng.choice([2, 5, 12]), kinds=KINDS_ANY) for _ in range(2)]
            if rng.random() < 0.05:
                ps[rng.randrange(2)] = []
            elif rng.random() < 0.08:   # coefficients of one size and sign: large sums of products
                b = 2 ** rng.choice([1, 2, 3, 7, 16, 31, 32, 63, 64, 100])
                ps = [[rng.choice([1, 1, -1]) * (b - rng.choice([0, 1]))] * rng.choice([3, 9, 17, 33, 40]) for _ in range(2)]
            c = {"id": i, "op": "arith", "ps": ps,
                 "pts": [str(F(rng.randint(-9, 9), rng.choice([1, 1, 2, 3, 7]))) for _ in range(3)] + ["0", "1"]}
            k = rng.random()
            if k < 0.25:
                m = rng.choice([0, 1, 2, 2, 3, 3, 4])
                c["mpl"] = [gen.rand_poly(rng, 3, kinds=KINDS_ANY) for _ in range(m)]
            out.append(c)
        return out

    def judge(self, case, ev):
        cnt = {"_nt": all(len(p) > 1 for p in case["ps"])}
        if "exc" in ev:
            return "viol", exc_violation(ev), cnt
        r = ev["ret"]
        a, b = [E.norm(p) for p in case["ps"]]
        if poly(r["mul"]) != E.mul(a, b):
            return "viol", "product: %s" % r["mul"], cnt
        for p, d in zip((a, b), r["der"]):
            if poly(d) != E.deriv(p):
                return "viol", "derivative: %s" % d, cnt
        for x, v in zip(case["pts"], r["ev"]):
            if num(v) != E.ev(a, F(x)):
                return "viol", "value at %s: %s" % (x, v), cnt
        cnt["products"] = 1
        cnt["values"] = len(case["pts"])
        if "mpl" in case:
            ps = [E.norm(p) for p in case["mpl"]]
            want = [[F(1)]]
            for p in ps:
                want = [E.mul(w, E.power(p, k)) for w in want for k in (0, 1, 2)]
            got = [poly(p) for p in r["mpl"]]
            cnt["product_lists"] = 1
            cnt["list_entries"] = len(got)
            if got != want:
                bad = [i for i in range(min(len(got), len(want))) if got[i] != want[i]]
                return "viol", "product list of %s wrong (length %d for %d, entry %s)" % (
                    case["mpl"], len(got), len(want), bad[:1]), cnt
        if r.get("mut"):
            return "viol", "arguments were modified", cnt
        return "ok", None, cnt


# ---------------------------------------------------------------- C11

class C11(core.Spec):
    id = "C11"
    family = "vts"
    rule = ("symbolic univariate polynomials with rational coefficients in expanded, factored, nested and "
            "cancelling forms, several variable names, huge numerators/denominators, gaps and zero; "
            "non-trivial = not already an expanded integer polynomial of degree <= 1")
    assumptions = ["sympy 0.7.6.1 arithmetic (used to build the input and read the reverse conversion)"]

    def ratpoly(self, rng):
        k = rng.random()
        d = rng.choice([1, 2, 3, 5, 9, 14])
        dens = rng.choice([[1], [1, 2, 3], [1, 2, 3, 4, 6, 7, 12], [10 ** 9 + 7, 3 * 10 ** 12, 8]])
        big = rng.random() < 0.15
        p = [F(gen.coef(rng, big), rng.choice(dens)) for _ in range(rng.randint(0, d) + 1)]
        if k < 0.25:
            p = [c if rng.random() < 0.35 else F(0) for c in p]
            p[-1] = F(rng.choice([1, -1, 3, -2]), rng.choice(dens))
        if k > 0.97:
            p = []
        return E.norm(p)

    def cases(self, rng, tier):
        n = 1100 if tier == "quick" else 20000
        out = []
        for i in range(n):
            p = self.ratpoly(rng)
            e = rand_ast(rng, p)
            v = rng.choice(["x", "x", "x", "y", "t_12", "alpha", "E", "zz"])
            if v != "x":
                e = rename(e, v)
            out.append({"id": i, "op": "convert", "e": e, "p": [str(c) for c in p]})
        return out

    def judge(self, case, ev):
        want = E.norm([F(c) for c in case["p"]])
        cnt = {"_nt": len(want) > 2 or any(c.denominator > 1 for c in want)}
        if "exc" in ev:
            return "viol", exc_violation(ev), cnt
        r = ev["ret"]
        raw = [num(c) for c in r["v"]]
        if any(c is None or c.denominator != 1 for c in raw) or \
                any(t not in ("int", "long") for t in r["types"]):
            return "viol", "not a list of integers: %s %s" % (r["v"], r["types"]), cnt
        if len(raw) != len(want):
            return "viol", "length %d for degree %d" % (len(raw), len(want) - 1), cnt
        if want:
            k = raw[-1] / want[-1]
            if k <= 0 or [c * k for c in want] != raw:
                return "viol", "%s is not a positive multiple of %s" % (r["v"], case["p"]), cnt
        back = {}
        for c, e in r["back"]:
            back[e] = num(c)
        b = E.norm([back.get(i, F(0)) or F(0) for i in range(max(list(back) + [0]) + 1)])
        if b != E.norm(raw) or [f for f in r["free"] if f != "x"]:
            return "viol", "converted back to %s (%s)" % (r["back"], r["free"]), cnt
        cnt["polynomials"] = 1
        cnt["coefficients"] = len(raw)
        return "ok", None, cnt


def rename(e, v):
    if not isinstance(e, list):
        return e
    if e and e[0] == "p":
        return ["p", e[1], v]
    if e and e[0] in ("q", "i", "f"):
        return e
    return [e[0]] + [rename(t, v) if isinstance(t, list) else t for t in e[1:]]


# ---------------------------------------------------------------- C17

# coefficients are polynomials in two infinitesimals: {(i, j): rational}
def cadd(a, b):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + v
    return {k: v for k, v in r.items() if v}


def cmul(a, b):
    r = {}
    for (i, j), v in a.items():
        for (k, l), w in b.items():
            r[(i + k, j + l)] = r.get((i + k, j + l), 0) + v * w
    return {k: v for k, v in r.items() if v}


def pmul(p, q):
    r = [{} for _ in range(len(p) + len(q) - 1)]
    for i, a in enumerate(p):
        for j, b in enumerate(q):
            r[i + j] = cadd(r[i + j], cmul(a, b))
    return r


def at_eps(p, e1, e2):
    return E.norm([sum((v * e1 ** i * e2 ** j for (i, j), v in c.items()), F(0)) for c in p])


def decimal(d):
    d = d.rstrip("?")
    return float(d) if d.strip("-") else 0.0       # z3 prints "-?" for infinitesimals


class C17(core.Spec):
    """coefficients containing infinitesimals"""
    id = "C17"
    family = "vts"
    rule = ("systems whose polynomials have coefficients built from up to two infinitesimals (roots that differ "
            "infinitesimally from each other or from a rational, infinitesimal shifts of constant terms), decided by "
            "both procedures; the reference puts 10^-9 and 10^-27 (and, to confirm, 10^-11 and 10^-34) for the "
            "infinitesimals; non-trivial = some polynomial contains an infinitesimal and has a root")
    assumptions = ["z3's infinitesimal arithmetic and root isolation over them (a wrong count of roots, or a "
                   "reported root that is not one, recorded at that boundary excludes the case)"]
    POINTS = [(F(1, 10 ** 9), F(1, 10 ** 27)), (F(1, 10 ** 11), F(1, 10 ** 34))]
    min_ok = 80

    def factor(self, rng, pool):
        k = rng.random()
        r = {(0, 0): rng.choice(pool)}
        if k < 0.75:
            if rng.random() < 0.8:
                r = cadd(r, {rng.choice([(1, 0), (1, 0), (0, 1)]): F(rng.choice([1, -1, 2, -3]))})
            return [{a: -b for a, b in r.items() if b}, {(0, 0): F(rng.choice([1, 1, 2, -1]))}]
        if k < 0.9:                 # (x - r)^2 - eps or + eps
            s = F(rng.choice([1, -1]))
            c = rng.choice([(1, 0), (0, 1)])
            v = r[(0, 0)]
            return [cadd({(0, 0): v * v} if v else {}, {c: s}), {(0, 0): -2 * v} if v else {}, {(0, 0): F(1)}]
        return [{(0, 0): F(c)} if c else {} for c in rng.choice(gen.QUADS)]

    def cases(self, rng, tier):
        n = 700 if tier == "quick" else 9000
        out = []
        while len(out) < n:
            pool = rng.sample([F(0), F(1), F(2), F(-1), F(3), F(-2)], rng.choice([1, 1, 2]))
            ps = []
            for _ in range(rng.randint(1, 3)):
                p = [{(0, 0): F(rng.choice([1, 1, -1]))}]
                for _ in range(rng.choice([1, 1, 2, 2, 3])):
                    p = pmul(p, self.factor(rng, pool))
                # z3 needs minutes for clusters of four infinitesimally close roots
                if len(p) <= 3 or (len(p) == 4 and sum(len(c) > 1 for c in p) < 3):
                    # (an infinitely large root, as of e*x - 1, makes z3 hang; infinitesimal multiples do not)
                    if rng.random() < 0.12:
                        p = pmul(p,
                                 [{rng.choice([(1, 0), (1, 0), (0, 1)]): F(rng.choice([1, -1, 2]))}])
                    ps.append(p)
            if not ps:
                continue
            c = {"id": len(out), "op": "eps_" + rng.choice(["vts", "ts"]), "le": [], "lt": [], "eq": [], "ne": []}
            if rng.random() < 0.4:      # infinitesimally different from one that is there
                p = rng.choice(ps)
                d = {rng.choice([(1, 0), (0, 1)]): F(rng.choice([1, -1, 2]))}
                j = rng.choice([0, 0, 1]) if len(p) > 2 else 0
                ps.append([cadd(a, d) if i == j else a for i, a in enumerate(p)])
            for p in ps:
                c[rng.choice(["le", "lt", "lt", "eq", "ne"])].append(
                    [[[i, j, str(v)] for (i, j), v in sorted(a.items())] for a in p])
            out.append(c)
        return out

    def probe(self, case):
        return {"id": "probe", "op": "eps_probe", "ps": [p for r in REL for p in case[r]]}

    def judge(self, case, ev):
        cnt = {}
        ps = {r: [[{(i, j): F(v) for i, j, v in a} for a in p] for p in case[r]] for r in REL}
        flat = [p for r in REL for p in ps[r]]
        nroots = []
        ans = []
        for e1, e2 in self.POINTS:
            cons = [(at_eps(p, e1, e2), r) for r in REL for p in ps[r]]
            ans.append(E.decide(cons) is not None)
            nroots.append([len(E.roots(p)) for p, _ in cons])
        if ans[0] != ans[1] or nroots[0] != nroots[1]:
            return "excl", "reference points disagree", cnt
        for i, decs, zero in ev.get("int", {}).get("eps", []):
            cnt["root_isolations"] = cnt.get("root_isolations", 0) + 1
            if not zero:
                return "excl", "z3 isolated the roots wrongly", cnt
            if i is not None:
                rs = [r.approx() for r in E.roots(at_eps(flat[i], *self.POINTS[1]))]
                got = [decimal(d) for d in decs]
                if len(got) != len(rs) or any(abs(a - b) > 1e-4 for a, b in zip(sorted(got), rs)):
                    return "excl", "z3 isolated the roots wrongly", cnt
        cnt["_nt"] = any(n and any(k != (0, 0) for c in p for k in c) for n, p in zip(nroots[0], flat))
        if "exc" in ev:
            if "more than 5 polies" in ev["exc"]:
                return "excl", "declared limit of five sign polynomials", cnt
            return "viol", exc_violation(ev), cnt
        cnt["satisfiable" if ans[0] else "unsatisfiable"] = 1
        cnt[case["op"]] = 1
        if ev["ret"]["v"] is not ans[0]:
            return "viol", "answered %s, but the system is %s" % (
                ev["ret"]["v"], "satisfiable" if ans[0] else "unsatisfiable"), cnt
        return "ok", None, cnt
