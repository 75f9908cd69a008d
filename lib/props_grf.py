"""Monitors for geometric relevance filtering (GRF), run on a stand-in for Sage."""
from fractions import Fraction as F

import core
import corpus
import exact as E
import mpoly as M

OPS = {">": lambda s: s > 0, "<": lambda s: s < 0, "<=": lambda s: s <= 0,
       ">=": lambda s: s >= 0, "=": lambda s: s == 0, "!=": lambda s: s != 0}
NEG = {">": "<=", "<": ">=", "<=": ">", ">=": "<", "=": "!=", "!=": "="}


def up(p):
    r = {}
    for c, m in p:
        k = tuple(sorted((v, e) for v, e in m.items() if e))
        r[k] = r.get(k, F(0)) + F(c)
        if not r[k]:
            del r[k]
    return r


def down(a):
    return [[str(c), dict(m)] for m, c in sorted(a.items())]


def V(i):
    return M.var("x%d" % i)


def c(n):
    return M.const(n)


def diff(a):
    """atom [lhs, op, rhs] -> (polynomial, op)"""
    p = up(a[0])
    if len(a) > 2:
        p = M.sub(p, up(a[2]))
    return p, a[1]


def val(t):
    return F(float(t[1:])) if t[0] == "f" else F(t)


def holds(at, pt):
    p, op = at
    return OPS[op](E.sgn(M.ev(p, pt)))


def size(p, pt):
    t = F(0)
    for m, k in p.items():
        k = abs(k)
        for v, e in m:
            k *= abs(pt[v]) ** e
        t += k
    return t


def close(p, pt):
    """so near zero that floating point may see another sign"""
    return abs(M.ev(p, pt)) <= F(1, 10 ** 9) * size(p, pt)


def last(polys, pt, v):
    """substitute all but v: univariate coefficient lists"""
    out = []
    for p in polys:
        u = M.subst(p, pt)
        d = {dict(m).get(v, 0): k for m, k in u.items()}
        out.append(E.norm([d.get(i, F(0)) for i in range(max(d) + 1)] if d else []))
    return out


def grid(n, rng, fine):
    base = [F(k) for k in range(-5, 6)] + [F(1, 2), F(-1, 2), F(3, 2), F(-3, 2), F(1, 10), F(-1, 10), F(30), F(-30)]
    if n == 0:
        return [()]
    if n == 1:
        xs = [F(k, 4) for k in range(-26, 27)] + base + [F(rng.randint(-4000, 4000), 997) for _ in range(40 * fine)]
        return [(x,) for x in sorted(set(xs))]
    pts = [(a, b) for a in base for b in base]
    pts += [(F(rng.randint(-4000, 4000), 997), F(rng.randint(-4000, 4000), 991)) for _ in range(150 * fine)]
    if n > 2:
        pts = [tuple(rng.choice(base) + F(rng.randint(-99, 99), 997) for _ in range(n)) for _ in range(300 * fine)]
    return pts


def open_vectors(polys, n, rng, fine=1, keep=None):
    """strict sign vectors seen on open cells, with a witness; only points the predicate keeps"""
    polys = [p for p in polys if M.vars_of(p)]
    out = {}
    v = "x%d" % (n - 1)
    for xs in grid(n - 1, rng, fine):
        pt = {"x%d" % i: x for i, x in enumerate(xs)}
        us = last(polys, pt, v)
        if any(not u for u in us):
            continue
        for w, sv in open_line(us):
            if sv not in out or (keep and not keep(out[sv])):
                out[sv] = dict(pt, **{v: w})
    return out


def open_line(us):
    """(point, strict sign vector) in every gap between the roots of the polynomials"""
    prod = [F(1)]
    for u in us:
        if E.deg(u) > 0:
            q = E.squarefree(u)
            prod = E.mul(prod, E.divmod_(q, E.gcd(q, prod))[0])
    pts = gaps(prod)
    return [(x, tuple(E.sgn(E.ev(u, x)) for u in us)) for x in pts]


def gaps(prod):
    if E.deg(prod) < 1:
        return [F(0)]
    rs = E.roots(prod)
    if not rs:
        return [F(0)]
    for a, b in zip(rs, rs[1:]):
        while a.hi >= b.lo:
            a.refine()
            b.refine()
    out = [rs[0].lo - 1]
    for a, b in zip(rs, rs[1:]):
        out.append((a.hi + b.lo) / 2)
    out.append(rs[-1].hi + 1)
    return out


# ---------------------------------------------------------------- workload

def rpoly(rng, n, top=2):
    r = rng.random()
    vs = [V(i) for i in range(n)]
    x, y = rng.choice(vs), rng.choice(vs)
    k, l = rng.randint(-3, 3), rng.randint(-3, 3)
    if r < 0.25:
        return M.sub(x, c(k))
    if r < 0.4 and n > 1:
        return M.add(M.sub(x, y), c(k)) if x != y else M.add(x, c(k))
    if r < 0.55:
        return M.sub(M.mul(x, x), c(rng.choice([1, 2, 3, 4, 5, 0, -1])))
    if r < 0.65:
        return M.sub(M.mul(x, y), c(k))
    if r < 0.75:
        return M.sub(M.add(M.mul(x, x), M.mul(y, y)), c(rng.choice([1, 2, 4, 9])))
    if r < 0.85:
        return M.mul(M.sub(x, c(k)), M.sub(M.mul(y, y), c(abs(l))))
    a = {}
    for _ in range(rng.randint(1, 3)):
        t = c(rng.choice([1, -1, 2, -2, 3, F(1, 2)]))
        for _ in range(rng.randint(0, top)):
            t = M.mul(t, rng.choice(vs))
        a = M.add(a, t)
    return a


def tangled(rng, n):
    """curves that meet only where a shared or repeated factor hides it from resultants"""
    i, j = rng.sample(range(n), 2)
    x, y = V(i), V(j)
    a, b = c(rng.choice([1, 2, 3])), c(rng.randint(-2, 2))
    f = M.add(y, c(rng.choice([20, 50, -30])))
    par = M.add(M.sub(y, M.mul(x, x)), a)
    u = M.sub(x, c(rng.choice([3, 5, -4])))
    circ = M.sub(M.add(M.mul(u, u), M.mul(y, y)), c(1))
    return rng.choice([
        lambda: [M.mul(f, y), M.mul(f, par)],
        lambda: [M.mul(f, M.sub(y, b)), M.mul(f, par)],
        lambda: [M.mul(M.mul(circ, circ), circ)],
        lambda: [M.mul(M.mul(y, y), M.mul(y, par))],
        lambda: [M.mul(M.sub(x, y), M.mul(M.sub(x, y), M.add(x, y))), M.sub(x, b)],
        lambda: [circ, M.neg(circ), M.sub(y, b)],
    ])()


def ratom(rng, n, strict=0.7, top=2):
    while True:
        p = rpoly(rng, n, top)
        if M.vars_of(p):
            break
    op = rng.choice(["<", ">"]) if rng.random() < strict else rng.choice(["<=", ">=", "=", "!="])
    q = {}
    if rng.random() < 0.4:
        q = rpoly(rng, n, 1)
        if not M.vars_of(M.sub(M.add(p, q), q)):
            q = {}
    return [down(M.add(p, q)), op, down(q)]


class GRF(core.Spec):
    family = "grf"
    step = 90

    def gap(self, ev):
        return isinstance(ev.get("ret"), dict) and "gap" in ev["ret"]


class C30(GRF):
    id = "C30"
    rule = ("atoms and goals evaluated at full, partial and larger points, before and after negation; non-trivial: some atom true "
            "and some false; distinct by atoms and points")

    def cases(self, rng, tier):
        out = []
        for i in range(1500 if tier == "quick" else 20000):
            n = rng.choice([1, 1, 2, 2, 3])
            atoms = [ratom(rng, n, 0.4, 3) for _ in range(rng.randint(1, 4))]
            if rng.random() < 0.1:
                atoms[0] = [down(c(rng.randint(-1, 1))), rng.choice(sorted(OPS)), []]
            pts = []
            tiny = rng.random() < 0.3
            if tiny:
                k = rng.choice([F(1), F(-3), F(1, 3), F(10 ** 20), F(10 ** 12 + 1)])
                e = F(1, 10 ** rng.choice([6, 9, 12, 13, 16, 20, 30])) * rng.choice([1, -1])
                x, y = V(0), V(n - 1)
                atoms[0] = [down(x), rng.choice(["=", "!=", "=", "!=", "<", ">", "<=", ">="]),
                            down(y if n > 1 else c(k))]
                if rng.random() < 0.5:
                    atoms[-1] = [down(M.mul(M.sub(x, c(k)), x)), rng.choice(sorted(OPS)), down(c(e) if rng.random() < 0.3 else {})]
                near = [k, k + e, k - e, k, e, F(0), k + 2 * e]
                for _ in range(4):
                    pts.append({"x%d" % j: str(rng.choice(near)) for j in range(n)})
            for _ in range(rng.randint(3, 8)):
                pt = {}
                for j in range(n):
                    if n == 1 or rng.random() < 0.85:
                        pt["x%d" % j] = str(rng.choice([F(rng.randint(-4, 4)), F(rng.randint(-20, 20), 6)]))
                if pt:
                    pts.append(pt)
            pts.append({"x%d" % j: "0" for j in range(n)})
            out.append({"id": "e%d" % i, "op": "atoms", "n": n, "atoms": atoms, "points": pts})
        return out

    def judge(self, case, ev):
        if "exc" in ev:
            return "viol", "raised %s" % ev["exc"], {}
        if self.gap(ev):
            return "excl", "Sage stand-in: " + ev["ret"]["gap"], {}
        atoms = [diff(a) for a in case["atoms"]]
        cnt = {"atoms": 0, "undetermined": 0}
        seen = set()
        for pt, row in zip(case["points"], ev["ret"]):
            q = {k: F(v) for k, v in pt.items()}
            want, neg = [], []
            for p, op in atoms:
                if set(M.vars_of(p)) - set(q):
                    want.append(None)
                    neg.append(None)
                    cnt["undetermined"] += 1
                else:
                    want.append(holds((p, op), q))
                    neg.append(not want[-1])
            g = bool(want[0]) or any(w is False for w in want[1:])
            cnt["atoms"] += len(atoms)
            seen |= set(want)
            if row["a"] != want or row["aa"] != want:
                return "viol", "at %s the atoms are %s (again %s), should be %s" % (pt, row["a"], row["aa"], want), cnt
            if row["n"] != neg:
                return "viol", "at %s the negated atoms are %s, should be %s" % (pt, row["n"], neg), cnt
            if row["g"] != g:
                return "viol", "at %s the goal is %s, should be %s" % (pt, row["g"], g), cnt
        cnt["_nt"] = {True, False} <= seen
        return "ok", "", cnt


class C31(GRF):
    id = "C31"
    rule = ("sample points of generated polynomial sets in one, two and three variables compared with the strict sign vectors an "
            "independent exact search finds on open regions; non-trivial: more than two regions; distinct by the set")

    def cases(self, rng, tier):
        out = []
        k = 1 if tier == "quick" else 12
        for i in range(700 * k):
            n = rng.choice([1, 1, 2, 2, 3])
            ps = [rpoly(rng, n, 3 if n == 1 else 2) for _ in range(rng.randint(1, 4 if n < 3 else 2))]
            ps = [p for p in ps if p]
            if rng.random() < 0.3:                      # shared and repeated factors
                f = rpoly(rng, n, 1)
                if n < 3 and all(sum(e for _, e in m) <= 2 for m in f):
                    ps = [M.mul(p, f) if sum(max(sum(e for _, e in m) for m in q) for q in (p, f)) <= 4 and rng.random() < 0.7
                          else p for p in ps if f] or ps
            if n > 1 and rng.random() < 0.15:
                ps = tangled(rng, n)
            if not ps:
                continue
            case = {"id": "s%d" % i, "op": "sample", "n": n, "polys": [down(p) for p in ps], "seed": rng.randint(1, 10 ** 6),
                    "num_sps": rng.choice([1, 1, 2, 3])}
            r = rng.random()
            if n > 1 and r < 0.5:
                case["goal"] = [down(c(0)), ">", down(c(1))]            # never true: everything is lifted
            elif n > 1 and r < 0.85:
                case["goal"] = ratom(rng, n, 0.9)
                case["polys"].append(down(diff(case["goal"])[0]))
            if rng.random() < 0.3:
                case["amb"] = [[down(V(rng.randrange(n))), rng.choice(["<", ">", "="])] for _ in range(2)]
            out.append(case)
        return out

    def judge(self, case, ev):
        import random
        if "exc" in ev:
            return "viol", "raised %s" % ev["exc"], {}
        if self.gap(ev):
            return "excl", "Sage stand-in: " + ev["ret"]["gap"], {}
        n = case["n"]
        polys = [up(p) for p in case["polys"]]
        polys = [p for p in polys if M.vars_of(p)]
        pts = [{k: val(v) for k, v in d.items()} for d in ev["ret"]["pts"]]
        names = {"x%d" % i for i in range(n)}
        if any(set(p) != names for p in pts):
            return "viol", "a sample point does not give every variable a value", {}
        got = {tuple(E.sgn(M.ev(p, pt)) for p in polys) for pt in pts}
        goal = diff(case["goal"]) if case.get("goal") else None
        want = open_vectors(polys, n, random.Random(len(pts)), 1,
                            (lambda w: not holds(goal, w)) if goal else None)
        cnt = {"variables:%d" % n: 1, "regions": len(want), "points": len(pts), "_nt": len(want) > 2}
        for sv, w in want.items():
            if goal and holds(goal, w):
                continue
            if sv not in got:
                return "viol", "no sample point where the signs are %s, e.g. at %s" % (
                    sv, {k: str(x) for k, x in w.items()}), cnt
        if n == 1:
            for p in polys:
                u = last([p], {}, "x0")[0]
                for r in rational_roots(u):
                    if not any(pt["x0"] == r for pt in pts):
                        return "viol", "the rational root %s is not a sample point" % r, cnt
            prod = [F(1)]
            for u in last(polys, {}, "x0"):
                q = E.squarefree(u)
                prod = E.mul(prod, E.divmod_(q, E.gcd(q, prod))[0])
            e = sectors_missed(prod, [pt["x0"] for pt in pts])
            if e:
                return "viol", e, cnt
        return "ok", "", cnt


def rational_roots(u):
    out = []
    for r in E.roots(u) if E.deg(u) > 0 else []:
        while r.hi - r.lo > F(1, 10 ** 6):
            r.refine()
        q = ((r.lo + r.hi) / 2).limit_denominator(200)
        if E.ev(u, q) == 0:
            out.append(q)
    return out


def sectors_missed(prod, xs):
    """every gap between consecutive roots has a sample"""
    if E.deg(prod) < 1:
        return None
    rs = E.roots(prod)
    for i in range(len(rs) + 1):
        ok = False
        for x in xs:
            if E.ev(prod, x) == 0:
                continue
            below = 0
            for r in rs:
                while r.lo <= x <= r.hi and r.lo < r.hi:
                    r.refine()
                below += r.hi < x
            ok = ok or below == i
        if not ok:
            return "no sample point in gap %d of the %d roots" % (i, len(rs))
    return None


def small_points(n, rng, k=200):
    base = [F(0), F(1), F(-1), F(2), F(-2), F(1, 2), F(3), F(-3)]
    out = []
    for _ in range(k):
        out.append({"x%d" % i: rng.choice(base) for i in range(n)})
    return out


class C32(GRF):
    id = "C32"
    rule = ("goal-directed runs (automatic and scripted interactive, partial and full) on generated sequents; non-trivial: a "
            "hypothesis was promoted or a counterexample reported; distinct by the sequent")

    def cases(self, rng, tier):
        out = []
        k = 1 if tier == "quick" else 10
        for i in range(350 * k):
            n = rng.choice([1, 1, 2, 2, 2, 3])
            s = rng.choice([1.0, 0.8, 0.5])
            hyps = [ratom(rng, n, s) for _ in range(rng.randint(0, 5) if rng.random() < 0.2 else rng.randint(1, 5))]
            goal = ratom(rng, n, 0.8)
            r = rng.random()
            if r < 0.5:                                 # consequences of the hypotheses
                goal, extra = implied(rng, n)
                hyps = hyps[:3] + extra
                rng.shuffle(hyps)
            elif r < 0.6 and n > 1:                     # equations
                hyps = [[down(rpoly(rng, n, 1)), "=", []] for _ in range(2)] + hyps[:2]
            case = {"id": "k%d" % i, "op": "check", "n": n, "hyps": hyps, "goal": goal, "seed": rng.randint(1, 10 ** 6),
                    "partial": 0 if rng.random() < 0.25 else 1, "num_sps": rng.choice([1, 1, 2]),
                    "k": rng.choice([1, 5]), "eps": rng.choice([0.01, 0.1, 2])}
            if rng.random() < 0.3:
                case["script"] = [rng.choice(["s", "b", "p", "0", "1", "99", "zz", "S", "go", "-1", "-2", "-1", "2", "", " 0", "1.5", "B", "p 1",
                                              "6", "0x1", "1 "]) for _ in range(rng.randint(1, 10))]
            out.append(case)
        return out

    def judge(self, case, ev):
        import random
        if "exc" in ev:
            return "viol", "raised %s" % ev["exc"], {}
        if self.gap(ev):
            return "excl", "Sage stand-in: " + ev["ret"]["gap"], {}
        return judge_run(case["n"], [diff(a) for a in case["hyps"]], diff(case["goal"]), ev["ret"])


def judge_run(n, hyps, goal, r):
    import random
    rng = random.Random(7)
    cnt = {"promoted": len(r["promoted"]), "hypotheses": len(hyps),
           "_nt": bool(r["promoted"]) or "cex" in r}
    if sorted(r["left"] + r["right"]) != list(range(len(hyps))):
        return "viol", "hypotheses left %s and used %s of %d" % (r["left"], r["right"], len(hyps)), cnt
    if r["right"] != r["promoted"]:
        return "viol", "used %s, but promoted %s" % (r["right"], r["promoted"]), cnt
    for i, (p, op) in zip(r["left"], r["left_now"]):
        if up(p) != hyps[i][0] or op != hyps[i][1]:
            return "viol", "hypothesis %d that was left is now %s %s 0" % (i, p, op), cnt
    if up(r["goal_now"][0]) != goal[0] or r["goal_now"][1] != goal[1]:
        return "viol", "the goal became %s" % (r["goal_now"],), cnt
    now = [(up(p), op) for p, op in r["right_now"]]
    was = [hyps[i] for i in r["right"]]
    if any(op == "=" for _, op in was):
        for pt in small_points(n, rng) + on_equations(was, n, rng):
            a, b = all(holds(h, pt) for h in was), all(holds(h, pt) for h in now)
            if a != b:
                return "viol", "the used hypotheses became %s, not equivalent at %s" % (
                    r["right_now"], {k: str(v) for k, v in pt.items()}), cnt
    elif [(p, op) for p, op in now] != was:
        return "viol", "the used hypotheses became %s" % (r["right_now"],), cnt
    if "cex" in r:
        pt = {k: val(v) for k, v in r["cex"].items()}
        cnt["counterexamples"] = 1
        for h in hyps:
            if set(M.vars_of(h[0])) - set(pt):
                return "viol", "the counterexample %s lacks variables" % r["cex"], cnt
            if not holds(h, pt):
                if close(h[0], pt):
                    return "excl", "counterexample within rounding of a hypothesis", cnt
                return "viol", "the counterexample %s does not satisfy %s" % (r["cex"], h), cnt
        if holds(goal, pt):
            if close(goal[0], pt):
                return "excl", "counterexample within rounding of the goal", cnt
            return "viol", "the goal holds at the counterexample %s" % r["cex"], cnt
        return "ok", "", cnt
    if "stop" in r:
        return "viol", "stopped with %s" % r["stop"][:200], cnt
    if not r["done"]:
        return "viol", "ended without a result", cnt
    cnt["completed"] = 1
    used = was + [goal]
    vs = open_vectors([p for p, _ in used], n, rng)
    for w in vs.values():
        if all(holds(h, w) for h in was) and not holds(goal, w):
            return "viol", "reported true from hypotheses %s, but these hold and the goal fails around %s" % (
                r["right"], {k: str(v) for k, v in w.items()}), cnt
    return "ok", "", cnt


def on_equations(atoms, n, rng):
    """points that satisfy a linear equation among the atoms"""
    out = []
    for p, op in atoms:
        if op != "=":
            continue
        for _ in range(60):
            pt = {"x%d" % i: F(rng.randint(-3, 3)) for i in range(n)}
            v = rng.choice(M.vars_of(p) or ["x0"])
            u = last([p], {w: x for w, x in pt.items() if w != v}, v)[0]
            if len(u) == 2:
                pt[v] = -u[0] / u[1]
                out.append(pt)
    return out


def implied(rng, n):
    """a goal and hypotheses from which it follows"""
    x, y = V(rng.randrange(n)), V(rng.randrange(n))
    k = rng.randint(-2, 2)
    return rng.choice([
        lambda: ([down(M.add(x, c(1))), ">", []], [[down(x), ">", []]]),
        lambda: ([down(M.mul(x, y)), ">", []], [[down(x), ">", []], [down(y), ">", []]]),
        lambda: ([down(M.sub(x, c(k))), ">", []], [[down(M.sub(x, y)), ">", []], [down(M.sub(y, c(k))), ">=", []]]),
        lambda: ([down(M.sub(M.mul(x, x), c(1))), ">", []], [[down(M.sub(x, c(1))), ">", []]]),
        lambda: ([down(M.sub(M.mul(x, x), c(2))), "<", []], [[down(M.sub(x, c(1))), "<", []], [down(M.add(x, c(1))), ">", []]]),
        lambda: ([down(M.add(M.mul(x, x), c(1))), ">", []], []),
        lambda: ([down(x), "<=", []], [[down(M.add(x, M.mul(y, y))), "<=", []]]),
        lambda: ([down(M.add(x, y)), ">", []], [[down(M.sub(x, c(1))), ">", []], [down(M.add(y, c(1))), ">", []]]),
        lambda: ([down(x), "=", []], [[down(M.sub(x, y)), "=", []], [down(M.add(x, y)), "=", []]]),
        lambda: ([down(M.sub(x, c(k))), "=", []], [[down(M.sub(x, c(k))), "=", []]]),
    ])()


# ---------------------------------------------------------------- the input language

def num_text(q, rng):
    """a numeral (with a dot) for a rational that has one, else a quotient"""
    q = F(q)
    if q < 0:
        if rng.random() < 0.5:
            return "(- %s)" % num_text(-q, rng)
        if q.denominator == 1:
            return "~%d%s" % (-q, rng.choice([".", ".0"]))
        if not 10 ** 4 % q.denominator and rng.random() < 0.6:
            return "~%d.%04d" % divmod(-q * 10 ** 4, 10 ** 4)
        return "(/ ~%d. %d.)" % (-q.numerator, q.denominator)
    if q.denominator == 1:
        return "%d%s" % (q, rng.choice([".", ".0", ".00"]))
    d = q.denominator
    if not 10 ** 4 % d and rng.random() < 0.6:
        t = 10 ** 4 * q
        return "%d.%04d" % (t // 10 ** 4, t % 10 ** 4)
    return "(/ %d. %d.)" % (q.numerator, d)


def term_text(p, names, rng):
    """some way of writing a polynomial"""
    if not p:
        return rng.choice(["0.", "0.0", "(- %s %s)" % (names["x0"], names["x0"])])
    ts = []
    for m, k in p.items():
        fs = [names[v] for v, e in m for _ in range(e)]
        rng.shuffle(fs)
        if k != 1 or not fs:
            if fs and k == -1 and rng.random() < 0.5:
                fs[0] = "(- %s)" % fs[0]
            else:
                fs.insert(rng.randint(0, len(fs)), num_text(k, rng))
        while len(fs) > 1:
            i = rng.randrange(len(fs) - 1)
            fs[i:i + 2] = ["(* %s %s)" % (fs[i], fs[i + 1])]
        ts.append(fs[0])
    rng.shuffle(ts)
    while len(ts) > 1:
        i = rng.randrange(len(ts) - 1)
        if rng.random() < 0.3:
            ts[i:i + 2] = ["(- %s (- %s))" % (ts[i], ts[i + 1])]
        else:
            ts[i:i + 2] = ["(+ %s %s)" % (ts[i], ts[i + 1])]
    t = ts[0]
    if rng.random() < 0.15:
        k = rng.choice([2, 3, 4, 5])
        t = rng.choice(["(/ (* %s %d.) %d.)" % (t, k, k), "(- (+ %s %d.) %d.0)" % (t, k, k)])
    return t


def rterm(rng, names, depth):
    """a term of the input language and the polynomial it denotes"""
    r = rng.random()
    if depth == 0 or r < 0.15:
        if rng.random() < 0.6:
            v = rng.choice(sorted(names))
            return names[v], M.var(v)
        q = F(rng.randint(-9, 9)) if rng.random() < 0.6 else F(rng.randint(-99, 99), rng.choice([2, 4, 5, 8, 10, 100, 3, 7]))
        return num_text(q, rng), M.const(q)
    a, p = rterm(rng, names, depth - 1)
    if r < 0.3:
        return "(- %s)" % a, M.neg(p)
    b, q = rterm(rng, names, depth - 1)
    if r < 0.5:
        return "(+ %s %s)" % (a, b), M.add(p, q)
    if r < 0.7:
        return "(- %s %s)" % (a, b), M.sub(p, q)
    if r < 0.9:
        return "(* %s %s)" % (a, b), M.mul(p, q)
    k = F(rng.choice([1, 2, 3, 5, 8, -2, -4])) / rng.choice([1, 1, 2, 10])
    return "(/ %s %s)" % (a, num_text(k, rng)), {m: v / k for m, v in p.items()}


def name_pool(rng, n):
    pool = ["x", "y", "z", "v_0", "Ctrl1", "a.b", "d-max", "obs:x", "x0", "x1", "e", "E1", "sequent1", "A9", "b_", "xx", "i", "pi"]
    return {"x%d" % i: v for i, v in enumerate(rng.sample(pool, n))}


def spaced(t, rng):
    r = rng.random()
    if r < 0.2:
        t = t.replace(" (", rng.choice(["\n  (", "\t(", "   ("]))
    elif r < 0.3:
        t = t.replace(")", " )")
    elif r < 0.4:
        t = t.replace(" (", "(")
    return t


def rename(p, inv):
    """rename variables; None when a variable is unknown"""
    r = {}
    for m, k in p.items():
        if any(v not in inv for v, _ in m):
            return None
        r[tuple(sorted((inv[v], e) for v, e in m))] = k
    return r


class C34(GRF):
    id = "C34"
    rule = ("formulas of the input language parsed by one parser after another, compared with the polynomial relation the text "
            "denotes; non-trivial: more than one formula and variable; distinct by the texts")

    def cases(self, rng, tier):
        out = []
        for i in range(1500 if tier == "quick" else 20000):
            n = rng.randint(1, 5)
            names = name_pool(rng, n)
            texts, want = [], []
            for _ in range(rng.randint(1, 4)):
                t, w = [], []
                for _ in range(rng.randint(0, 4)):
                    a, p = rterm(rng, names, rng.randint(0, 3))
                    b, q = rterm(rng, names, rng.randint(0, 2))
                    op = rng.choice(sorted(OPS))
                    t.append("(%s %s %s)" % (op, a, b))
                    w.append([down(p), op, down(q)])
                texts.append(spaced(rng.choice([" ", "\n", ""]).join(t), rng))
                want.append(w)
            out.append({"id": "t%d" % i, "op": "parse", "texts": texts, "want": want, "names": names})
        for i in range(len(out) // 10):                 # the shipped problems and variations
            s = corpus.tree(rng.choice(corpus.blocks("HidingProblems", 4000))[0])
            vs = sorted(corpus.names(["", *[x for side in s[2:] for r in side[1:] for x in r[1:]]]))
            names = {"x%d" % j: v for j, v in enumerate(vs)}
            inv = {v: k for k, v in names.items()}
            texts, want = [], []
            for side in s[2:]:
                rs = [corpus.vary(rng, r, {}) if i % 2 else r for r in side[1:]]
                w = [[corpus.poly(r[1]), r[0], corpus.poly(r[2])] for r in rs]
                if all(a and b is not None for a, _, b in w):
                    texts.append(spaced(" ".join(corpus.text(r) for r in rs), rng))
                    want.append([[down(rename(a, inv)), op, down(rename(b, inv))] for a, op, b in w])
            if texts:
                out.append({"id": "r%d" % i, "op": "parse", "texts": texts, "want": want, "names": names})
        return out

    def judge(self, case, ev):
        if "exc" in ev:
            return "viol", "raised %s" % ev["exc"], {}
        if self.gap(ev):
            return "excl", "Sage stand-in: " + ev["ret"]["gap"], {}
        r = ev["ret"]
        back = {v: k for k, v in case["names"].items()}
        if set(r["vars"]) - set(back):
            return "viol", "unknown names %s" % sorted(set(r["vars"]) - set(back)), {}
        if len(set(r["vars"].values())) != len(r["vars"]):
            return "viol", "two names share a variable: %s" % r["vars"], {}
        inv = {x: back[v] for v, x in r["vars"].items()}
        cnt = {"formulas": 0, "_nt": sum(map(len, case["want"])) > 1 and len(r["vars"]) > 1}
        for text, want, got in zip(case["texts"], case["want"], r["atoms"]):
            if len(want) != len(got):
                return "viol", "%d formulas in %r, %d parsed" % (len(want), text, len(got)), cnt
            for w, g in zip(want, got):
                p, op = diff(w)
                q = rename(up(g[0]), inv)
                cnt["formulas"] += 1
                if q != p or op != g[1]:
                    return "viol", "%s of %r is parsed as %s %s 0 (%s)" % (w, text, g[0], g[1], r["vars"]), cnt
        return "ok", "", cnt


class C33(GRF):
    id = "C33"
    rule = ("hiding problems read from a file, and the list written for the caller; non-trivial: something hidden and something "
            "kept, or a counterexample; distinct by the file")

    def cases(self, rng, tier):
        out = []
        for i in range(220 if tier == "quick" else 4000):
            text, every = "", []
            n = rng.choice([1, 1, 2, 2, 2, 3])
            names = name_pool(rng, n)
            for _ in range(2 if rng.random() < 0.12 else 1):
                s = rng.choice([1.0, 0.8])
                ant = [ratom(rng, n, s) for _ in range(rng.randint(0, 4))]
                suc = [ratom(rng, n, 0.85) for _ in range(rng.choice([0, 0, 1, 2]))]
                if rng.random() < 0.7:
                    goal, extra = implied(rng, n)
                    ant = ant[:3] + extra
                    rng.shuffle(ant)
                else:
                    goal = ratom(rng, n, 0.8)
                suc.insert(rng.randint(0, len(suc)), goal)
                name = rng.choice(["s1", "goal 12", "DWA.key_10", "a-b", "x"])
                f = lambda l: " ".join("(%s %s %s)" % (a[1], term_text(up(a[0]), names, rng), term_text(up(a[2]) if len(a) > 2 else {}, names, rng)) for a in l)
                every.append([ant, suc])
                text += spaced('(sequent "%s" (antecedent %s) (succedent %s))\n' % (name, f(ant), f(suc)), rng)
            out.append({"id": "f%d" % i, "op": "file", "text": text, "n": n, "names": names, "ant": ant, "suc": suc, "name": name, "every": every,
                        "seed": rng.randint(1, 10 ** 6), "k": rng.choice([1, 5]), "eps": rng.choice([0.01, 0.1])})
        return out

    def judge(self, case, ev):
        import random
        import re
        if "exc" in ev:
            return "viol", "raised %s" % ev["exc"], {}
        if self.gap(ev):
            return "excl", "Sage stand-in: " + ev["ret"]["gap"], {}
        r = ev["ret"]
        ant = [diff(a) for a in case["ant"]]
        suc = [diff(a) for a in case["suc"]]
        back = {v: k for k, v in case["names"].items()}
        if set(r["names"]) - set(back):
            return "viol", "unknown names %s" % r["names"], {}
        inv = {x: back[v] for v, x in r["names"].items()}
        if "cex" in r:
            pt = {inv[v]: val(q) for v, q in r["cex"].items() if v in inv}
            bad = []
            for a, g in case["every"]:
                for h, w in [(diff(h), True) for h in a] + [(diff(h), False) for h in g]:
                    if set(M.vars_of(h[0])) - set(pt):
                        bad.append("the counterexample %s lacks variables" % r["cex"])
                        break
                    if holds(h, pt) != w:
                        if close(h[0], pt):
                            return "excl", "counterexample within rounding", {}
                        bad.append("%s is no counterexample: %s is %s there" % (r["cex"], h, not w))
                        break
            if len(bad) == len(case["every"]):
                return "viol", bad[-1], {}
            return "ok", "", {"counterexamples": 1, "_nt": True}
        if "stop" in r:
            return "viol", "stopped with %s" % r["stop"][:200], {}
        m = re.match(r'^\("(.*)" \(([a-z_0-9 ]*)\) \(([a-z_0-9 ]*)\)\)$', r["text"], re.S)
        if not m or m.group(1) != case["name"]:
            return "viol", "the result file says %r" % r["text"], {}
        got = []
        for part, t, l in ((m.group(2), "hide_antecedent_", ant), (m.group(3), "hide_succedent_", suc)):
            ws = part.split()
            if any(not re.match("^" + t + "[0-9]+$", w) for w in ws):
                return "viol", "the result file says %r" % r["text"], {}
            ix = [int(w[len(t):]) for w in ws]
            if len(set(ix)) != len(ix) or any(i >= len(l) for i in ix):
                return "viol", "%s of %d formulas" % (ws, len(l)), {}
            got.append(ix)
        ha, hs = got
        if r["counts"] != [len(ha), len(hs)]:
            return "viol", "returned %s, but hides %d and %d" % (r["counts"], len(ha), len(hs)), {}
        ka = [h for i, h in enumerate(ant) if i not in ha]
        ks = [h for i, h in enumerate(suc) if i not in hs]
        if not ks:
            return "viol", "every succedent formula is hidden", {}
        cnt = {"hidden": len(ha) + len(hs), "kept": len(ka) + len(ks), "_nt": bool(ha + hs) and len(ka) > 0}
        vs = open_vectors([p for p, _ in ka + ks], case["n"], random.Random(5))
        for w in vs.values():
            if all(holds(h, w) for h in ka) and not any(holds(h, w) for h in ks):
                return "viol", "hides %s %s, but the rest is false around %s" % (ha, hs, {k: str(v) for k, v in w.items()}), cnt
        if "left" in r:
            key = lambda p, op: (repr(sorted(p.items())), op)
            want = sorted([key(ant[i][0], ant[i][1]) for i in ha] + [key(suc[i][0], NEG[suc[i][1]]) for i in hs])
            left = sorted(key(rename(up(p), inv) or {}, op) for p, op in r["left"])
            if want != left:
                return "viol", "hides %s %s, but %s were not used" % (ha, hs, r["left"]), cnt
        return "ok", "", cnt


class C35(GRF):
    id = "C35"
    rule = ("families of bad subsets given to the hypothesis selection after some promotions, compared with every subset; "
            "non-trivial: several bad subsets with different cheapest answers; distinct by hypotheses and families")

    def cases(self, rng, tier):
        out = []
        for i in range(2000 if tier == "quick" else 30000):
            n = rng.randint(1, 4)
            m = rng.randint(1, 7)
            hyps = [ratom(rng, n, 1.0, 3) for _ in range(m)]
            if rng.random() < 0.3:
                hyps = [[down(V(rng.randrange(n))), ">", []] for _ in range(m)]
            if n > 1 and rng.random() < 0.4:            # chains: each hypothesis ties two variables
                hyps = []
                for _ in range(m):
                    a = rng.randrange(n)
                    b = rng.choice([a, min(a + 1, n - 1), max(a - 1, 0)])
                    hyps.append([down(rng.choice([M.sub(V(a), V(b)) if a != b else V(a), M.mul(V(a), V(b)),
                                                  M.add(V(a), M.mul(V(b), V(b)))])), rng.choice("<>"), []])
            used = sorted(rng.sample(range(m), rng.randint(0, m - 1))) if rng.random() < 0.5 else []
            k = m - len(used)
            bads = []
            for _ in range(rng.randint(0, 6)):
                b = [j for j in range(k) if rng.random() < rng.choice([0.3, 0.6, 0.8])]
                if len(b) == k and rng.random() < 0.9:
                    b.pop(rng.randrange(k))
                bads.append(b)
            goal = ratom(rng, rng.choice([1, 1, rng.randint(1, n)]), 0.9)
            out.append({"id": "g%d" % i, "op": "good", "n": n, "hyps": hyps, "goal": goal, "used": used, "bads": bads,
                        "seed": rng.randint(1, 10 ** 6)})
        return out

    def judge(self, case, ev):
        if "exc" in ev:
            return "viol", "raised %s" % ev["exc"], {}
        if self.gap(ev):
            return "excl", "Sage stand-in: " + ev["ret"]["gap"], {}
        r = ev["ret"]
        hyps = [diff(a) for a in case["hyps"]]
        k = len(r["left"])
        if r["left"] != [i for i in range(len(hyps)) if i not in case["used"]]:
            return "viol", "after promoting %s, %s are left" % (case["used"], r["left"]), {}
        need = [set(range(k)) - set(b) for b in case["bads"]]
        if any(not s for s in need):
            if "stop" in r:
                return "ok", "", {"infeasible": 1}
            return "viol", "suggested %s although %s holds everywhere" % (r.get("good"), case["bads"]), {}
        if "stop" in r:
            return "viol", "stopped with %s for %s" % (r["stop"], case["bads"]), {}
        good = r["good"]
        if len(set(good)) != len(good) or any(not 0 <= i < k for i in good):
            return "viol", "suggested %s of %d hypotheses" % (good, k), {}
        miss = [b for b, s in zip(case["bads"], need) if not s & set(good)]
        if miss:
            return "viol", "suggested %s does not rule out %s" % (good, miss), {}
        w = [val(t) for t in r["weights"]]
        if len(w) != k or any(t <= 0 for t in w):
            return "viol", "weights %s of %d hypotheses" % (r["weights"], k), {}
        known = set(M.vars_of(diff(case["goal"])[0]))
        for i in case["used"]:
            known |= set(M.vars_of(hyps[i][0]))
        far = [not known & set(M.vars_of(hyps[i][0])) for i in r["left"]]
        best = None
        low = None
        for m in range(2 ** k):
            c = {i for i in range(k) if m >> i & 1}
            if all(s & c for s in need):
                v = sum(w[i] for i in c)
                f = sum(far[i] for i in c)
                best = v if best is None else min(best, v)
                low = f if low is None else min(low, f)
        cnt = {"families": len(need), "suggested": len(good), "_nt": len(need) > 1 and len(set(w)) > 1}
        if sum(w[i] for i in good) != best:
            return "viol", "suggested %s of weight %s, %s suffices" % (good, sum(w[i] for i in good), best), cnt
        if sum(far[i] for i in good) != low:
            return "viol", "suggested %s, although fewer hypotheses unrelated to the goal suffice" % good, cnt
        return "ok", "", cnt


class C36(GRF):
    id = "C36"
    rule = ("local search around given points for a sequence of problems and points in one session; non-trivial: points beyond "
            "the neighbourhood were found; distinct by problem and points")

    def cases(self, rng, tier):
        out = []
        for i in range(1000 if tier == "quick" else 12000):
            n = rng.choice([1, 2, 2, 3])
            hyps = [ratom(rng, n, 0.8) for _ in range(rng.randint(0, 4))]
            pts = [{"x%d" % j: str(rng.choice([F(rng.randint(-4, 4)), F(rng.randint(-40, 40), 8)])) for j in range(n)}
                   for _ in range(rng.randint(1, 3))]
            out.append({"id": "l%d" % i, "op": "local", "n": n, "hyps": hyps, "goal": ratom(rng, n, 0.9), "points": pts,
                        "seed": rng.randint(1, 10 ** 6)})
        return out

    def judge(self, case, ev):
        if "exc" in ev:
            return "viol", "raised %s" % ev["exc"], {}
        if self.gap(ev):
            return "excl", "Sage stand-in: " + ev["ret"]["gap"], {}
        goal = diff(case["goal"])
        names = {"x%d" % i for i in range(case["n"])}
        cnt = {"points": 0, "found": 0}
        for pt, row in zip(case["points"], ev["ret"]):
            d = {k: F(v) for k, v in pt.items()}
            qs = [{k: val(v) for k, v in p.items()} for p in row]
            cnt["points"] += len(qs)
            if any(set(q) != names for q in qs):
                return "viol", "a point around %s does not give every variable a value" % pt, cnt
            if d not in qs:
                return "viol", "the sample point %s itself is missing" % pt, cnt
            near = [q for q in qs if max(abs(q[v] - d[v]) for v in names) <= F(10001, 10 ** 6)]
            if len(near) < 3 or len({tuple(sorted(q.items())) for q in near}) < 3:
                return "viol", "only %d points near %s" % (len(near), pt), cnt
            for q in qs:
                if q not in near:
                    cnt["found"] += 1
                    if holds(goal, q) and not close(goal[0], q):
                        return "viol", "around %s: at the found point %s the goal is already true" % (
                            pt, {k: float(v) for k, v in q.items()}), cnt
        cnt["_nt"] = cnt["found"] > 0
        return "ok", "", cnt


class C37(GRF):
    id = "C37"
    rule = ("bad subsets recorded around given points, after promotions, compared with the truth of the hypotheses at every point "
            "that was looked at; non-trivial: several different subsets were seen; distinct by problem and points")

    def cases(self, rng, tier):
        out = []
        for i in range(300 if tier == "quick" else 4000):
            n = rng.choice([1, 2, 2, 3])
            m = rng.randint(0, 6) if rng.random() < 0.2 else rng.randint(2, 6)
            hyps = [ratom(rng, n, 1.0) for _ in range(m)]
            used = sorted(rng.sample(range(m), rng.randint(0, m))) if rng.random() < 0.4 else []
            pts = []
            for _ in range(rng.randint(1, 4)):
                pts.append({"x%d" % j: str(rng.choice([F(rng.randint(-4, 4)), F(rng.randint(-40, 40), 8)])) for j in range(n)})
            if n > 1 and rng.random() < 0.12:       # both sides of many lines through one point
                q = [F(rng.randint(-3, 3)) for _ in range(n)]
                pts[0] = {"x%d" % j: str(q[j]) for j in range(n)}
                hyps = []
                for _ in range(rng.randint(4, 7)):
                    p = c(0)
                    for j in range(n):
                        p = M.add(p, M.mul(c(rng.choice([-5, -3, -2, -1, 0, 1, 1, 2, 4, 7])), M.sub(M.var("x%d" % j), c(q[j]))))
                    hyps += [[down(p), o, down(c(0))] for o in "<>" if M.vars_of(p)]
                used = []
            out.append({"id": "b%d" % i, "op": "bads", "n": n, "hyps": hyps, "goal": ratom(rng, n, 0.9), "points": pts,
                        "used": used, "seed": rng.randint(1, 10 ** 6)})
        return out

    def judge(self, case, ev):
        if "exc" in ev:
            return "viol", "raised %s" % ev["exc"], {}
        if self.gap(ev):
            return "excl", "Sage stand-in: " + ev["ret"]["gap"], {}
        hyps = [diff(a) for a in case["hyps"]]
        goal = diff(case["goal"])
        left = [i for i in range(len(hyps)) if i not in case["used"]]
        r = ev["ret"]
        if r["left"] != left or [(up(p), op) for p, op in r["now"]] != [hyps[i] for i in left] or \
                (up(r["goal"][0]), r["goal"][1]) != goal:
            return "viol", "the problem was changed", {}
        cnt = {"points": 0, "subsets": 0}
        kinds = set()
        for pt, row in zip(case["points"], r["rows"]):
            d = {k: F(v) for k, v in pt.items()}
            false_there = all(holds(hyps[i], d) for i in case["used"]) and not holds(goal, d)
            if not false_there:
                if row.get("bads", 1) is not None:
                    return "viol", "the sequent is true at %s, but %s is recorded" % (pt, row.get("bads", "a counterexample")), cnt
                continue
            if "bads" in row and row["bads"] is None:
                return "viol", "the sequent is false at %s, but nothing is recorded" % pt, cnt
            may, must = [], []
            for q in [d] + [{k: val(v) for k, v in p.items()} for p in row["pts"]]:
                if set(q) != set(d):
                    return "viol", "a looked-at point does not give every variable a value", cnt
                cnt["points"] += 1
                t = [holds(h, q) for h in hyps]
                dim = [q is not d and close(h[0], q) for h in hyps]
                g = holds(goal, q)
                gd = q is not d and close(goal[0], q)
                if not all(t[i] or dim[i] for i in case["used"]) or (g and not gd):
                    continue                                # the sequent is true here
                sure = frozenset(j for j, i in enumerate(left) if t[i] and not dim[i])
                poss = frozenset(j for j, i in enumerate(left) if t[i] or dim[i])
                may.append((sure, poss))
                if not gd and all(t[i] and not dim[i] for i in case["used"]):
                    must.append(sure)
            k = len(left)
            kinds |= set(must)
            if "cex" in row:
                if not any(len(p) == k for _, p in may):
                    return "viol", "a counterexample is reported around %s, but no hidden hypotheses all hold" % pt, cnt
                cnt["counterexamples"] = cnt.get("counterexamples", 0) + 1
                continue
            if any(len(s) == k for s in must):
                return "viol", "a counterexample around %s was not reported" % pt, cnt
            bads = [frozenset(b) for b in row["bads"]]
            cnt["subsets"] += len(bads)
            if any(len(b) != len(o) for b, o in zip(bads, row["bads"])):
                return "viol", "a recorded subset repeats a hypothesis: %s" % row["bads"], cnt
            for s in set(must):
                if not any(s <= b for b in bads):
                    return "viol", "around %s hypotheses %s hold at a point where the sequent fails, recorded %s" % (
                        pt, sorted(s), row["bads"]), cnt
            for b in bads:
                if not any(s <= b <= p for s, p in may):
                    return "viol", "around %s %s is recorded, but these are the true hypotheses at no point" % (pt, sorted(b)), cnt
        cnt["_nt"] = len(kinds) > 1
        return "ok", "", cnt
