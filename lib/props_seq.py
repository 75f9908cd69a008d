"""Monitors for the problem front end: GRF text -> relations -> clauses -> verdict."""
import math
import re
from fractions import Fraction as F

import core
import corpus
import exact as E
import gen
import mpoly as M
from props_vts import num, poly, backend_fault, BACKEND

OPS = {"le": "<=", "lt": "<", "eq": "=", "ne": "!=", "ge": ">=", "gt": ">"}
FLIP = {"le": "ge", "ge": "le", "lt": "gt", "gt": "lt", "eq": "eq", "ne": "ne"}


def holds(rel, d):
    """relation applied to the sign (or value) d of lhs - rhs"""
    s = (d > 0) - (d < 0)
    return s in E.ALLOWED[rel]


# ------------------------------------------------------------- GRF text

VARS = ["x", "y", "z", "skoX", "t_403", "_a", "b", "A", "ox_6", "v1", "longVariable_Name9"]
ODD = ["sympy", "pyp", "doInt", "doReal", "doVariable", "int", "real", "nat", "number", "term", "fn",
       "t", "s", "l", "E", "I", "pi", "N", "S", "Q", "O", "C", "gamma", "beta", "proc_le", "zoo", "oo",
       "lit_lpar", "rln", "sequent1", "x1", "X", "e", "nan", "cmd", "proc_gt", "Symbol", "Integer", "var",
       "Float"]


class Term:
    """text, exact value at a point, variables, size of the intermediate values at a point
    (bounds what rounding of decimals can change)"""
    def __init__(self, text, f, vs, g=None):
        self.text, self.f, self.vs = text, f, vs
        self.g = g or (lambda p: abs(f(p)))


def ws(rng, need=True):
    k = rng.random()
    if k < 0.75:
        return " "
    if k < 0.9:
        return rng.choice(["  ", "\n", "\t", "\n    ", "\r\n", "\r"])
    return " " if need else ""


def number(rng):
    k = rng.random()
    n = rng.choice([0, 1, 2, 3, 7, 12, 100, 40320, 3628800, rng.randint(0, 99), 123456789012345678901])
    neg = rng.random() < 0.25
    sg = "-" if neg else ""
    if k < 0.45:
        t, v = "%d" % n, F(n)
    elif k < 0.7:
        t, v = "%d." % n, F(n)
    else:
        n = n % 1000
        fr = rng.choice(["0", "5", "25", "75", "125", "0625", "50", "500", "1", "3333333", "000001", "999",
                         "14159265358979", "1"])
        n = rng.choice([n, n, n, 10 ** 8 + n])
        t, v = "%d.%s" % (n, fr), F("%d.%s" % (n, fr))
    if neg:
        v = -v
    return Term(sg + t, lambda p, v=v: v, set())


def term(rng, depth, vs):
    k = rng.random()
    if depth == 0 or k < 0.15:
        if rng.random() < 0.5:
            v = rng.choice(vs)
            return Term(v, lambda p, v=v: p[v], {v})
        return number(rng)
    if k < 0.4:
        op = "+"
    elif k < 0.65:
        op = "*"
    elif k < 0.8:
        op = "-"
    elif k < 0.9:
        op = "/"
    else:
        a = term(rng, depth - 1, vs)
        t = "(%s-%s%s%s)" % (ws(rng, False), ws(rng), a.text, ws(rng, False))
        return Term(t, lambda p: -a.f(p), a.vs, a.g)
    a = term(rng, depth - 1, vs)
    if op == "/":
        b = number(rng)
        while b.f({}) == 0:
            b = number(rng)
        if rng.random() < 0.15:
            v = rng.choice(vs)
            b = Term(v, lambda p, v=v: p[v], {v})
    else:
        b = term(rng, depth - 1, vs)
    fs = {"+": lambda p: a.f(p) + b.f(p), "*": lambda p: a.f(p) * b.f(p),
          "-": lambda p: a.f(p) - b.f(p), "/": lambda p: a.f(p) / b.f(p)}
    gs = {"+": lambda p: a.g(p) + b.g(p), "*": lambda p: a.g(p) * b.g(p),
          "-": lambda p: a.g(p) + b.g(p), "/": lambda p: a.g(p) / abs(b.f(p))}
    t = "(%s%s%s%s%s%s%s)" % (ws(rng, False), op, ws(rng), a.text, ws(rng), b.text, ws(rng, False))
    return Term(t, fs[op], a.vs | b.vs, gs[op])


def relation(rng, depth, vs):
    a, b = term(rng, depth, vs), term(rng, rng.choice([0, 0, depth]), vs)
    if not (a.vs | b.vs) and rng.random() < 0.8:
        a = Term(vs[0], lambda p: p[vs[0]], {vs[0]})
    r = rng.choice(sorted(OPS))
    t = "(%s%s%s%s%s%s%s)" % (ws(rng, False), OPS[r], ws(rng), a.text, ws(rng), b.text, ws(rng, False))
    return {"t": t, "rel": r, "a": a, "b": b}


def sequent(rng, depth, vs):
    name = rng.choice(["p1", "a (b) c >= 0", "x_3 - ox_6 >= 0,\n v = 2", "", "problem 12", "(sequent)"])
    na, ns = rng.choice([(1, 1), (2, 1), (3, 1), (1, 2), (0, 1), (4, 2), (6, 1)])
    ante = [relation(rng, depth, vs) for _ in range(na)]
    succ = [relation(rng, depth, vs) for _ in range(ns)]
    nl = rng.choice([" ", "\n", "\n  "])
    t = "(sequent%s\"%s\"%s(antecedent %s)%s(succedent %s))" % (
        nl, name, nl, nl.join(r["t"] for r in ante), nl, nl.join(r["t"] for r in succ))
    return {"t": t, "name": name, "ante": ante, "succ": succ}


def shipped(rng, longest, varied=0.6):
    """one problem of the shipped files (or a variation of it) and the text that follows it"""
    k = rng.choice(["HidingProblems", "MetiTarski", "MetiTarski"])
    bs = corpus.blocks(k, longest)
    t, after = rng.choice(bs)
    s = corpus.tree(t)
    if rng.random() < varied:
        vs = sorted(corpus.names(["", *[x for side in s[2:] for r in side[1:] for x in r[1:]]]))
        swap = dict(zip(vs, rng.sample(vs, len(vs)))) if rng.random() < 0.5 else \
            {v: rng.choice(["x", "y", "skoS", "S", "N", v]) for v in vs}
        s = s[:2] + [[side[0]] + [corpus.vary(rng, r, swap) for r in side[1:]] for side in s[2:]]
        t = corpus.text(s)
    if len(after) > 3000:
        after = after[:1500]
        after = after[:after.rfind("(sequent")] if "(sequent" in after else after
    return s, t, "\n" if "(sequent" in after else after


def shipped_rel(r):
    vs = corpus.names(["", r[1], r[2]])
    f = lambda t: Term(corpus.text(t), lambda p: corpus.value(t, p)[0], corpus.names(["", t]), lambda p: corpus.value(t, p)[1])
    return {"t": corpus.text(r), "rel": {v: k for k, v in OPS.items()}[r[0]], "a": f(r[1]), "b": f(r[2])}


NOISE = ["% In Mathematica format:\nTiming[Resolve[x*(-1+x*-1)<=0]]\n", "\n-----[begin problem]-----\n",
         "(declare-fun x () Real) (assert (and (<= x 0.)))\n", "", "\n\n", "%comment (sequent \n",
         "(antecedent (< x 0))\n"]


def strip_sequent(s, pts):
    def rel(r):
        return {"rel": r["rel"], "a": [str(r["a"].f(p)) for p in pts], "b": [str(r["b"].f(p)) for p in pts],
                "size": [str(r["a"].g(p) + r["b"].g(p)) for p in pts],
                "vs": sorted(r["a"].vs | r["b"].vs), "ints": not re.search(r"\d\.\d", r["t"])}
    return {"name": s["name"], "ante": [rel(r) for r in s["ante"]], "succ": [rel(r) for r in s["succ"]]}


class C13(core.Spec):
    id = "C13"
    family = "seq"
    jvm = ["-XX:CICompilerCount=2"]
    rule = ("GRF text with several sequents between unrelated text: nested +,-,*,/ terms to depth 5, integers, "
            "dotted integers and decimals of either sign, arbitrary white space, all six relations, ordinary and "
            "hostile variable names, many texts per process; each parsed side is compared at exact rational "
            "points; non-trivial = a text with at least one relation mentioning a variable")
    assumptions = ["sympy 0.7.6.1 evaluation of the parsed expression at rational points"]

    def cases(self, rng, tier):
        n = 300 if tier == "quick" else 9000
        out = []
        for i in range(n):
            vs = rng.sample(VARS, rng.randint(1, 4))
            if rng.random() < 0.5:
                vs = vs[:2] + rng.sample(ODD, rng.randint(1, 3))
            pts = [{v: F(rng.randint(-60, 60) * 2 + 1, rng.choice([1, 3, 7, 11])) for v in vs} for _ in range(3)]
            text, seqs = "", []
            for _ in range(rng.choice([1, 1, 2, 3])):
                s = sequent(rng, rng.choice([1, 2, 2, 3, 5]), vs)
                try:
                    seqs.append(strip_sequent(s, pts))
                except ZeroDivisionError:
                    continue
                text += rng.choice(NOISE) + s["t"] + rng.choice(["\n", " ", NOISE[0], NOISE[1]])
            if not seqs:
                continue
            out.append({"id": i, "op": "parse", "text": text, "want": seqs,
                        "pts": [{k: str(v) for k, v in p.items()} for p in pts]})
        for i in range(n // 6):
            s, t, after = shipped(rng, 2500)
            rels = [[shipped_rel(r) for r in side[1:]] for side in s[2:]]
            vs = sorted(set().union(*[r["a"].vs | r["b"].vs for side in rels for r in side]))
            pts = [{v: F(rng.randint(-9, 9) * 2 + 1, rng.choice([1, 3, 7, 11])) for v in vs} for _ in range(2)]
            try:
                w = strip_sequent({"name": s[1][1:-1], "ante": rels[0], "succ": rels[1]}, pts)
            except ZeroDivisionError:
                continue
            out.append({"id": "r%d" % i, "op": "parse", "text": t + after, "want": [w],
                        "pts": [{k: str(v) for k, v in p.items()} for p in pts]})
        return out

    def rel_error(self, want, got):
        a, b = [F(v) for v in want["a"]], [F(v) for v in want["b"]]
        size = [F(v) for v in want["size"]]
        if "bool" in got:
            t = [holds(want["rel"], x - y) for x, y, s in zip(a, b, size) if abs(x - y) > s / 10 ** 11 or want["ints"]]
            if any(v != got["bool"] for v in t):
                return "decided %s, but is %s at the sample points" % (got["bool"], t)
            return None
        if got["cls"] not in OPS:
            return "relation of kind %s" % got["cls"]
        try:
            l, r = [F(v) for v in got["l"]], [F(v) for v in got["r"]]
        except (ValueError, ZeroDivisionError):
            return "value is not rational: %s %s" % (got["l"], got["r"])

        def close(us, vs):
            return all(abs(u - v) <= s / 10 ** 11 for u, v, s in zip(us, vs, size))
        if got["cls"] == want["rel"] and close(l, a) and close(r, b):
            return None
        if got["cls"] == FLIP[want["rel"]] and close(l, b) and close(r, a):
            return None
        # an equivalent relation on the difference
        for s in (1, -1):
            if got["cls"] == (want["rel"] if s == 1 else FLIP[want["rel"]]) and \
                    close([x - y for x, y in zip(l, r)], [s * (x - y) for x, y in zip(a, b)]):
                return None
        return "parsed as %s with %s | %s, meant %s with %s | %s" % (
            got["cls"], got["l"], got["r"], want["rel"], want["a"], want["b"])

    def judge(self, case, ev):
        cnt = {"_nt": any(r["vs"] for s in case["want"] for r in s["ante"] + s["succ"])}
        if "exc" in ev:
            return "viol", "raised " + ev["exc"], cnt
        got = ev["ret"]
        if len(got) != len(case["want"]):
            return "viol", "%d sequents read, %d written" % (len(got), len(case["want"])), cnt
        for w, g in zip(case["want"], got):
            if g["name"] != w["name"]:
                return "viol", "name %r read as %r" % (w["name"], g["name"]), cnt
            cnt["sequents"] = cnt.get("sequents", 0) + 1
            for side in ("ante", "succ"):
                if len(w[side]) != len(g[side]):
                    return "viol", "%s has %d relations, %d written" % (side, len(g[side]), len(w[side])), cnt
                for a, b in zip(w[side], g[side]):
                    cnt["relations"] = cnt.get("relations", 0) + 1
                    cnt["rel_" + a["rel"]] = cnt.get("rel_" + a["rel"], 0) + 1
                    e = self.rel_error(a, b)
                    if e:
                        return "viol", e, cnt
        return "ok", None, cnt


# ------------------------------------------------------------- univariate form

def rand_mast(rng, vs, depth):
    """(AST, mpoly) in several variables"""
    if depth == 0 or rng.random() < 0.2:
        if rng.random() < 0.7:
            v = rng.choice(vs)
            return ["v", v], M.var(v)
        q = F(rng.randint(-9, 9), rng.choice([1, 1, 2, 3]))
        return ["q", str(q)], M.const(q)
    k = rng.choice(["+", "+", "*", "*", "-", "^", "neg"])
    a, pa = rand_mast(rng, vs, depth - 1)
    if k == "^":
        n = rng.randint(1, 3)
        return ["^", a, n], M.power(pa, n)
    if k == "neg":
        return ["-", a], M.neg(pa)
    b, pb = rand_mast(rng, vs, depth - 1)
    return [k, a, b], {"+": M.add, "*": M.mul, "-": M.sub}[k](pa, pb)


class C14(core.Spec):
    id = "C14"
    family = "seq"
    rule = ("lists of relations (all six kinds) between unexpanded polynomial terms in up to four variables, "
            "including variable x itself, relations that become constant and already decided ones; "
            "non-trivial = a relation with at least two variables")
    assumptions = ["sympy 0.7.6.1 coefficient extraction"]

    def cases(self, rng, tier):
        n = 700 if tier == "quick" else 12000
        out = []
        for i in range(n):
            vs = rng.sample(["x", "y", "z", "skoX", "t_1", "a", "X", "E", "pi"], rng.randint(1, 4))
            rels, want = [], []
            for _ in range(rng.randint(1, 4)):
                if rng.random() < 0.04:
                    b = rng.random() < 0.5
                    rels.append({"bool": b})
                    want.append({"bool": b})
                    continue
                d = rng.choice([1, 2, 2, 3])
                (l, pl), (r, pr) = rand_mast(rng, vs, d), rand_mast(rng, vs, rng.choice([0, 1, d]))
                c = rng.choice(sorted(OPS))
                diff = M.sub(pl, pr)
                if not diff and rng.random() < 0.9:
                    continue
                p = M.collapse(diff)
                if len(p) > 12:
                    continue
                rels.append({"cls": c, "l": l, "r": r})
                want.append({"cls": c, "p": [str(x) for x in p], "nv": len(M.vars_of(diff))})
            if rels:
                out.append({"id": i, "op": "univ", "rels": rels, "want": want})
        return out

    def judge(self, case, ev):
        cnt = {"_nt": any(w.get("nv", 0) > 1 for w in case["want"])}
        if "exc" in ev:
            return "viol", "raised " + ev["exc"], cnt
        got = ev["ret"]["v"]
        if len(got) != len(case["want"]):
            return "viol", "%d relations in, %d out" % (len(case["want"]), len(got)), cnt
        for w, g in zip(case["want"], got):
            cnt["relations"] = cnt.get("relations", 0) + 1
            e = rel_equiv(w, g)
            if e:
                return "viol", e, cnt
        if ev["ret"]["mut"]:
            return "viol", "the input list was modified", cnt
        return "ok", None, cnt


def rel_equiv(w, g):
    """is the recorded univariate relation g the relation w.cls on polynomial w.p?"""
    if "bool" in w:
        return None if g.get("bool") is w["bool"] else "decided relation became %s" % g
    p = E.norm([F(c) for c in w["p"]])
    if "bool" in g:
        if len(p) > 1:
            # sympy may decide e.g. a relation with even powers; only constants are decided here
            return "relation on %s was decided as %s" % (w["p"], g["bool"])
        t = holds(w["cls"], p[0] if p else 0)
        return None if t == g["bool"] else "constant relation decided as %s" % g["bool"]
    l, r = poly(g["l"]), poly(g["r"])
    if l is None or r is None:
        return "not a univariate polynomial: %s %s" % (g["l"], g["r"])
    if r:
        return "right hand side is %s, not zero" % g["r"]
    if g["cls"] == w["cls"] and l == p:
        return None
    if g["cls"] in FLIP and g["cls"] == FLIP[w["cls"]] and l == E.neg(p):
        return None
    return "%s 0 on %s became %s 0 on %s" % (w["cls"], w["p"], g["cls"], g["l"])


# ------------------------------------------------------------- sequents

def uni_rel(rng, pool, maxdeg=4, ok=False):
    while True:
        p = gen.rand_poly(rng, maxdeg, pool)
        if len(p) < 2:
            continue
        if ok and not gen.backend_ok(p):
            continue
        return {"cls": rng.choice(sorted(OPS)), "p": p}


def enc(r):
    if "bool" in r:
        return r
    return {"cls": r["cls"], "l": ["p", [str(c) for c in r["p"]]], "r": ["q", "0"]}


_small = []


def small_shipped():
    """the relations of shipped problems whose reduction to one variable is small"""
    if not _small:
        for kind in ("HidingProblems", "MetiTarski"):
            for t, _ in corpus.blocks(kind, 3000):
                sides = []
                for side in corpus.tree(t)[2:]:
                    sides.append([])
                    for r in side[1:]:
                        p, q = corpus.poly(r[1]), corpus.poly(r[2])
                        u = E.norm(M.collapse(M.sub(p, q))) if p is not None and q is not None else []
                        m = 1
                        for a in u:
                            m = math.lcm(m, F(a).denominator)
                        u = [int(a * m) for a in u]
                        sides[-1].append({"cls": {v: k for k, v in OPS.items()}[r[0]], "p": u}
                                         if 2 <= len(u) <= 5 and max(map(abs, u)) < 10 ** 9 and gen.backend_ok(u) else None)
                sides = [[r for r in side if r] for side in sides]
                if sides[0] and sides not in _small:
                    _small.append(sides)
                if len(_small) > 400:
                    return _small
    return _small


def truth_cells(polys):
    return [sv for _, sv in E.sign_vectors(polys)]


class C12(core.Spec):
    id = "C12"
    family = "seq"
    rule = ("random sequents of univariate relations (all six kinds, repeated relations and polynomials, already "
            "decided ones) on both sides; every produced clause and its grouping by relation kind is compared "
            "with the refutation of the sequent on every cell of the real line; non-trivial = the refutation is "
            "true on some cells and false on others")
    assumptions = ["lib/exact.py"]

    def cases(self, rng, tier):
        n = 800 if tier == "quick" else 15000
        out = []
        for i in range(n):
            pool = [rng.choice(gen.POOL) for _ in range(3)]
            ante = [uni_rel(rng, pool) for _ in range(rng.choice([1, 1, 2, 3, 4]))]
            succ = [uni_rel(rng, pool) for _ in range(rng.choice([1, 1, 2, 3]))]
            if rng.random() < 0.15:
                ante.append(dict(rng.choice(ante + succ)))
            if rng.random() < 0.15:
                succ.append(dict(rng.choice(ante + succ)))
            if rng.random() < 0.1:
                q = dict(rng.choice(succ))
                q["cls"] = rng.choice(sorted(OPS))
                succ.append(q)
            if rng.random() < 0.2:              # what the antecedent says, in other words
                q = dict(rng.choice(ante))
                q["cls"] = rng.choice(sorted(OPS))
                if rng.random() < 0.5:
                    succ = []
                succ.append(q)
            for side in (ante, succ):
                if rng.random() < 0.1:
                    side.append({"bool": rng.random() < 0.6})
                rng.shuffle(side)
            k = rng.random()
            if k < 0.06:                        # nothing is left on one side
                ante = [{"bool": True}] * rng.randint(0, 2)
            elif k < 0.12:
                succ = [{"bool": True}] * rng.randint(0, 2)
            elif k < 0.14:
                ante, succ = [{"bool": True}], [{"bool": rng.random() < 0.5}]
            out.append({"id": i, "op": "pre", "ante": [enc(r) for r in ante], "succ": [enc(r) for r in succ],
                        "wa": ante, "ws": succ})
        for i in range(n // 8):
            rels = [uni_rel(rng, gen.POOL) for _ in range(rng.randint(1, 5))]
            out.append({"id": "n%d" % i, "op": "negate", "rels": [enc(r) for r in rels], "w": rels})
        return out

    def judge(self, case, ev):
        cnt = {}
        if "exc" in ev:
            return "viol", "raised " + ev["exc"], cnt
        if case["op"] == "negate":
            for w, g in zip(case["w"], ev["ret"]["neg"]):
                neg = {"le": "gt", "gt": "le", "lt": "ge", "ge": "lt", "eq": "ne", "ne": "eq"}[w["cls"]]
                e = rel_equiv({"cls": neg, "p": [str(c) for c in w["p"]]}, g)
                if e:
                    return "viol", "negation: " + e, cnt
            for w, g in zip(case["w"], ev["ret"]["less"]):
                e = rel_equiv({"cls": w["cls"], "p": [str(c) for c in w["p"]]}, g)
                if e or g["cls"] in ("ge", "gt"):
                    return "viol", "rewriting: %s" % (e or g), cnt
            if len(ev["ret"]["neg"]) != len(case["w"]) or len(ev["ret"]["less"]) != len(case["w"]):
                return "viol", "relations lost", cnt
            cnt["negated_relations"] = len(case["w"])
            return "ok", None, cnt
        polys, idx = [], {}

        def add(p):
            p = E.norm(p)
            k = tuple(p)
            if k not in idx:
                idx[k] = len(polys)
                polys.append(p)
            return idx[k]
        wa = [(r["bool"],) if "bool" in r else (add(r["p"]), r["cls"]) for r in case["wa"]]
        ws_ = [(r["bool"],) if "bool" in r else (add(r["p"]), r["cls"]) for r in case["ws"]]
        cl, mp = [], []
        for c in ev["ret"]["clauses"]:
            k = []
            for r in c:
                if "bool" in r:
                    k.append((r["bool"],))
                    continue
                l, rr = poly(r["l"]), poly(r["r"])
                if l is None or rr is None or r["cls"] not in OPS:
                    return "viol", "clause with %s" % r, cnt
                k.append((add(E.sub(l, rr)), r["cls"]))
            cl.append(k)
        for m in ev["ret"]["maps"]:
            k = []
            for rel in m:
                if rel not in ("le", "lt", "eq", "ne"):
                    return "viol", "relation map has kind %s" % rel, cnt
                for p in m[rel]:
                    q = poly(p)
                    if q is None:
                        return "viol", "relation map entry %s" % p, cnt
                    k.append((add(q), rel))
            mp.append(k)

        def conj(c, sv):
            return all(t[0] if len(t) == 1 else sv[t[0]] in E.ALLOWED[t[1]] for t in c)
        seen = set()
        for sv in truth_cells(polys):
            want = conj(wa, sv) and not conj(ws_, sv)
            seen.add(want)
            cnt["cells"] = cnt.get("cells", 0) + 1
            got = any(conj(c, sv) for c in cl)
            if got != want:
                return "viol", "on a cell with signs %s the clauses are %s, the refutation %s" % (sv, got, want), cnt
            for c, m in zip(cl, mp):
                if conj(c, sv) != conj(m, sv):
                    return "viol", "grouping by relation kind changed a clause: %s" % m, cnt
        cnt["clauses"] = len(cl)
        cnt["_nt"] = len(seen) == 2
        if ev["ret"]["mut"]:
            return "viol", "the input lists were modified", cnt
        return "ok", None, cnt


def sequent_valid(ante, succ):
    polys = [E.norm(r["p"]) for r in ante + succ if "p" in r]
    for sv in truth_cells(polys):
        it = iter(sv)

        def t(r):
            return r["bool"] if "bool" in r else next(it) in E.ALLOWED[r["cls"]]
        a = [t(r) for r in ante]
        s = [t(r) for r in succ]
        if all(a) and not all(s):
            return False
    return True


# ------------------------------------------------------------- corpus

class C15(core.Spec):
    id = "C15"
    family = "seq"
    min_ok = 40
    rule = ("directories of GRF files (several files, several sequents each, unrelated text, empty files, one "
            "nested directory) written as pickles and loaded back through both loaders, compared with the "
            "univariate form of what was written; non-trivial = at least two sequents")
    assumptions = ["sympy 0.7.6.1 pickling"]

    def cases(self, rng, tier):
        n = 110 if tier == "quick" else 2500
        out = []
        for i in range(n):
            files, want = {}, {}
            used = set()
            for _ in range(rng.choice([1, 2, 3, 4])):
                name = rng.choice(["Arthan1.trace", "a.smt", "b", "exp-problem-12.trace", "x.y.z", "CMOS.trace",
                                   "atan.trace", "p_%d" % rng.randint(0, 50)])
                if name in used:
                    continue
                used.add(name)
                path = name if rng.random() < 0.8 else "sub/" + name
                text, ws_ = "", []
                for _ in range(rng.choice([0, 1, 1, 2, 4])):
                    ante, succ = [], []
                    for side in (ante, succ):
                        for _ in range(rng.randint(1, 3)):
                            side.append(self.rel(rng))
                    text += rng.choice(NOISE) + "(sequent \"%s\" (antecedent %s) (succedent %s))\n" % (
                        rng.choice(["n", "n", "sequent 1", "a sequent (sequent", "x >= 0, antecedent", ""]),
                        " ".join(r["t"] for r in ante), " ".join(r["t"] for r in succ))
                    ws_.append([[r["w"] for r in ante], [r["w"] for r in succ]])
                text += rng.choice(NOISE)
                files[path] = text
                want[name + ".pkl"] = ws_
            if rng.random() < 0.25:
                s, t, after = shipped(rng, 1500)
                t = re.sub(r"(\d\.)0+\b", r"\1", t)      # decimals are read in floating point
                s = corpus.tree(t)
                w = []
                for side in s[2:]:
                    w.append([])
                    for r in side[1:]:
                        p, q = corpus.poly(r[1]), corpus.poly(r[2])
                        w[-1].append(p is not None and q is not None and {
                            "cls": {v: k for k, v in OPS.items()}[r[0]],
                            "p": [str(x) for x in M.collapse(M.sub(p, q))], "nv": len(M.vars_of(p)) + len(M.vars_of(q))})
                if all(r and r["nv"] for side in w for r in side):
                    files["real.trace"] = t + after
                    want["real.trace.pkl"] = [w]
            hid, wh = {}, {}
            if rng.random() < 0.4:
                ex = [[[uni_rel(rng, gen.POOL)], [uni_rel(rng, gen.POOL)]] for _ in range(rng.randint(1, 2))]
                name = rng.choice(["h_1.smt.pkl"] + sorted(want))
                hid[name] = [[[enc(r) for r in a], [enc(r) for r in s]] for a, s in ex]
                wh[name] = [[[{"cls": r["cls"], "p": [str(c) for c in r["p"]]} for r in a],
                                      [{"cls": r["cls"], "p": [str(c) for c in r["p"]]} for r in s]] for a, s in ex]
            if files:
                out.append({"id": i, "op": "corpus", "files": files, "want": want, "hiding": hid, "wh": wh})
        return out

    def rel(self, rng):
        vs = rng.sample(["x", "y", "skoX", "t_1", "S", "N"], rng.randint(1, 2))

        def tm(d):
            if d == 0 or rng.random() < 0.2:
                if rng.random() < 0.6:
                    v = rng.choice(vs)
                    return v, M.var(v)
                k = rng.randint(0, 9)
                return rng.choice(["%d", "%d."]) % k, M.const(k)
            k = rng.choice(["+", "*", "-", "neg", "/"])
            a, pa = tm(d - 1)
            if k == "neg":
                return "(- %s)" % a, M.neg(pa)
            if k == "/":
                c = rng.randint(1, 9)
                return "(/ %s %d.)" % (a, c), M.mul(pa, M.const(F(1, c)))
            b, pb = tm(d - 1)
            return "(%s %s %s)" % (k, a, b), {"+": M.add, "*": M.mul, "-": M.sub}[k](pa, pb)
        while True:
            (l, pl), (r, pr) = tm(rng.choice([1, 2, 3])), tm(rng.choice([0, 0, 1]))
            d = M.sub(pl, pr)
            if M.vars_of(pl) or M.vars_of(pr):
                break
        c = rng.choice(sorted(OPS))
        return {"t": "(%s %s %s)" % (OPS[c], l, r), "w": {"cls": c, "p": [str(x) for x in M.collapse(d)]}}

    def judge(self, case, ev):
        cnt = {"_nt": sum(len(v) for v in case["want"].values()) > 1}
        if "exc" in ev:
            return "viol", "raised " + ev["exc"], cnt
        r = ev["ret"]
        allfiles = []
        for dn, want in (("Metitarski", case["want"]), ("HidingProblems", case["wh"])):
            got = r["loaded"].get(dn)
            if got is None or sorted(got) != sorted(want):
                return "viol", "%s: files %s written, %s loaded" % (dn, sorted(want), got and sorted(got)), cnt
            for fn in want:
                cnt["files"] = cnt.get("files", 0) + 1
                e = self.file_error(want[fn], got[fn], cnt)
                if e:
                    return "viol", "%s/%s: %s" % (dn, fn, e), cnt
                allfiles.append(want[fn])
        if len(r["gen"]) != len(allfiles):
            return "viol", "incremental loader gave %d files of %d" % (len(r["gen"]), len(allfiles)), cnt
        rest = list(r["gen"])
        for w in allfiles:
            for g in rest:
                if self.file_error(w, g, {}) is None:
                    rest.remove(g)
                    break
            else:
                return "viol", "incremental loader lost a file", cnt
        return "ok", None, cnt

    def file_error(self, want, got, cnt):
        if len(want) != len(got):
            return "%d examples written, %d loaded" % (len(want), len(got))
        for w, g in zip(want, got):
            for i in (0, 1):
                if len(w[i]) != len(g[i]):
                    return "%d relations written, %d loaded" % (len(w[i]), len(g[i]))
                for a, b in zip(w[i], g[i]):
                    cnt["relations"] = cnt.get("relations", 0) + 1
                    e = rel_equiv(a, b)
                    if e:
                        return e
        return None


class C16(core.Spec):
    id = "C16"
    family = "seq"
    min_ok = 40
    rule = ("example directories with one to three files of univariate sequents, checked end to end with both "
            "procedures; every printed formula value is compared with the exact validity of its sequent; "
            "non-trivial = a directory with at least one valid and one invalid sequent")
    assumptions = [BACKEND]

    def cases(self, rng, tier):
        n = 170 if tier == "quick" else 4000
        out = []
        for i in range(n):
            dirs = {}
            nf = rng.choice([1, 1, 1, 2, 3])
            for j in range(nf):
                dn = rng.choice(["Metitarski", "HidingProblems"])
                exs = []
                for _ in range(rng.randint(1, 4)):
                    if exs and rng.random() < 0.3:      # the same polynomials, other relations
                        exs.append([[dict(r, cls=rng.choice(sorted(OPS))) if "cls" in r and rng.random() < 0.6 else r
                                     for r in side] for side in rng.choice(exs)])
                    else:
                        exs.append(self.example(rng))
                dirs.setdefault(dn, {})["f%d.smt.pkl" % j] = exs
            out.append({"id": i, "op": "checker", "vts": rng.random() < 0.6, "w": dirs,
                        "dirs": {d: {f: [[[enc(r) for r in a], [enc(r) for r in s]] for a, s in exs]
                                     for f, exs in fs.items()} for d, fs in dirs.items()}})
        return out

    def example(self, rng):
        while True:
            pool = rng.sample([F(0), F(1), F(-1), F(2), F(-2), F(3), F(1, 2), F(3, 2)], 3)
            ante = [uni_rel(rng, pool, 3, True) for _ in range(rng.choice([1, 2, 2, 3]))]
            succ = [uni_rel(rng, pool, 3, True) for _ in range(rng.choice([1, 1, 2]))]
            k = rng.random()
            if rng.random() < 0.12:
                a, b = rng.choice(small_shipped())
                ante = rng.sample(a, min(len(a), rng.randint(1, 3)))
                succ = rng.sample(b, min(len(b), rng.randint(1, 2))) or succ
                if rng.random() < 0.4:
                    ante = ante + [uni_rel(rng, pool, 2, True)]
                if k < 0.3:
                    k = 0.8
            if k < 0.35:              # make it valid more often
                q = dict(rng.choice(ante))
                q["cls"] = {"lt": rng.choice(["le", "ne"]), "gt": rng.choice(["ge", "ne"]), "eq": rng.choice(["le", "ge"]),
                            "le": "le", "ge": "ge", "ne": "ne"}[q["cls"]]
                succ = [q]
            elif k < 0.6:             # several consequences, at most one of them wrong
                succ = []
                while len(succ) < rng.choice([3, 3, 4]):
                    q = dict(rng.choice(ante))
                    q["cls"] = {"lt": rng.choice(["lt", "le", "ne"]), "gt": rng.choice(["gt", "ge", "ne"]),
                                "eq": rng.choice(["eq", "le", "ge"])}.get(q["cls"], q["cls"])
                    f = gen.rand_poly(rng, 1, pool, kinds=["lin"])
                    if rng.random() < 0.5:      # times a square
                        q["p"] = gen.prod([q["p"], f, f])
                        if q["cls"] in ("lt", "gt", "ne"):
                            q["cls"] = {"lt": "le", "gt": "ge", "ne": "ne"}[q["cls"]]
                            if q["cls"] == "ne":
                                continue
                    if len(E.norm(q["p"])) > 5:
                        continue
                    succ.append(q)
                if rng.random() < 0.6:
                    succ[rng.randrange(len(succ))] = uni_rel(rng, pool, 3, True)
            elif k < 0.7:
                succ = [{"cls": "ge", "p": gen.prod([gen.rand_poly(rng, 1, pool, kinds=["lin"])] * 2)}]
            k = rng.random()
            if k < 0.04:
                ante = [{"bool": True}]
            elif k < 0.08:
                succ = [{"bool": True}]
            elif k < 0.12:
                ante = ante + [{"bool": rng.random() < 0.7}]
            elif k < 0.16:
                succ = succ + [{"bool": rng.random() < 0.7}]
            if all("p" not in r or gen.backend_ok(r["p"]) for r in ante + succ):
                return [ante, succ]

    def judge(self, case, ev):
        cnt = {}
        if backend_fault(ev):
            return "excl", "z3 isolated the roots wrongly", cnt
        files = [exs for d in case["w"].values() for exs in d.values()]
        want = [["True" if sequent_valid(a, s) else "False" for a, s in exs] for exs in files]
        flat = [v for w in want for v in w]
        cnt["_nt"] = len(set(flat)) == 2
        if "exc" in ev:
            if "more than 5 polies" in ev["exc"]:
                return "excl", "declared limit of five sign polynomials", cnt
            return "viol", "raised " + ev["exc"], cnt
        for v in flat:
            cnt["sequents_" + ("valid" if v == "True" else "invalid")] = \
                cnt.get("sequents_" + ("valid" if v == "True" else "invalid"), 0) + 1
        got = ev["ret"]["vals"]
        rep = sorted(ev["ret"]["rep"])
        if rep != [[i, j, "False"] for i, f in enumerate(got) for j, v in enumerate(f) if v == "False"]:
            return "viol", "final report %s for printed values %s" % (rep, got), cnt
        if sorted(got) != sorted(want):
            return "viol", "printed values %s, sequents are %s" % (got, want), cnt
        cnt["vts" if case["vts"] else "ts"] = 1
        return "ok", None, cnt
