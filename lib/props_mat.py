"""Monitors for the sign matrices and their on-disk cache."""
from fractions import Fraction as F

import core

M1 = [[1, 1, 1], [0, 1, -1], [0, 1, 1]]
I1 = [[F(1), F(0), F(-1)], [F(0), F(1, 2), F(1, 2)], [F(0), F(-1, 2), F(1, 2)]]


def kron(a, b):
    return [[x * y for x in ra for y in rb] for ra in a for rb in b]


_memo = {}


def expected(kind, n):
    """entry (r, c): the product over the polynomials of sign(c)^power(r); signs in the
    order 0, 1, -1, powers 0, 1, 2, first polynomial most significant"""
    if (kind, n) not in _memo:
        base = M1 if kind == "m" else I1
        m = base
        for _ in range(n - 1):
            m = kron(m, base)
        _memo[(kind, n)] = [F(x) for row in m for x in row]
    return _memo[(kind, n)]


def answer_error(req, ans):
    kind, n = req
    if ans[0] != kind or ans[1] != n:
        return "no answer for %s(%s): %s" % (kind, n, ans)
    if n < 1 or n > 5:
        if ans[2] != "exc":
            return "request for %d polynomials did not fail" % n
        return None
    if ans[2] == "exc":
        return "%s(%d) raised %s" % (kind, n, ans[3])
    rows, cols, es = ans[2]
    if rows != 3 ** n or cols != 3 ** n:
        return "%s(%d) has shape %dx%d" % (kind, n, rows, cols)
    try:
        got = [F(e) for e in es]
    except ValueError:
        return "%s(%d) has an entry that is not rational" % (kind, n)
    if got != expected(kind, n):
        bad = [i for i in range(len(got)) if got[i] != expected(kind, n)[i]][0]
        return "%s(%d) entry %d is %s" % (kind, n, bad, es[bad])
    return None


def life_error(reqs, answers):
    if answers and answers[0][0] == "import-exc":
        return "module failed to load: " + answers[0][1]
    if len(answers) != len(reqs):
        return "answers missing"
    for r, a in zip(reqs, answers):
        e = answer_error(r, a)
        if e:
            return e
    return None


def reqs(rng, k, top=3, odd=True):
    out = []
    for _ in range(k):
        n = rng.choice([1, 2, 2, 3] if top >= 3 else [1, 2, 2])
        if odd and rng.random() < 0.05:
            n = rng.choice([0, -1, 6])
        out.append([rng.choice("mi"), n])
    return out


class C07(core.Spec):
    id = "C07"
    family = "mat"
    jvm = ["-XX:CICompilerCount=2"]
    shards = 7
    min_ok = 60
    rule = ("random sequences of matrix/inverse requests in one process and across several process lives "
            "sharing a cache directory, in any order, with cache files removed in between; sizes 1..4, "
            "out-of-range sizes; non-trivial = at least two requests, one of size >= 2")
    assumptions = ["a process life is a fresh execution of the module's source in one interpreter"]

    def cases(self, rng, tier):
        n = 84 if tier == "quick" else 2500
        out = []
        for i in range(n):
            lives = []
            for j in range(rng.choice([1, 2, 2, 3])):
                lf = {"req": reqs(rng, rng.randint(1, 6))}
                if j and rng.random() < 0.3:
                    lf["drop"] = [rng.randrange(100) for _ in range(rng.randint(1, 3))]
                lives.append(lf)
            out.append({"id": i, "op": "history", "lives": lives})
        big = [[["m", 4]], [["i", 4]], [["i", 3], ["i", 4], ["m", 4]]]
        for j, b in enumerate(big):
            out.insert(0, {"id": "big%d" % j, "op": "history", "lives": [{"req": b}, {"req": b[::-1]}]})
        if tier == "thorough":
            out.append({"id": "five", "op": "history", "shard": 5,
                        "lives": [{"req": [["m", 5], ["i", 5]]}, {"req": [["i", 5], ["m", 5]]}]})
        return out

    def judge(self, case, ev):
        cnt = {"_nt": sum(len(l["req"]) for l in case["lives"]) > 1}
        if "exc" in ev:
            return "viol", "raised " + ev["exc"], cnt
        for lf, r in zip(case["lives"], ev["ret"]):
            cnt["process_lives"] = cnt.get("process_lives", 0) + 1
            e = life_error(lf["req"], r["ans"])
            if e:
                return "viol", e, cnt
            for k, n in lf["req"]:
                cnt["%s_%d" % ("matrix" if k == "m" else "inverse", n)] = \
                    cnt.get("%s_%d" % ("matrix" if k == "m" else "inverse", n), 0) + 1
        return "ok", None, cnt


class C08(core.Spec):
    id = "C08"
    family = "mat"
    jvm = ["-XX:CICompilerCount=2"]
    level = "fault_enumeration"
    min_ok = 100
    rule = ("a process is ended at its k-th file-system effect (open, half of a write, close, rename, mkdir, "
            "existence test), for every k of the import-time effects and a sample over the whole run, then "
            "fresh processes use the directory; and two to four processes share one cache directory under a "
            "random scheduler that switches at every file-system effect (some of them dying, some starting in the "
            "middle of another one's write); non-trivial = "
            "the process really died or the schedule really switched")
    assumptions = ["file-system effects are atomic per call and visible in program order (no power loss)",
                   "processes are simulated by fresh executions of the module in threads of one JVM that "
                   "switch only at file-system effects"]

    def cases(self, rng, tier):
        out = []
        top = 24 if tier == "quick" else 400
        for k in range(1, top + 1):
            out.append({"id": "e%d" % k, "op": "crash", "k": k, "req": [["i", 2]],
                        "after": [["i", 2], ["m", 2], ["m", 1]]})
        n = 90 if tier == "quick" else 3000
        for i in range(n):
            req = reqs(rng, rng.randint(1, 3), rng.choice([2, 2, 2, 2, 3]), odd=False)
            if not any(r[1] > 1 for r in req):
                req.append(["i", 2])
            c = {"id": "s%d" % i, "op": "crash", "k": rng.random(), "req": req,
                 "kind": rng.choice([None, "write", "write", "close", "rename", "open-write", "isfile",
                                     "open-read"]),
                 "after": req + reqs(rng, 2, 2, odd=False)}
            if rng.random() < 0.3:
                c["before"] = [{"req": reqs(rng, 2, 2, odd=False)}]
            out.append(c)
        # the last effects of a run, where a file is put in place
        for i in range(24 if tier == "quick" else 400):
            req = [[rng.choice("mi"), rng.choice([1, 2, 2, 2])]]
            out.append({"id": "l%d" % i, "op": "crash", "k": 1.0 - rng.random() * 0.02, "req": req,
                        "after": req + [["i", 2]]})
        m = 70 if tier == "quick" else 3000
        for i in range(m):
            np = rng.choice([2, 2, 3, 4])
            ps = [reqs(rng, rng.randint(1, 3), top=rng.choice([2, 2, 2, 2, 3]), odd=False) for _ in range(np)]
            c = {"id": "c%d" % i, "op": "interleave", "seed": rng.randrange(10 ** 9), "procs": ps,
                 "after": [["i", 2], ["m", 2]]}
            if rng.random() < 0.3:
                c["crash"] = {str(rng.randrange(np)): rng.randint(3, 400)}
            if rng.random() < 0.5:      # some start while another one is in the middle of something
                c["late"] = {str(j): [rng.choice(["open-write", "open-write", "write", "close", "rename", "makedirs"]),
                                      rng.choice([1, 1, 2, 3])] for j in range(1, np)}
            out.append(c)
        rng.shuffle(out)
        return out

    def judge(self, case, ev):
        cnt = {}
        if "exc" in ev:
            return "viol", "raised " + ev["exc"], cnt
        r = ev["ret"]
        if case["op"] == "crash":
            cnt["_nt"] = bool(r[0]["died"])
            if r[0]["died"]:
                cnt["crashes"] = 1
                cnt["crash_at_" + str(r[0]["at"])] = 1
            for lf in r[1:]:
                e = life_error(case["after"], lf["ans"])
                if e:
                    return "viol", "after a crash at effect %s (%s), files %s: %s" % (
                        r[0]["k"], r[0]["at"], r[0]["files"], e), cnt
            return "ok", None, cnt
        cnt["interleavings"] = 1
        cnt["switches"] = r["switches"]
        cnt["started_in_the_middle"] = r["late"]
        cnt["_nt"] = r["switches"] > 0
        for i, (q, a) in enumerate(zip(case["procs"], r["res"])):
            if a and a[-1] == ["crashed"]:
                cnt["crashes_while_sharing"] = cnt.get("crashes_while_sharing", 0) + 1
                if a[0][0] == "import-exc":
                    return "viol", a[0][1], cnt
                for x, y in zip(q, a[:-1]):
                    e = answer_error(x, y)
                    if e:
                        return "viol", "process %d: %s" % (i, e), cnt
                continue
            e = life_error(q, a)
            if e:
                return "viol", "process %d sharing the cache: %s" % (i, e), cnt
        e = life_error(case["after"], r["fresh"])
        if e:
            return "viol", "fresh process after sharing: %s" % e, cnt
        return "ok", None, cnt
