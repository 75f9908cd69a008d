"""The problem files shipped with the repository, read by an independent reader, and variations of them."""
import glob
import os
import re
from fractions import Fraction as F

import mpoly as M
import runner

BASE = os.path.join(runner.REPO, "GRF", "Examples")
_cache = {}


def blocks(kind, longest):
    """texts of problem files cut after their sequents; every text has exactly one sequent"""
    key = (kind, longest)
    if key not in _cache:
        out = []
        for f in sorted(glob.glob(os.path.join(BASE, kind, "*"))):
            if f.endswith("~") or os.path.isdir(f):
                continue
            with open(f, errors="replace") as h:
                t = h.read()
            at = [m.start() for m in re.finditer(r'\(sequent\s', t)] + [len(t)]
            for a, b in zip(at, at[1:]):
                e = end(t, a)
                if e and e - a <= longest:
                    out.append((t[a:e], t[e:b]))
        _cache[key] = out
    return _cache[key]


def end(t, a):
    d, q = 0, False
    for i in range(a, len(t)):
        c = t[i]
        if c == '"':
            q = not q
        elif not q and c == "(":
            d += 1
        elif not q and c == ")":
            d -= 1
            if not d:
                return i + 1
    return None


def tree(t):
    toks = re.findall(r'"[^"]*"|[()]|[^\s()"]+', t)
    stack = [[]]
    for k in toks:
        if k == "(":
            stack.append([])
        elif k == ")":
            x = stack.pop()
            stack[-1].append(x)
        else:
            stack[-1].append(k)
    return stack[0][0]


def text(t):
    return t if isinstance(t, str) else "(" + " ".join(text(x) for x in t) + ")"


def number(t):
    return re.fullmatch(r"-?\d+\.?\d*", t) is not None


def names(t):
    """variables of a term"""
    if isinstance(t, str):
        return set() if number(t) else {t}
    return set().union(*[names(x) for x in t[1:]])


def vary(rng, t, swap):
    """the same shape with other numbers and signs"""
    if isinstance(t, str):
        if number(t):
            r = rng.random()
            if r < 0.12:
                s = t.split(".")
                return str(int(s[0]) + rng.randint(1, 9)) + ("." + s[1] if len(s) > 1 else "")
            return t
        return swap.get(t, t)
    h = t[0]
    if rng.random() < 0.06 and h in ("+", "-", "*") and len(t) == 3:
        h = rng.choice("+-*")
    if rng.random() < 0.1 and h in ("<", "<=", "=", ">", ">=", "!="):
        h = rng.choice(["<", "<=", "=", ">", ">=", "!="])
    out = [h] + [vary(rng, x, swap) for x in t[1:]]
    if len(out) == 3 and h in "+-*" and rng.random() < 0.05:
        out = [h, out[2], out[1]]
    return out


def poly(t):
    """exact polynomial; None when it is not one"""
    if isinstance(t, str):
        return M.const(F(t)) if number(t) else M.var(t)
    a = [poly(x) for x in t[1:]]
    if any(x is None for x in a):
        return None
    if t[0] == "-" and len(a) == 1:
        return M.neg(a[0])
    if len(a) != 2:
        return None
    if t[0] == "/":
        if M.vars_of(a[1]) or not a[1]:
            return None
        return M.mul(a[0], M.const(1 / list(a[1].values())[0]))
    return {"+": M.add, "-": M.sub, "*": M.mul}[t[0]](a[0], a[1])


def value(t, p):
    """(value, size of the intermediate values) at a point"""
    if isinstance(t, str):
        v = F(t) if number(t) else p[t]
        return v, abs(v)
    a = [value(x, p) for x in t[1:]]
    if len(a) == 1:
        return -a[0][0], a[0][1]
    (x, s), (y, r) = a
    if t[0] == "+":
        return x + y, s + r
    if t[0] == "-":
        return x - y, s + r
    if t[0] == "*":
        return x * y, s * r
    return x / y, s / abs(y)
