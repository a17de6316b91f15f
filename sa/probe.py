"""Search for a point where two terms differ, at every order of magnitude and
close to the boundaries of their comparisons.

Used where the normal form is not conclusive and the ordinary samples agree:
the terms may differ in a region that ordinary samples do not enter (beyond a
limit, near zero).  Values carry a bound on their rounding error, so that a
difference is not an artefact of cancellation or of the extreme point."""
import math
import random
from . import terms as tm

EPS = 2.3e-16
BUDGET = [60_000_000]      # evaluated nodes, over the whole run
PER_CALL = 2_500_000


class Point:
    """values of variables and factors of unknown functions"""

    def __init__(self, salt, mult=None):
        self.salt = salt
        self.mult = mult or {}      # leaf -> factor
        self.memo = {}
        self.order = None

    def var(self, n):
        if n not in self.memo:
            self.memo[n] = self._var(n)
        return self.memo[n]

    def _var(self, n):
        if n in tm.ORDER:
            return self.ranked(n)
        x = tm.sample_var(n, self.salt)
        info = tm.VARINFO.get(n, {})
        k = info.get("kind", "real")
        m = self.mult.get(n, 1.0)
        if m == 1.0 or "range" in info or k == "int":
            return x
        if k == "unit":
            m = abs(m)
            return x * m if m < 1 else 1 - (1 - x) / m
        return x * (m if k == "real" else abs(m))

    def ranked(self, n):
        if self.order is None:
            self.order = {}
            last = None
            for r in sorted(set(tm.ORDER.values())):
                if last is None:
                    last = tm.sample_var(f"rank:{r}", self.salt) * abs(self.mult.get(f"rank:{r}", 1.0))
                else:
                    last += (0.2 + abs(tm.sample_var(f"rank:{r}", self.salt))) * abs(self.mult.get(f"rank:{r}", 1.0))
                self.order[r] = last
        return self.order[tm.ORDER[n]]

    def factor(self, name):
        return abs(self.mult.get("app:" + name, 1.0))


def leaves(t):
    out = set()
    for u in tm.postorder([t]):
        if u.op == "var":
            n = u.args[0]
            out.add(f"rank:{tm.ORDER[n]}" if n in tm.ORDER else n)
        elif u.op == "app":
            out.add("app:" + u.args[0])
    return sorted(out)


def bounded(order, p):
    """node -> (value, error bound), (truth, 0) or None"""
    m = {}
    for u in order:
        try:
            m[u] = _value(u, m, p)
        except (OverflowError, ZeroDivisionError, ValueError):
            m[u] = None
        if m[u] is not None and not isinstance(m[u][0], bool) and not (math.isfinite(m[u][0]) and math.isfinite(m[u][1])):
            m[u] = None
    return m


def _value(u, m, p):
    op = u.op
    if op == "num":
        x = float(u.args[0])
        return x, 0.0 if x == u.args[0] else abs(x) * EPS
    if op == "var":
        return p.var(u.args[0]), 0.0
    if op == "bool":
        return bool(u.args[0]), 0.0
    if op in ("inf", "nan"):
        return None
    c = [m[x] for x in tm.children(u)]
    if op == "ite":
        return None if c[0] is None else c[1] if c[0][0] else c[2]
    if op == "and":
        return (False, 0.0) if any(x is not None and not x[0] for x in c) else None if None in c else (True, 0.0)
    if op == "or":
        return (True, 0.0) if any(x is not None and x[0] for x in c) else None if None in c else (False, 0.0)
    if None in c:
        return None
    if op == "not":
        return not c[0][0], 0.0
    if op == "isnan":
        return False, 0.0
    if op == "gt0":
        x, e = c[0]
        return None if abs(x) <= 2 * e else (x > 0, 0.0)
    if op == "eq0":
        x, e = c[0]
        if x == 0 and e == 0:
            return True, 0.0
        return None if abs(x) <= 2 * e else (False, 0.0)
    c = [(float(x), e) for x, e in c]
    if op == "detach":
        return c[0]
    if op == "add":
        v = math.fsum(x for x, _ in c)
        return v, sum(e for _, e in c) + EPS * abs(v)
    if op == "mul":
        v, up = 1.0, 1.0
        for x, e in c:
            v *= x
            up *= abs(x) + e
        return v, max(up - abs(v), 0.0) * (1 + 1e-9) + len(c) * 2 * EPS * abs(v) + up * 4e-16 * len(c)
    if op == "pow":
        (b, eb), (e, ee) = c
        if b == 0 and eb == 0:
            return (0.0, 0.0) if e > ee else None
        if abs(b) <= 2 * eb:
            return None
        if b < 0 and (ee or e != int(e)):
            return None
        v = b ** e
        return v, abs(v) * (1.5 * abs(e) * eb / abs(b) + 1.5 * abs(math.log(abs(b))) * ee + (3 + abs(e * math.log(abs(b)))) * EPS)
    if op == "app":
        f = p.factor(u.args[0])
        v = tm.app_val(u.args[0], u.args[1], [x for x, _ in c], p.salt)
        return f * v, f * (3.5 * sum(e for _, e in c) + EPS * (10 + 4 * sum(abs(x) for x, _ in c)))
    if op == "fn":
        f, (x, e) = u.args[0], c[0]
        if f == "abs":
            return abs(x), e
        if f == "sign":
            return (0.0, 0.0) if x == 0 and e == 0 else None if abs(x) <= 2 * e else (math.copysign(1.0, x), 0.0)
        if f == "exp":
            v = math.exp(x)
            return None if e > 0.5 else (v, v * (2 * e + (3 + abs(x)) * EPS))
        if f == "log":
            if x <= 2 * e:
                return None
            v = math.log(x)
            return v, 2 * e / x + EPS * (1 + abs(v))
        if f in ("tanh", "sigmoid", "sin", "cos"):
            v = {"tanh": math.tanh, "sin": math.sin, "cos": math.cos, "sigmoid": lambda z: 1 / (1 + math.exp(-z))}[f](x)
            return v, e + EPS * (2 + (abs(x) if f in ("sin", "cos") else 0))
        if f in ("cosh", "sinh"):
            v = getattr(math, f)(x)
            return None if e > 0.5 else (v, 2 * math.cosh(x) * e + (3 + abs(x)) * EPS * abs(v))
        if f == "floor":
            v = math.floor(x)
            return None if x - v <= 2 * e or v + 1 - x <= 2 * e else (float(v), 0.0)
        return None
    return None


SCALES = list(range(-9, 10))


def difference(a, b, seed=1, need=2, rel=1e-6):
    order = tm.postorder([a, b])
    cost = len(order)
    left = [min(PER_CALL, BUDGET[0])]
    hits = []
    start = left[0]

    def test(p):
        left[0] -= cost
        m = bounded(order, p)
        x, y = m[a], m[b]
        if x is None or y is None or isinstance(x[0], bool) or isinstance(y[0], bool):
            return
        d = abs(x[0] - y[0])
        if d > rel * (abs(x[0]) + abs(y[0])) and d > 4 * (x[1] + y[1]):
            pt = {n: p.var(n) for n in sorted(tm.free(a) | tm.free(b))[:12]}
            for u in order:
                if u.op == "app" and len(pt) < 16 and m[u] is not None:
                    pt[tm.show(u, 3)] = m[u][0]
            hits.append(dict(point=pt, left=x[0], right=y[0]))

    try:
        ls = sorted(set(leaves(a)) | set(leaves(b)))
        rng = random.Random(12345 + seed)
        for k in range(160):
            if left[0] < cost or len(hits) >= need:
                break
            mult = {l: 10.0 ** rng.choice(SCALES) for l in ls if rng.random() < 0.5}
            test(Point(f"{seed}:p{k}", mult))
        # close to the boundaries of the comparisons
        atoms = [u for u in order if u.op in ("gt0", "eq0") and u.args[0].op != "num"]
        for u in atoms[:24]:
            sub = tm.postorder([u.args[0]])
            for k in range(3):
                for l in leaves(u.args[0])[:8]:
                    if left[0] < cost + 60 * len(sub) or len(hits) >= need:
                        break
                    for mult in boundary(u.args[0], sub, l, f"{seed}:b{k}", left):
                        test(Point(f"{seed}:b{k}", mult))
    finally:
        BUDGET[0] -= start - left[0]
    return hits[0] if len(hits) >= need else None


def boundary(t, order, leaf, salt, left):
    """factors of one leaf on both sides of the places where t changes sign"""
    def at(f):
        left[0] -= len(order)
        v = bounded(order, Point(salt, {leaf: f}))[t]
        return None if v is None or isinstance(v[0], bool) else v[0]

    out = []
    for s in (1, -1):
        last = None
        for k in range(-10, 11):
            f = s * 10.0 ** k
            v = at(f)
            if v is not None and last is not None and (v > 0) != (last[1] > 0):
                lo, hi = last[0], f
                for _ in range(24):
                    mid = s * math.sqrt(lo * hi)
                    w = at(mid)
                    if w is None:
                        break
                    if (w > 0) == (last[1] > 0):
                        lo = mid
                    else:
                        hi = mid
                out += [{leaf: hi * (1 + q)} for q in (1e-6, -1e-6, 1e-3, -1e-3, 0.1, -0.1)]
            if v is not None:
                last = (f, v)
    return out
