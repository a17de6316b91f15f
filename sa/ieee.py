"""Finiteness of a value and of its gradient at a special point.

A term is walked in the order in which its operations are performed, over the
abstract values: an exact constant, a generic finite non-zero number, an
infinity, not-a-number.  Unlike the algebra of terms, 0 * inf, 0 / 0, 0 ** -1
and log 0 are not simplified away.  Backwards, an infinite local derivative
spoils a gradient even where a conditional drops the value, as in reverse
mode."""
from fractions import Fraction
from . import terms as tm
from .terms import Term

N, X = "N", "X"
INFS = ("+I", "-I", "?I")


class Split(Exception):
    def __init__(self, term):
        self.term = term


def bad(v):
    return v == X or v in INFS


class Walk:
    """forward values under an assignment of signs to undecided comparisons"""

    def __init__(self, zero, signs):
        self.zero = zero
        self.signs = signs      # list of (term, sign)
        self.val = {}
        self.sub = {}
        self.why = {}

    def sign_of(self, t):
        s = tm.decide_sign(t)
        if s is not None:
            return s
        for u, s in self.signs:
            if u is t:
                return s
            if tm.free(u) == tm.free(t):
                if tm.equal(u, t).status == tm.PROVED:
                    return s
                if tm.equal(u, tm.neg(t)).status == tm.PROVED:
                    return -s
        raise Split(t)

    def soft_sign(self, v, t):
        if isinstance(v, Fraction):
            return (v > 0) - (v < 0)
        return tm.decide_sign(t)

    def run(self, t):
        for u in tm.postorder([t]):
            if u in self.val:
                continue
            if u.op == "var" and u.args[0] in self.zero:
                x = self.zero[u.args[0]]
                self.val[u], self.sub[u] = (x.args[0], x) if x.op == "num" else (N, x)
                continue
            ch = tm.children(u)
            n = [self.sub[c] for c in ch]
            self.sub[u] = u if all(a is b for a, b in zip(n, ch)) else tm.rebuild(u, n)
            if u.op == "app" and u.args[0] in self.zero:
                self.sub[u] = self.zero[u.args[0]]
            v = self.value(u, [self.val[c] for c in ch])
            if v == N and self.sub[u].op == "num":
                v = self.sub[u].args[0]
            if bad(v) and not any(bad(self.val[c]) for c in ch):
                self.why[u] = u
            elif bad(v):
                for c in ch:
                    if bad(self.val[c]):
                        self.why[u] = self.why.get(c, c)
                        break
            self.val[u] = v
        return self.val[t]

    def value(self, u, c):
        op = u.op
        if op == "num":
            return u.args[0]
        if op == "var":
            return N
        if op == "inf":
            return "+I" if u.args[0] > 0 else "-I"
        if op == "nan":
            return X
        if op in ("bool",):
            return Fraction(1 if u.args[0] else 0)
        if op in ("gt0", "eq0"):
            a = c[0]
            if a == X:
                return Fraction(0)
            if isinstance(a, Fraction):
                return Fraction(1 if (a > 0 if op == "gt0" else a == 0) else 0)
            if op == "eq0":
                return Fraction(0)
            if a in INFS:
                if a == "?I":
                    raise tm.Undecided("an infinity of unknown sign is compared")
                return Fraction(1 if a == "+I" else 0)
            return Fraction(1 if self.sign_of(self.sub[u.args[0]]) > 0 else 0)
        if op == "isnan":
            return Fraction(1 if c[0] == X else 0)
        if op == "not":
            return Fraction(0 if c[0] else 1)
        if op == "and":
            return Fraction(1 if all(c) else 0)
        if op == "or":
            return Fraction(1 if any(c) else 0)
        if op == "ite":
            return c[1] if c[0] else c[2]
        if op == "detach":
            return c[0]
        if op == "add":
            if X in c:
                return X
            infs = {x for x in c if x in INFS}
            if infs:
                return infs.pop() if len(infs) == 1 and "?I" not in infs else X if len(infs) > 1 else "?I"
            if all(isinstance(x, Fraction) for x in c):
                return sum(c, Fraction(0))
            if len([x for x in c if x == N]) > 1 and tm.prove_zero(self.sub[u], 64)[0] is True:
                return Fraction(0)
            return N
        if op == "mul":
            if X in c:
                return X
            infs = [x for x in c if x in INFS]
            zero = any(isinstance(x, Fraction) and x == 0 for x in c)
            if infs:
                if zero:
                    return X
                s = 1
                for x, a in zip(c, u.args):
                    q = {"+I": 1, "-I": -1, "?I": None}[x] if x in INFS else self.soft_sign(x, self.sub[a])
                    if not q:
                        return "?I"
                    s *= q
                return "+I" if s > 0 else "-I"
            if zero:
                return Fraction(0)
            if all(isinstance(x, Fraction) for x in c):
                r = Fraction(1)
                for x in c:
                    r *= x
                return r
            return N
        if op == "pow":
            b, e = c
            if X in c:
                return Fraction(1) if e == 0 or b == 1 else X
            if e == 0 or b == 1:
                return Fraction(1)
            if e in INFS:
                return "?I"
            if isinstance(b, Fraction) and b == 0:
                s = self.soft_sign(e, self.sub[u.args[1]])
                return Fraction(0) if s == 1 else "+I"
            if b in INFS:
                s = self.soft_sign(e, self.sub[u.args[1]])
                return Fraction(0) if s == -1 else "+I" if b == "+I" and s == 1 else "?I"
            if isinstance(b, Fraction) and isinstance(e, Fraction) and e.denominator == 1 and abs(e) < 400:
                return b ** int(e)
            if not (isinstance(e, Fraction) and e.denominator == 1) and self.soft_sign(b, self.sub[u.args[0]]) == -1:
                return X
            return N
        if op == "app":
            return X if any(bad(x) for x in c) else N
        if op == "fn":
            return self.function(u.args[0], u, c)
        raise tm.Undecided(f"finiteness of {op}")

    def function(self, f, u, c):
        a = c[0]
        if a == X:
            return X
        if f == "abs":
            return "+I" if a in INFS else abs(a) if isinstance(a, Fraction) else N
        if f == "sign":
            return Fraction((a > 0) - (a < 0)) if isinstance(a, Fraction) else {"+I": Fraction(1), "-I": Fraction(-1)}.get(a, N)
        if f == "exp":
            return {"+I": "+I", "-I": Fraction(0), "?I": "?I"}.get(a, Fraction(1) if a == 0 else N)
        if f == "log":
            if a == 0:
                return "-I"
            if a in INFS or a == 1:
                return {"+I": "+I", "-I": X, "?I": "?I"}.get(a, Fraction(0))
            return X if self.soft_sign(a, self.sub[u.args[1]]) == -1 else N
        if f in ("tanh", "sigmoid"):
            if a == 0:
                return Fraction(0) if f == "tanh" else Fraction(1, 2)
            return N
        if f in ("sin", "sinh", "floor", "ceil", "round", "atan", "erf") and a == 0:
            return Fraction(0)
        if f == "floor" and isinstance(a, Fraction):
            return Fraction(a.numerator // a.denominator)
        if any(bad(x) for x in c):
            return X
        return N

    # ------------------------------------------------------------ backwards
    def gradient(self, t, active):
        """the operation whose local derivative is not finite on a path from a
        parameter to t, or None"""
        act = {}
        order = tm.postorder([t])
        for u in order:
            if u.op == "var":
                act[u] = u.args[0] in active
            elif u.op == "app":
                act[u] = True
            elif u.op in ("gt0", "eq0", "not", "and", "or", "isnan", "detach", "num", "bool", "inf", "nan"):
                act[u] = False
            else:
                act[u] = any(act[c] for c in tm.children(u))
        seen, todo = set(), [t]
        while todo:
            u = todo.pop()
            if u in seen or not act[u]:
                continue
            seen.add(u)
            ch = tm.children(u)
            if u.op == "ite":
                ch = ch[1:]
            for i, c in enumerate(ch):
                if not act[c]:
                    continue
                if self.infinite(u, i):
                    return u
                todo.append(c)
        return None

    def infinite(self, u, i):
        v = [self.val[c] for c in tm.children(u)]
        if u.op == "mul":
            return any(bad(x) for j, x in enumerate(v) if j != i)
        if u.op == "pow":
            b, e = v
            if i == 0 and isinstance(b, Fraction) and b == 0:
                if isinstance(e, Fraction):
                    return e < 1 and e != 0
                return self.soft_sign(N, tm.sub(self.sub[u.args[1]], tm.ONE)) not in (0, 1)
            return bad(b) or bad(e)
        if u.op == "fn":
            f = u.args[0]
            if f == "log":
                return v[0] == 0 or v[0] == X
            if f in ("sign", "floor", "ceil", "round"):
                return False
            return v[i] == X or (v[i] in INFS and f in ("abs", "sin", "cos"))
        return False


class Sampled(Walk):
    """the walk at one point of the domain"""

    def __init__(self, zero, salt):
        super().__init__(zero, [])
        self.salt = salt

    def num(self, t):
        x = tm.evaluate([t], self.salt)[0]
        if x != x:
            raise tm.Undecided("no value at the sample")
        return (x > 0) - (x < 0)

    def sign_of(self, t):
        return self.num(t)

    def soft_sign(self, v, t):
        return (v > 0) - (v < 0) if isinstance(v, Fraction) else self.num(t)


def regions(t, zero, limit=256):
    """walks over every assignment of signs to the comparisons that matter"""
    todo, n = [[]], 0
    while todo:
        signs = todo.pop()
        w = Walk(zero, signs)
        try:
            w.run(t)
        except Split as s:
            n += 1
            if n > limit:
                raise tm.Undecided("too many undecided comparisons")
            todo += [signs + [(s.term, 1)], signs + [(s.term, -1)]]
            continue
        yield w


def exponents(ts):
    """variables that are not of either sign, and unknown functions, that occur in exponents"""
    out = set()
    es = [u.args[1] for u in tm.postorder(ts) if u.op == "pow" and u.args[1].op != "num"]
    for u in tm.postorder(es):
        if u.op == "var" and tm.VARINFO.get(u.args[0], {}).get("kind") == "pos":
            out.add(u.args[0])
        if u.op == "app" and not u.args[1]:
            out.add(u.args[0])
    return out
