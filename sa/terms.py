"""
Value-numbering term domain.

Every abstract scalar the analysis tracks is a hash-consed term.  Two terms
are compared by (a) an exact normal form -- generalized polynomials whose
exponents may themselves be polynomials, computed separately in every sign
region of the |.|, sign(.), comparisons that occur -- and (b), only when the
normal form does not settle equality, by looking for a point of the region at
which the two *terms* differ.  A difference is only ever reported with such a
point, an equality only on the strength of (a) (``proved``); anything in
between is ``undecided``.
"""
from fractions import Fraction
import math
import random
import zlib


class Undecided(Exception):
    """The analysis cannot follow this construct."""


class NeedSplit(Exception):
    def __init__(self, key):
        super().__init__("split")
        self.key = key


class NFUndefined(Exception):
    """0 raised to a negative power and similar."""


class NFTooBig(Exception):
    pass


# ---------------------------------------------------------------- terms
class Term:
    __slots__ = ("op", "args", "uid", "_free")
    _count = 0

    def __init__(self, op, args):
        self.op = op
        self.args = args
        Term._count += 1
        self.uid = Term._count
        self._free = None

    def __repr__(self):
        return show(self)

    # operator sugar used by specifications
    def __add__(self, o):
        return add(self, T(o))

    __radd__ = __add__

    def __mul__(self, o):
        return mul(self, T(o))

    __rmul__ = __mul__

    def __sub__(self, o):
        return sub(self, T(o))

    def __rsub__(self, o):
        return sub(T(o), self)

    def __truediv__(self, o):
        return div(self, T(o))

    def __rtruediv__(self, o):
        return div(T(o), self)

    def __neg__(self):
        return neg(self)

    def __pow__(self, o):
        return power(self, T(o))

    def __rpow__(self, o):
        return power(T(o), self)


_table = {}


def _mk(op, *args):
    k = (op,) + args
    t = _table.get(k)
    if t is None:
        t = Term(op, args)
        _table[k] = t
    return t


VARINFO = {}


def var(name, kind="real", **info):
    """kind: real, pos, unit, int, uninit."""
    t = _mk("var", name)
    if name not in VARINFO:
        VARINFO[name] = dict(kind=kind, **info)
    return t


_fresh = [0]


def fresh(prefix, kind="real", **info):
    _fresh[0] += 1
    return var(f"{prefix}#{_fresh[0]}", kind, **info)


def frac(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    if isinstance(x, float):
        return Fraction(repr(x))
    raise TypeError(x)


def num(x):
    return _mk("num", frac(x))


TRUE = _mk("bool", True)
FALSE = _mk("bool", False)
ZERO = num(0)
ONE = num(1)
INF = _mk("inf", 1)
NINF = _mk("inf", -1)
NAN = _mk("nan")


def T(x):
    if isinstance(x, Term):
        return x
    if x is True:
        return TRUE
    if x is False:
        return FALSE
    if isinstance(x, (int, Fraction)):
        return num(x)
    if isinstance(x, float):
        if math.isinf(x):
            return INF if x > 0 else NINF
        if math.isnan(x):
            return NAN
        return num(x)
    raise Undecided(f"not a scalar: {x!r}")


def is_num(t):
    return t.op == "num"


def numval(t):
    return t.args[0] if t.op == "num" else None


def is_bool(t):
    return t.op in ("bool", "gt0", "eq0", "not", "and", "or", "isnan") or (
        t.op == "ite" and is_bool(t.args[1]) and is_bool(t.args[2])
    )


def as_num(t):
    """bool -> 0/1 in arithmetic"""
    if t.op == "bool":
        return ONE if t.args[0] else ZERO
    if is_bool(t):
        return ite(t, ONE, ZERO)
    return t


def _special(t):
    return t.op in ("inf", "nan")


def add(*ts):
    ts = [as_num(t) for t in ts]
    if any(t.op == "nan" for t in ts):
        return NAN
    infs = {t.args[0] for t in ts if t.op == "inf"}
    if infs:
        return NAN if len(infs) > 1 else (INF if 1 in infs else NINF)
    c = Fraction(0)
    out = []
    for t in ts:
        if t.op == "num":
            c += t.args[0]
        elif t.op == "add":
            for u in t.args:
                if u.op == "num":
                    c += u.args[0]
                else:
                    out.append(u)
        else:
            out.append(t)
    if c != 0:
        out.append(num(c))
    if not out:
        return ZERO
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.uid)
    return _mk("add", *out)


def mul(*ts):
    ts = [as_num(t) for t in ts]
    if any(t.op == "nan" for t in ts):
        return NAN
    c = Fraction(1)
    out = []
    for t in ts:
        if t.op == "num":
            c *= t.args[0]
        elif t.op == "mul":
            for u in t.args:
                if u.op == "num":
                    c *= u.args[0]
                else:
                    out.append(u)
        else:
            out.append(t)
    infs = [t for t in out if t.op == "inf"]
    if infs:
        if c == 0:
            return NAN
        if len(infs) == len(out):
            s = c
            for t in infs:
                s *= t.args[0]
            return INF if s > 0 else NINF
    if c == 0:
        return ZERO
    if not out:
        return num(c)
    if c != 1:
        out.append(num(c))
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.uid)
    return _mk("mul", *out)


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    a, b = as_num(a), as_num(b)
    if a is b and not _special(a):
        return ZERO
    return add(a, neg(b))


def power(b, e):
    b, e = as_num(b), as_num(e)
    if b.op == "nan" or e.op == "nan":
        return NAN
    if e.op == "num":
        k = e.args[0]
        if k == 1:
            return b
        if k == 0:
            return ONE
        if b.op == "num":
            v = b.args[0]
            if k.denominator == 1:
                if v == 0:
                    return ZERO if k > 0 else INF
                if abs(k) < 400:
                    return num(v ** int(k))
            if v == 1:
                return ONE
            if v == 0 and k > 0:
                return ZERO
            if k.denominator == 2 and v > 0 and abs(k) < 20:
                r = math.isqrt(v.numerator), math.isqrt(v.denominator)
                if r[0] * r[0] == v.numerator and r[1] * r[1] == v.denominator:
                    return num(Fraction(*r) ** k.numerator)
        if b.op == "inf" and k < 0:
            return ZERO
        if b.op == "inf" and b.args[0] > 0 and k > 0:
            return INF
        if b.op == "pow" and b.args[1].op == "num":
            k2 = b.args[1].args[0]
            if k.denominator == 1 and k2.denominator == 1:
                return power(b.args[0], num(k * k2))
    if b.op == "num" and b.args[0] == 1:
        return ONE
    return _mk("pow", b, e)


def div(a, b):
    b = as_num(b)
    a = as_num(a)
    if b.op == "num" and b.args[0] == 0:
        v = numval(a)
        if v is not None:
            return NAN if v == 0 else (INF if v > 0 else NINF)
    if a.op == "inf" and b.op == "inf":
        return NAN
    return mul(a, power(b, num(-1)))


def fn(name, *args):
    a = args[0]
    if isinstance(a, Term) and a.op in ("nan", "inf") and len(args) == 1:
        if a.op == "nan":
            return NAN
        if name == "abs":
            return INF
    v = numval(a) if len(args) == 1 else None
    if name in ("abs", "sign"):
        a = as_num(a)
        v = numval(a)
        if v is not None:
            if name == "abs":
                return num(abs(v))
            return num((v > 0) - (v < 0))
        if a.op == "fn" and a.args[0] == "abs" and name == "abs":
            return a
        if a.op == "mul":  # pull the numeric factor out
            cs = [u for u in a.args if u.op == "num"]
            if cs:
                rest = mul(*[u for u in a.args if u.op != "num"])
                c = cs[0].args[0]
                if name == "abs":
                    return mul(num(abs(c)), fn("abs", rest))
                return mul(num((c > 0) - (c < 0)), fn("sign", rest))
        return _mk("fn", name, a)
    if name == "log" and a.op == "fn" and a.args[0] == "exp":
        return a.args[1]
    if v is not None:
        if name == "exp" and v == 0:
            return ONE
        if name == "log" and v == 1:
            return ZERO
        if name == "tanh" and v == 0:
            return ZERO
        if name == "floor":
            return num(math.floor(v))
    if name == "sqrt":
        return power(a, num(Fraction(1, 2)))
    if name == "log10":
        return div(fn("log", a), fn("log", num(10)))
    if name == "log2":
        return div(fn("log", a), fn("log", num(2)))
    return _mk("fn", name, *[as_num(x) for x in args])


APPINFO = {}


def app(name, args, midx=()):
    """Uninterpreted function application; midx = sorted tuple of the argument
    positions it has been differentiated by."""
    return _mk("app", name, tuple(sorted(midx)), tuple(as_num(T(a)) for a in args))


# --- order context: comparisons between ranked variables fold to constants
ORDER = {}


def _rank_of(t):
    if t.op == "var":
        return ORDER.get(t.args[0])
    return None


def _rank_sign(u):
    """sign of u when u is a difference of two ranked variables"""
    if u.op == "var" or u.op == "mul":
        pass
    if u.op == "add" and len(u.args) == 2:
        pos = negv = None
        for a in u.args:
            r = _rank_of(a)
            if r is not None:
                pos = r
                continue
            if a.op == "mul" and len(a.args) == 2:
                n = [x for x in a.args if x.op == "num"]
                o = [x for x in a.args if x.op != "num"]
                if n and o and n[0].args[0] == -1:
                    r = _rank_of(o[0])
                    if r is not None:
                        negv = r
        if pos is not None and negv is not None:
            return (pos > negv) - (pos < negv)
    return None


# --- sign context: comparisons of provable sign fold to constants
FOLD_SIGNS = [False]
_SIGNS = {}


def decide_sign(u):
    """-1, 0 or 1 when the sign of u is the same over the whole domain, else None"""
    u = as_num(u)
    if u in _SIGNS:
        return _SIGNS[u]
    nf = NF(unit_facts(u))
    try:
        p = nf.reduce(nf.nf(u))
        r = nf.sign_of_poly(p) if p else 0
    except (NeedSplit, NFUndefined, NFTooBig, Undecided):
        r = None
    _SIGNS[u] = r
    return r


def gt0(u):
    u = as_num(u)
    v = numval(u)
    if v is not None:
        return TRUE if v > 0 else FALSE
    if u.op == "inf":
        return TRUE if u.args[0] > 0 else FALSE
    if u.op == "nan":
        return FALSE
    if ORDER:
        s = _rank_sign(u)
        if s is not None:
            return TRUE if s > 0 else FALSE
    if FOLD_SIGNS[0]:
        s = decide_sign(u)
        if s is not None:
            return TRUE if s > 0 else FALSE
    return _mk("gt0", u)


def eq0(u):
    u = as_num(u)
    v = numval(u)
    if v is not None:
        return TRUE if v == 0 else FALSE
    if u.op in ("inf", "nan"):
        return FALSE
    if ORDER:
        s = _rank_sign(u)
        if s is not None:
            return TRUE if s == 0 else FALSE
    if FOLD_SIGNS[0]:
        s = decide_sign(u)
        if s is not None:
            return TRUE if s == 0 else FALSE
    return _mk("eq0", u)


def gt(a, b):
    return gt0(sub(as_num(a), as_num(b)))


def lt(a, b):
    return gt(b, a)


def ge(a, b):
    if as_num(a).op == "nan" or as_num(b).op == "nan":
        return FALSE
    return lnot(gt(b, a))


def le(a, b):
    if as_num(a).op == "nan" or as_num(b).op == "nan":
        return FALSE
    return lnot(gt(a, b))


def eq(a, b):
    a, b = T(a), T(b)
    if a.op == "bool" and b.op == "bool":
        return TRUE if a is b else FALSE
    if is_bool(a) and is_bool(b):
        return lor(land(a, b), land(lnot(a), lnot(b)))
    return eq0(sub(a, b))


def truth(t):
    """numeric -> boolean"""
    if is_bool(t):
        return t
    return lnot(eq0(t))


def lnot(a):
    a = truth(a)
    if a.op == "bool":
        return FALSE if a.args[0] else TRUE
    if a.op == "not":
        return a.args[0]
    return _mk("not", a)


def land(a, b):
    a, b = truth(a), truth(b)
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    if lnot(a) is b:
        return FALSE
    if a.uid > b.uid:
        a, b = b, a
    return _mk("and", a, b)


def lor(a, b):
    a, b = truth(a), truth(b)
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE or a is b:
        return a
    if lnot(a) is b:
        return TRUE
    if a.uid > b.uid:
        a, b = b, a
    return _mk("or", a, b)


def isnan(a):
    if a.op == "nan":
        return TRUE
    if a.op in ("num", "bool", "inf"):
        return FALSE
    return _mk("isnan", a)


def ite(c, a, b):
    c = truth(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return lnot(c)
    return _mk("ite", c, a, b)


def tmax(a, b):
    a, b = as_num(a), as_num(b)
    if a.op == "nan" or b.op == "nan":
        return NAN
    return ite(gt(b, a), b, a)


def tmin(a, b):
    a, b = as_num(a), as_num(b)
    if a.op == "nan" or b.op == "nan":
        return NAN
    return ite(gt(a, b), b, a)


def tfmax(a, b):
    return b if as_num(a).op == "nan" else a if as_num(b).op == "nan" else tmax(a, b)


def tfmin(a, b):
    return b if as_num(a).op == "nan" else a if as_num(b).op == "nan" else tmin(a, b)


def detach(a):
    if a.op in ("num", "bool", "detach", "inf", "nan"):
        return a
    return _mk("detach", a)


# ---------------------------------------------------------------- traversal
def live(t, conditions=False):
    """names of the variables a derivative can flow to (not through detached
    values and, without conditions, not through comparisons)"""
    stop = ("detach",) if conditions else ("detach", "gt0", "eq0", "isnan", "not", "and", "or")
    out, seen, stack = set(), set(), [t]
    while stack:
        u = stack.pop()
        if u in seen or u.op in stop:
            continue
        seen.add(u)
        if u.op == "var":
            out.add(u.args[0])
            continue
        stack.extend(c for c in children(u) if c.op not in ("num", "bool"))
    return out


def children(t):
    op = t.op
    if op in ("add", "mul", "pow", "gt0", "eq0", "not", "and", "or", "ite", "detach", "isnan"):
        return t.args
    if op == "fn":
        return t.args[1:]
    if op == "app":
        return t.args[2]
    return ()


def free(t):
    """set of variable names"""
    if t._free is not None:
        return t._free
    stack = [t]
    while stack:
        u = stack[-1]
        if u._free is not None:
            stack.pop()
            continue
        if u.op == "var":
            u._free = frozenset([u.args[0]])
            stack.pop()
            continue
        ch = children(u)
        todo = [c for c in ch if c._free is None]
        if todo:
            stack.extend(todo)
            continue
        s = frozenset()
        for c in ch:
            s = s | c._free
        u._free = s
        stack.pop()
    return t._free


def postorder(ts):
    seen = set()
    out = []
    for t0 in ts:
        stack = [(t0, False)]
        while stack:
            t, done = stack.pop()
            if done:
                out.append(t)
                continue
            if t.uid in seen:
                continue
            seen.add(t.uid)
            stack.append((t, True))
            for c in children(t):
                if c.uid not in seen:
                    stack.append((c, False))
    return out


def rebuild(t, ch):
    op = t.op
    if op == "add":
        return add(*ch)
    if op == "mul":
        return mul(*ch)
    if op == "pow":
        return power(*ch)
    if op == "fn":
        return fn(t.args[0], *ch)
    if op == "app":
        return app(t.args[0], ch, t.args[1])
    if op == "gt0":
        return gt0(ch[0])
    if op == "eq0":
        return eq0(ch[0])
    if op == "not":
        return lnot(ch[0])
    if op == "and":
        return land(*ch)
    if op == "or":
        return lor(*ch)
    if op == "ite":
        return ite(*ch)
    if op == "detach":
        return detach(ch[0])
    if op == "isnan":
        return isnan(ch[0])
    return t


def subst(t, mapping):
    """mapping: var name -> Term (or a callable on terms returning a
    replacement or None)"""
    memo = {}
    call = callable(mapping)
    for u in postorder([t]):
        if call:
            r = mapping(u)
            if r is not None:
                memo[u] = r
                continue
        elif u.op == "var" and u.args[0] in mapping:
            memo[u] = mapping[u.args[0]]
            continue
        ch = children(u)
        if not ch:
            memo[u] = u
            continue
        n = [memo[c] for c in ch]
        memo[u] = u if all(a is b for a, b in zip(n, ch)) else rebuild(u, n)
    return memo[t]


def diff(t, name, through_detach=True):
    """exact derivative with respect to the variable called name"""
    memo = {}
    for u in postorder([t]):
        op = u.op
        if op == "var":
            memo[u] = ONE if u.args[0] == name else ZERO
        elif name not in free(u):
            memo[u] = ZERO
        elif op == "add":
            memo[u] = add(*[memo[c] for c in u.args])
        elif op == "mul":
            parts = []
            for i, c in enumerate(u.args):
                d = memo[c]
                if d is not ZERO:
                    parts.append(mul(d, *[x for j, x in enumerate(u.args) if j != i]))
            memo[u] = add(*parts) if parts else ZERO
        elif op == "pow":
            b, e = u.args
            db, de = memo[b], memo[e]
            r = ZERO
            if db is not ZERO:
                r = add(r, mul(e, power(b, sub(e, ONE)), db))
            if de is not ZERO:
                r = add(r, mul(u, fn("log", b), de))
            memo[u] = r
        elif op == "fn":
            f = u.args[0]
            a = u.args[1]
            da = memo[a]
            if f == "abs":
                memo[u] = mul(fn("sign", a), da)
            elif f in ("sign", "floor", "ceil", "round"):
                memo[u] = ZERO
            elif f == "exp":
                memo[u] = mul(u, da)
            elif f == "log":
                memo[u] = div(da, a)
            elif f == "tanh":
                memo[u] = mul(sub(ONE, mul(u, u)), da)
            elif f == "cosh":
                memo[u] = mul(fn("sinh", a), da)
            elif f == "sinh":
                memo[u] = mul(fn("cosh", a), da)
            elif f == "sigmoid":
                memo[u] = mul(u, sub(ONE, u), da)
            elif f == "sin":
                memo[u] = mul(fn("cos", a), da)
            elif f == "cos":
                memo[u] = mul(neg(fn("sin", a)), da)
            else:
                raise Undecided(f"derivative of {f}")
        elif op == "app":
            nm, mi, args = u.args
            parts = []
            for k, a in enumerate(args):
                d = memo[a]
                if d is not ZERO:
                    parts.append(mul(app(nm, args, mi + (k,)), d))
            memo[u] = add(*parts) if parts else ZERO
        elif op == "ite":
            memo[u] = ite(u.args[0], memo[u.args[1]], memo[u.args[2]])
        elif op == "detach":
            memo[u] = memo[u.args[0]] if through_detach else ZERO
        else:
            memo[u] = ZERO
    return memo[t]


# ---------------------------------------------------------------- printing
def show(t, depth=7):
    op = t.op
    if op == "num":
        v = t.args[0]
        if v.denominator == 1:
            return str(v.numerator)
        f = float(v)
        return repr(f)
    if op == "var":
        return t.args[0]
    if op == "bool":
        return str(t.args[0])
    if op in ("inf", "nan"):
        return op
    if depth <= 0:
        return "…"
    d = depth - 1
    if op == "add":
        return "(" + " + ".join(show(a, d) for a in t.args) + ")"
    if op == "mul":
        return "*".join(show(a, d) for a in t.args)
    if op == "pow":
        return f"{show(t.args[0], d)}^({show(t.args[1], d)})"
    if op == "fn":
        return f"{t.args[0]}({', '.join(show(a, d) for a in t.args[1:])})"
    if op == "app":
        nm, mi, args = t.args
        p = "" if not mi else "∂" + "".join(str(i) for i in mi)
        return f"{p}{nm}({', '.join(show(a, d) for a in args)})"
    if op == "ite":
        return f"[{show(t.args[0], d)} ? {show(t.args[1], d)} : {show(t.args[2], d)}]"
    if op == "gt0":
        return f"({show(t.args[0], d)} > 0)"
    if op == "eq0":
        return f"({show(t.args[0], d)} == 0)"
    if op == "not":
        return f"!{show(t.args[0], d)}"
    if op in ("and", "or"):
        s = " & " if op == "and" else " | "
        return "(" + s.join(show(a, d) for a in t.args) + ")"
    return f"{op}({', '.join(show(a, d) for a in children(t))})"


# ---------------------------------------------------------------- normal form
# Poly: dict  mono -> Fraction ; mono: frozenset of (gen, exp)
# gen : hashable tuple ; exp : Fraction or frozen poly (frozenset of items)
LIMIT = 60000

ONE_M = frozenset()


def p_const(c):
    c = Fraction(c)
    return {ONE_M: c} if c else {}


def p_isconst(p):
    if not p:
        return Fraction(0)
    if len(p) == 1 and ONE_M in p:
        return p[ONE_M]
    return None


def p_freeze(p):
    return frozenset(p.items())


def p_add(a, b, c=1):
    r = dict(a)
    for m, v in b.items():
        n = r.get(m, 0) + v * c
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


def p_scale(a, c):
    c = Fraction(c)
    if not c:
        return {}
    return {m: v * c for m, v in a.items()}


def e_poly(e):
    return p_const(e) if isinstance(e, Fraction) else dict(e)


def e_norm(p):
    c = p_isconst(p)
    return c if c is not None else p_freeze(p)


def e_add(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a + b
    return e_norm(p_add(e_poly(a), e_poly(b)))


def e_mul(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a * b
    return e_norm(p_mul(e_poly(a), e_poly(b)))


def m_mul(a, b):
    """returns (coef, mono)"""
    if not a:
        return Fraction(1), b
    if not b:
        return Fraction(1), a
    d = dict(a)
    coef = Fraction(1)
    for g, e in b:
        if g in d:
            n = e_add(d[g], e)
            if n == 0 and isinstance(n, Fraction):
                del d[g]
            else:
                d[g] = n
        else:
            d[g] = e
    # fold integer powers of prime generators
    for g in list(d):
        if g[0] == "n":
            coef *= _fold_prime(d, g)
    return coef, frozenset(d.items())


def _fold_prime(d, g):
    e = d[g]
    p = g[1]
    if isinstance(e, Fraction):
        k = math.floor(e)
        r = e - k
        if r == 0:
            del d[g]
        else:
            d[g] = r
        return Fraction(p) ** k
    ep = dict(e)
    c = ep.get(ONE_M, Fraction(0))
    k = math.floor(c)
    if k:
        c2 = c - k
        if c2:
            ep[ONE_M] = c2
        else:
            ep.pop(ONE_M, None)
        d[g] = e_norm(ep)
        return Fraction(p) ** k
    return Fraction(1)


def p_mul(a, b):
    if len(a) * len(b) > LIMIT:
        raise NFTooBig()
    if len(a) > len(b):
        a, b = b, a
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            k, m = m_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2 * k
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    if len(r) > LIMIT:
        raise NFTooBig()
    return r


def p_gen(g, e=Fraction(1)):
    return {frozenset([(g, e)]): Fraction(1)}


def primes(n):
    out = {}
    k = 2
    while k * k <= n and k < 100000:
        while n % k == 0:
            out[k] = out.get(k, 0) + 1
            n //= k
        k += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def num_pow(c, e):
    """c>0 rational to an exponent"""
    if isinstance(e, Fraction) and e.denominator == 1:
        return p_const(c ** int(e))
    d = {}
    coef = Fraction(1)
    fac = primes(c.numerator)
    for p, k in primes(c.denominator).items():
        fac[p] = fac.get(p, 0) - k
    for p, k in fac.items():
        if k == 0:
            continue
        d[("n", p)] = e_mul(Fraction(k), e)
    for g in list(d):
        coef *= _fold_prime(d, g)
    return {frozenset(d.items()): coef}


def _mkey(m):
    return repr(sorted((repr(g), repr(sorted(e, key=repr)) if not isinstance(e, Fraction) else str(e)) for g, e in m))


_mkcache = {}


def mkey(m):
    k = _mkcache.get(m)
    if k is None:
        k = _mkey(m)
        if len(_mkcache) < 500000:
            _mkcache[m] = k
    return k


def leading(p):
    return min(p, key=mkey)


def content(p):
    """positive rational content"""
    n = 0
    d = 1
    for v in p.values():
        n = math.gcd(n, abs(v.numerator))
        d = d * v.denominator // math.gcd(d, v.denominator)
    return Fraction(n, d)


def common_mono(p):
    """monomial factor common to every term (numeric exponents only)"""
    it = iter(p)
    first = dict(next(it))
    com = {g: e for g, e in first.items() if isinstance(e, Fraction)}
    for m in it:
        d = dict(m)
        for g in list(com):
            e = d.get(g)
            if e is None or not isinstance(e, Fraction):
                # absent: exponent 0
                if e is None:
                    if com[g] > 0:
                        del com[g]
                    # a negative power is not common to a term without it:
                    # min exponent is com[g] (<0): keep
                else:
                    del com[g]
            else:
                com[g] = min(com[g], e)
    # exponents that are missing somewhere but negative elsewhere
    for m in p:
        for g, e in m:
            if isinstance(e, Fraction) and e < 0 and g not in com and g not in first:
                if all(isinstance(dict(mm).get(g, Fraction(0)), Fraction) for mm in p):
                    com[g] = min(dict(mm).get(g, Fraction(0)) for mm in p)
    return {g: e for g, e in com.items() if e != 0}


def cancel_sums(p):
    """divides exactly by sums that occur to the power minus one"""
    for g in sorted({g for m in p for g, e in m if g[0] == "sum" and e == -1}, key=repr):
        base = dict(g[1])
        leads = [(m, c) for m, c in base.items() if len(m) == 1]
        if not leads:
            continue
        lm, lc = sorted(leads, key=lambda x: repr(x[0]))[0]
        (lg, le), = lm
        rest, r = {}, {}
        for m, c in p.items():
            if (g, Fraction(-1)) in m:
                r[frozenset(x for x in m if x[0] != g)] = c
            else:
                rest[m] = c
        quo = {}
        for _ in range(50):
            hit = next((m for m in sorted(r, key=repr) if dict(m).get(lg) == le), None)
            if hit is None:
                break
            t = {frozenset(x for x in hit if x[0] != lg): r[hit] / lc}
            quo = p_add(quo, t)
            r = p_add(r, p_mul(t, base), -1)
        if not r:
            p = p_add(rest, quo)
    return p


class NF:
    """normal forms in one sign region (env: canonical poly -> sign)"""

    def __init__(self, env=None):
        self.env = env or {}
        self.memo = {}

    # -- signs
    def sign_of_poly(self, p):
        c = p_isconst(p)
        if c is not None:
            return (c > 0) - (c < 0)
        s = self._structural_sign(p)
        if s is not None:
            return s
        cm = common_mono(p)
        sg = 1
        q = p
        if cm:
            # divide by the common monomial, tracking its sign
            okall = True
            for g, e in cm.items():
                gs = self._gen_sign(g, e)
                if gs is None:
                    okall = False
                    break
            if okall:
                for g, e in cm.items():
                    sg *= self._gen_sign(g, e)
                _, inv = m_mul(frozenset(), frozenset((g, -e) for g, e in cm.items()))
                q = p_mul(p, {inv: Fraction(1)})
                c = p_isconst(q)
                if c is not None:
                    return sg * ((c > 0) - (c < 0))
                s = self._structural_sign(q)
                if s is not None:
                    return sg * s
        # clear denominators made of sums with known sign is not attempted
        k = content(q)
        q = p_scale(q, 1 / k)
        lead = leading(q)
        if q[lead] < 0:
            q = p_scale(q, -1)
            sg = -sg
        key = p_freeze(q)
        if key in self.env:
            return sg * self.env[key]
        if len(q) == 1:
            # single monomial: split on the generators of unknown sign
            (m, cc), = q.items()
            s = 1 if cc > 0 else -1
            for g, e in m:
                gs = self._gen_sign(g, e)
                if gs is None:
                    raise NeedSplit(p_freeze(p_gen(g)))
                s *= gs
            return sg * s
        raise NeedSplit(key)

    def _gen_sign(self, g, e):
        """sign of g**e (nonzero), or None"""
        if self._gen_pos(g):
            return 1
        if isinstance(e, Fraction) and e.denominator == 1:
            if e % 2 == 0:
                return 1
            k = p_freeze(p_gen(g))
            if k in self.env:
                return self.env[k]
            if g[0] == "sum":
                try:
                    return self.sign_of_poly(dict(g[1]))
                except NeedSplit:
                    raise
            return None
        return 1  # a real power of a base is nonnegative where defined

    def _gen_pos(self, g):
        k = g[0]
        if k in ("E", "n"):
            return True
        if k == "v":
            return VARINFO.get(g[1], {}).get("kind") in ("pos", "unit")
        if k == "app":
            return bool(APPINFO.get(g[1], {}).get("pos")) and not g[2]
        if k == "sum":
            return self._structural_sign(dict(g[1])) == 1
        return False

    def _structural_sign(self, p):
        sg = None
        for m, c in p.items():
            s = 1 if c > 0 else -1
            for g, e in m:
                if self._gen_pos(g):
                    continue
                if isinstance(e, Fraction) and e.denominator == 1:
                    if e % 2 == 0:
                        continue
                    k = p_freeze(p_gen(g))
                    if k in self.env and self.env[k]:
                        s *= self.env[k]
                        continue
                    return None
                # non-integer power: nonnegative
            if sg is None:
                sg = s
            elif sg != s:
                return None
        return sg

    # -- powers
    def p_pow(self, p, e):
        """p**e; e Fraction or frozen poly"""
        if isinstance(e, Fraction):
            if e == 0:
                return p_const(1)
            if e == 1:
                return p
        if not p:
            if isinstance(e, Fraction):
                if e < 0:
                    raise NFUndefined()
                return {}
            return {}
        if len(p) == 1:
            (m, c), = p.items()
            integer = isinstance(e, Fraction) and e.denominator == 1
            if c > 0 or integer:
                if not m and not isinstance(e, Fraction) and len(primes(c.numerator)) + len(primes(c.denominator)) > 1:
                    # a number to a symbolic power: logarithms to that base cancel
                    q = cancel_sums(p_mul(e_poly(e), self.log_poly(p)))
                    if not any(g[0] == "sum" for mm in q for g, _ in mm):
                        return self.exp_poly(q)
                if integer:
                    r = p_const(c ** int(e))
                else:
                    r = num_pow(c, e)
                for g, k in m:
                    r = p_mul(r, self.gen_pow(g, e_mul(k, e)))
                return r
            return p_gen(("sum", p_freeze(p)), e)
        if isinstance(e, Fraction) and e.denominator == 1 and 0 < e <= 3 and len(p) ** int(e) <= 400:
            r = p
            for _ in range(int(e) - 1):
                r = p_mul(r, p)
            return r
        pre = p_const(1)
        q = p
        cm = common_mono(q)
        if cm:
            inv = frozenset((g, -k) for g, k in cm.items())
            q = p_mul(q, {inv: Fraction(1)})
            for g, k in cm.items():
                pre = p_mul(pre, self.gen_pow(g, e_mul(k, e)))
        c = content(q)
        if c != 1:
            q = p_scale(q, 1 / c)
            pre = p_mul(pre, num_pow(c, e))
        if len(q) == 1:
            return p_mul(pre, self.p_pow(q, e))
        if isinstance(e, Fraction) and e.denominator == 1:
            if q[leading(q)] < 0:
                q = p_scale(q, -1)
                if e % 2:
                    pre = p_scale(pre, -1)
        return p_mul(pre, p_gen(("sum", p_freeze(q)), e))

    def gen_pow(self, g, e):
        if isinstance(e, Fraction) and e == 0:
            return p_const(1)
        if g[0] == "E":
            return self.exp_poly(e_poly(e))
        if g[0] == "n":
            d = {g: e}
            c = _fold_prime(d, g)
            return {frozenset(d.items()): c}
        return p_gen(g, e)

    def exp_poly(self, p):
        """e**p with e**(c*m*log a) -> a**(c*m)"""
        rest = {}
        r = p_const(1)
        for m, c in p.items():
            logs = [(g, k) for g, k in m if g[0] == "log" and k == 1]
            if len(logs) == 1:
                g = logs[0][0]
                m2 = frozenset(x for x in m if x[0] != g)
                r = p_mul(r, self.p_pow(dict(g[1]), e_norm({m2: c})))
            else:
                rest[m] = c
        if rest:
            r = p_mul(r, p_gen(("E",), e_norm(rest)))
        return r

    def log_poly(self, p):
        if not p:
            raise NFUndefined()
        if len(p) > 1:
            q = p
            out = {}
            cm = common_mono(q)
            if cm:
                inv = frozenset((g, -k) for g, k in cm.items())
                q = p_mul(q, {inv: Fraction(1)})
                out = p_add(out, self.log_poly({frozenset(cm.items()): Fraction(1)}))
            c = content(q)
            if c != 1:
                q = p_scale(q, 1 / c)
                out = p_add(out, self.log_poly(p_const(c)))
            if len(q) > 1:
                return p_add(out, p_gen(("log", p_freeze(q))))
            return p_add(out, self.log_poly(q))
        (m, c), = p.items()
        if c < 0:
            return p_gen(("log", p_freeze(p)))
        out = {}
        for pr, k in primes(c.numerator).items():
            out = p_add(out, p_scale(p_gen(("log", p_freeze(p_const(pr)))), k))
        for pr, k in primes(c.denominator).items():
            out = p_add(out, p_scale(p_gen(("log", p_freeze(p_const(pr)))), -k))
        for g, k in m:
            if g[0] == "E":
                out = p_add(out, e_poly(k))
            elif g[0] == "n":
                out = p_add(out, p_mul(e_poly(k), p_gen(("log", p_freeze(p_const(g[1]))))))
            elif g[0] == "sum":
                out = p_add(out, p_mul(e_poly(k), self.log_poly(dict(g[1])) if False else p_gen(("log", g[1]))))
            else:
                out = p_add(out, p_mul(e_poly(k), p_gen(("log", p_freeze(p_gen(g))))))
        return out

    # -- main
    def boolean(self, t):
        op = t.op
        if op == "bool":
            return t.args[0]
        if op == "gt0":
            return self.sign_of_poly(self.nf(t.args[0])) > 0
        if op == "eq0":
            p = self.reduce(self.nf(t.args[0]))
            c = p_isconst(p)
            if c is not None:
                return c == 0
            k = content(p)
            q = p_scale(p, 1 / k)
            if q[leading(q)] < 0:
                q = p_scale(q, -1)
            key = p_freeze(q)
            if key in self.env:
                return self.env[key] == 0
            return False  # generic position
        if op == "not":
            return not self.boolean(t.args[0])
        if op == "and":
            return self.boolean(t.args[0]) and self.boolean(t.args[1])
        if op == "or":
            return self.boolean(t.args[0]) or self.boolean(t.args[1])
        if op == "isnan":
            return False
        if op == "ite":
            return self.boolean(t.args[1] if self.boolean(t.args[0]) else t.args[2])
        if op == "var":
            key = p_freeze(p_gen(("v", t.args[0])))
            if key in self.env:
                return self.env[key] > 0
            raise NeedSplit(key)
        return p_isconst(self.nf(t)) != 0

    def nf(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        r = self._nf(t)
        self.memo[t] = r
        return r

    def _nf(self, t):
        op = t.op
        if op == "num":
            return p_const(t.args[0])
        if op == "var":
            return p_gen(("v", t.args[0]))
        if op == "add":
            r = {}
            for a in t.args:
                r = p_add(r, self.nf(a))
            return r
        if op == "mul":
            r = p_const(1)
            for a in t.args:
                r = p_mul(r, self.nf(a))
                if not r:
                    return r
            return r
        if op == "pow":
            return self.p_pow(self.reduce_light(self.nf(t.args[0])), e_norm(self.nf(t.args[1])))
        if op == "detach":
            return self.nf(t.args[0])
        if op == "ite":
            return self.nf(t.args[1] if self.boolean(t.args[0]) else t.args[2])
        if op in ("bool", "gt0", "eq0", "not", "and", "or", "isnan"):
            return p_const(1 if self.boolean(t) else 0)
        if op == "fn":
            f = t.args[0]
            a = self.nf(t.args[1])
            if f == "abs":
                a = self.reduce_light(a)
                s = self.sign_of_poly(a)
                return p_scale(a, s) if s else {}
            if f == "sign":
                return p_const(self.sign_of_poly(self.reduce_light(a)))
            if f == "exp":
                return self.exp_poly(a)
            if f == "log":
                return self.log_poly(a)
            if f in ("tanh", "cosh", "sinh", "sigmoid"):
                ep = self.exp_poly(a)
                em = self.exp_poly(p_scale(a, -1))
                if f == "cosh":
                    return p_scale(p_add(ep, em), Fraction(1, 2))
                if f == "sinh":
                    return p_scale(p_add(ep, em, -1), Fraction(1, 2))
                if f == "sigmoid":
                    return self.p_pow(p_add(p_const(1), em), Fraction(-1))
                return p_mul(p_add(ep, em, -1), self.p_pow(p_add(ep, em), Fraction(-1)))
            args = [a] + [self.nf(x) for x in t.args[2:]]
            return p_gen(("fn", f, tuple(p_freeze(self.reduce(x)) for x in args)))
        if op == "app":
            nm, mi, args = t.args
            return p_gen(("app", nm, mi, tuple(p_freeze(self.reduce(self.nf(x))) for x in args)))
        if op in ("inf", "nan"):
            return p_gen((op, t.args[0] if t.args else 0))
        raise Undecided(f"normal form of {op}")

    def reduce_light(self, p):
        if len(p) <= 1:
            return p
        if any(g[0] == "sum" for m in p for g, _ in m):
            return self.reduce(p)
        return p

    # -- zero test: expand integer differences of sum powers
    def reduce(self, p, rounds=40):
        for _ in range(rounds):
            gens = {}
            for m in p:
                for g, e in m:
                    if g[0] == "sum":
                        gens.setdefault(g, []).append(e)
            if not gens:
                return p
            # candidates whose exponents vary by integers or are positive ints
            progress = False
            for g in sorted(gens, key=lambda g: (-len(repr(g)), repr(g))):
                q = self._expand_gen(p, g)
                if q is not None:
                    p = q
                    progress = True
                    break
            if not progress:
                return p
        return p

    def _expand_gen(self, p, g):
        base = dict(g[1])
        classes = []  # list of [rep_exp, [(mono_without, coef, exp)]]
        for m, c in p.items():
            d = dict(m)
            e = d.pop(g, Fraction(0))
            rest = frozenset(d.items())
            for cl in classes:
                df = e_norm(p_add(e_poly(e), e_poly(cl[0]), -1))
                if isinstance(df, Fraction) and df.denominator == 1:
                    cl[1].append((rest, c, int(df)))
                    break
            else:
                classes.append([e, [(rest, c, 0)]])
        out = {}
        changed = False
        for rep, items in classes:
            lo = min(k for _, _, k in items)
            hi = max(k for _, _, k in items)
            emin = e_norm(p_add(e_poly(rep), p_const(lo)))
            if isinstance(emin, Fraction) and emin.denominator == 1 and emin > 0:
                lo -= int(emin)
                emin = Fraction(0)
            if hi == lo:
                for rest, c, k in items:
                    mm = rest if (isinstance(emin, Fraction) and emin == 0) else frozenset(set(rest) | {(g, emin)})
                    out = p_add(out, {mm: c})
                continue
            changed = True
            powers = {0: p_const(1)}
            groups = {}
            for rest, c, k in items:
                groups.setdefault(k - lo, {})
                groups[k - lo] = p_add(groups[k - lo], {rest: c})
            acc = {}
            for k in range(1, hi - lo + 1):
                powers[k] = p_mul(powers[k - 1], base)
            for k, q in groups.items():
                acc = p_add(acc, p_mul(q, powers[k]))
            # try to pull the power back out so that reduction terminates
            ge = p_const(1) if (isinstance(emin, Fraction) and emin == 0) else p_gen(g, emin)
            out = p_add(out, p_mul(acc, ge))
        if not changed:
            return None
        if p_freeze(out) == p_freeze(p):
            return None
        return out


# ---------------------------------------------------------------- numeric view
class Bad(Exception):
    pass


def _rng_for(name, salt):
    return random.Random(zlib.crc32(f"{salt}|{name}".encode()))


def sample_var(name, salt):
    k = (name, salt, str(VARINFO.get(name)))
    if k not in _SAMPLES:
        if len(_SAMPLES) > 300000:
            _SAMPLES.clear()
        _SAMPLES[k] = _sample_var(name, salt)
    return _SAMPLES[k]


_SAMPLES = {}


def _app_coeffs(name, salt, n):
    k = (name, salt, n)
    if k not in _SAMPLES:
        if len(_SAMPLES) > 300000:
            _SAMPLES.clear()
        r = _rng_for("app:" + name, salt)
        _SAMPLES[k] = [(r.uniform(0.2, 0.8), [r.uniform(-0.9, 0.9) for _ in range(n)], r.uniform(0, 6.28)) for _ in range(4)]
    return _SAMPLES[k]


def _sample_var(name, salt):
    r = _rng_for(name, salt)
    info = VARINFO.get(name, {})
    k = info.get("kind", "real")
    if k == "pos":
        lo, hi = info.get("range", (0.4, 1.9))
        return r.uniform(lo, hi)
    if k == "unit":
        return r.uniform(0.1, 0.85)
    if k == "exponent":
        return r.uniform(1.3, 3.4)
    if k == "int":
        return float(r.randint(0, 3))
    lo, hi = info.get("range", (-1.8, 1.8))
    return r.uniform(lo, hi)


def app_val(name, midx, args, salt):
    info = APPINFO.get(name, {})
    out = 0.0
    for w, a, b in _app_coeffs(name, salt, len(args)):
        x = b + sum(ai * xi for ai, xi in zip(a, args))
        k = len(midx) % 4
        v = (math.sin(x), math.cos(x), -math.sin(x), -math.cos(x))[k]
        for i in midx:
            v *= a[i]
        out += w * v
    if info.get("pos") and not midx:
        out += info.get("shift", 3.6)
    elif info.get("shift") and not midx:
        out += info["shift"]
    if info.get("scale"):
        out *= info["scale"]
    return out


def _num_inverse(c, n, memo={}):
    if (c, n) in memo:
        return memo[(c, n)]
    if len(memo) > 20000:
        memo.clear()
    a = [list(c[i * n:(i + 1) * n]) + [1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
    res = None
    try:
        for k in range(n):
            p = max(range(k, n), key=lambda i: abs(a[i][k]))
            if not abs(a[p][k]) > 1e-300:
                break
            a[k], a[p] = a[p], a[k]
            v = a[k][k]
            a[k] = [x / v for x in a[k]]
            for i in range(n):
                if i != k and a[i][k]:
                    w = a[i][k]
                    a[i] = [x - w * y for x, y in zip(a[i], a[k])]
        else:
            res = [row[n:] for row in a]
    except OverflowError:
        res = None
    memo[(c, n)] = res
    return res


def evaluate(ts, salt, fixed=None, positive=False, undefined=None):
    """values of the terms at the point of the domain selected by salt

    positive: unknown functions are positive; undefined: a set that receives the terms without a real value
    (a fractional power or a logarithm of a negative number reaches them), as opposed to those whose value is not known"""
    memo = {}
    undef = set()
    fixed = fixed or {}

    def close(u, x):
        """x is zero up to rounding, so its sign is not known"""
        if u.op != "add" or x == 0 or not math.isfinite(x):
            return False
        big = max((abs(memo[y]) for y in u.args), default=0)
        return abs(x) < 1e-10 * big

    def val(u):
        op = u.op
        if op == "num":
            return float(u.args[0])
        if op == "var":
            n = u.args[0]
            return fixed[n] if n in fixed else sample_var(n, salt)
        if op == "bool":
            return 1.0 if u.args[0] else 0.0
        if op == "inf":
            return math.inf * u.args[0]
        if op == "nan":
            return math.nan
        c = [memo[x] for x in children(u)]
        if op == "add":
            return math.fsum(c) if all(map(math.isfinite, c)) else sum(c)
        if op == "mul":
            r = 1.0
            for x in c:
                r *= x
            return r
        if op == "pow":
            b, e = c
            if b == 0 and e < 0:
                return math.inf
            if b < 0 and math.isfinite(b) and math.isfinite(e) and e != int(e):
                if not close(u.args[0], b):
                    undef.add(u)
                return math.nan
            return b ** e
        if op == "detach":
            return c[0]
        if op == "ite":
            if c[0] is None:
                return math.nan
            return c[1] if c[0] else c[2]
        if op in ("gt0", "eq0"):
            if close(u.args[0], c[0]):
                return None
            return 1.0 if (c[0] > 0 if op == "gt0" else c[0] == 0) else 0.0
        if op == "not":
            return None if c[0] is None else 0.0 if c[0] else 1.0
        if op == "and":
            return 0.0 if any(x is not None and not x for x in c) else None if None in c else 1.0
        if op == "or":
            return 1.0 if any(x for x in c) else None if None in c else 0.0
        if op == "isnan":
            return 1.0 if math.isnan(c[0]) else 0.0
        if op == "app":
            x = app_val(u.args[0], u.args[1], c, salt)
            return abs(x) + 0.05 if positive and not u.args[1] else x
        if op == "fn":
            f = u.args[0]
            x = c[0]
            if f == "abs":
                return abs(x)
            if f == "sign":
                if close(u.args[1], x):
                    return math.nan
                return float((x > 0) - (x < 0))
            if f == "exp":
                return math.exp(x)
            if f == "log":
                if x <= 0:
                    if x < 0 and not close(u.args[1], x):
                        undef.add(u)
                    return math.nan
                return math.log(x)
            if f == "tanh":
                return math.tanh(x)
            if f == "cosh":
                return math.cosh(x)
            if f == "sinh":
                return math.sinh(x)
            if f == "sigmoid":
                return 1.0 / (1.0 + math.exp(-x))
            if f == "floor":
                if x != round(x) and abs(x - round(x)) < 1e-9 * max(1, abs(x)):
                    return math.nan
                return float(math.floor(x))
            if f == "mod":
                q = x / c[1]
                if abs(q - round(q)) < 1e-9 * max(1, abs(q)):
                    return math.nan
                return x - c[1] * math.floor(q)
            if f == "sin":
                return math.sin(x)
            if f == "cos":
                return math.cos(x)
            if f.startswith("inv") and "_" in f:
                n, r, q = (int(v) for v in f[3:].split("_"))
                m = _num_inverse(tuple(c), n)
                return math.nan if m is None else m[r][q]
            # an opaque operation: a fixed generic function of its arguments
            return app_val("fn:" + f, (), c, salt)
        raise Bad(op)

    for u in postorder(ts):
        try:
            memo[u] = val(u)
        except (OverflowError, ZeroDivisionError, ValueError):
            memo[u] = math.nan
        except TypeError:
            # a truth value that is not known enters arithmetic
            if not any(memo[x] is None for x in children(u)):
                raise
            memo[u] = math.nan
        if undef and memo[u] is not None and math.isnan(memo[u]) and u not in undef:
            if u.op == "ite":
                if memo[u.args[0]] is not None and u.args[1 if memo[u.args[0]] else 2] in undef:
                    undef.add(u)
            elif u.op in ("add", "mul", "pow", "fn", "detach") and any(x in undef for x in children(u)):
                undef.add(u)
    if undefined is not None:
        undefined.update(t for t in ts if t in undef)
    return [math.nan if memo[t] is None else memo[t] for t in ts]


# ---------------------------------------------------------------- decision
PROVED, DIFFERENT, UNKNOWN = "proved", "different", "undecided"


class Verdict:
    def __init__(self, status, how="", witness=None, regions=0):
        self.status = status
        self.how = how
        self.witness = witness
        self.regions = regions

    def __repr__(self):
        return f"<{self.status} {self.how}>"


def _point(t, salt):
    names = sorted(free(t))
    return {n: round(sample_var(n, salt), 4) for n in names[:12]}


def find_difference(a, b, salts=60, seed=1, rel=1e-6, need=2, first=0):
    """a point of the domain where the two terms differ"""
    hits = []
    good = 0
    lost = []
    for k in range(first, salts):
        undef = set()
        va, vb = evaluate([a, b], f"{seed}:{k}", undefined=undef)
        if a in undef and math.isfinite(vb):
            # no value where one is required: also with positive parameters?
            undef = set()
            va, vb = evaluate([a, b], f"{seed}:{k}", undefined=undef, positive=True)
            if a in undef and math.isfinite(vb):
                lost.append((k, va, vb))
                if len(lost) >= need:
                    k, va, vb = lost[0]
                    return dict(point=_point(add(a, b) if not _special(a) else b, f"{seed}:{k}"), left="no real value", right=vb), good
            continue
        if not (math.isfinite(va) and math.isfinite(vb)):
            continue
        good += 1
        if abs(va - vb) > rel * (abs(va) + abs(vb)) + 1e-9:
            hits.append((k, va, vb))
            if len(hits) >= need:
                k, va, vb = hits[0]
                return dict(point=_point(add(a, b) if not _special(a) else b, f"{seed}:{k}"), left=va, right=vb), good
    return None, good


def unit_facts(t):
    """variables between zero and one: 1 - v is positive"""
    env = {}
    for n in free(t):
        if VARINFO.get(n, {}).get("kind") == "unit":
            try:
                NF({}).sign_of_poly(NF({}).nf(sub(ONE, var(n))))
            except NeedSplit as e:
                # the key is scaled to a positive leading coefficient
                q = dict(e.key)
                env[e.key] = 1 if q.get(ONE_M, 0) > 0 else -1
    return env


def prove_zero(t, max_regions=4096):
    """True if the normal form vanishes in every sign region"""
    work = [unit_facts(t)]
    regions = 0
    while work:
        env = work.pop()
        nf = NF(env)
        try:
            p = nf.nf(t)
            p = nf.reduce(p)
            regions += 1
            if p:
                return False, regions, p
        except NeedSplit as e:
            for s in (1, -1):
                n = dict(env)
                n[e.key] = s
                work.append(n)
        except NFUndefined:
            regions += 1
        except NFTooBig:
            return None, regions, None
        except RecursionError:
            return None, regions, None
        if regions + len(work) > max_regions:
            return None, regions, None
    return True, regions, None


def uninit_vars(t):
    return [n for n in free(t) if VARINFO.get(n, {}).get("kind") == "uninit"]


def strictly_nan(t, memo=None):
    """not-a-number reaches the value unconditionally"""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is None:
        memo[t] = False
        r = t.op == "nan" or (t.op in ("add", "mul", "pow", "fn", "app", "detach") and any(strictly_nan(x, memo) for x in t.args if isinstance(x, Term)))
        if not r and t.op in ("fn", "app"):
            r = any(strictly_nan(x, memo) for y in t.args if isinstance(y, tuple) for x in y if isinstance(x, Term))
        memo[t] = r
    return r


FIELD = (1 << 61) - 1


def field_values(ts, salt):
    """the terms as elements of a large prime field, the variables drawn at random
    from it; operations that are not field operations are unknown functions of the
    values of their arguments (the same value for the same arguments).  Returns
    None where a division by zero occurs."""
    import hashlib

    def draw(*key):
        return int.from_bytes(hashlib.blake2b(repr((salt,) + key).encode(), digest_size=16).digest(), "big") % FIELD

    v = {}
    for t in postorder(ts):
        op = t.op
        if op == "num":
            q = Fraction(t.args[0])
            if q.denominator % FIELD == 0:
                return None
            r = q.numerator * pow(q.denominator, -1, FIELD) % FIELD
        elif op == "var":
            r = draw("var", t.args[0])
        elif op == "add":
            r = 0
            for c in t.args:
                r += v[c]
            r %= FIELD
        elif op == "mul":
            r = 1
            for c in t.args:
                r = r * v[c] % FIELD
        elif op == "detach":
            r = v[t.args[0]]
        elif op == "pow" and numval(t.args[1]) is not None and Fraction(numval(t.args[1])).denominator == 1:
            e = int(numval(t.args[1]))
            x = v[t.args[0]]
            if e < 0 and x == 0:
                return None
            r = pow(x, e, FIELD)
        elif op == "app":
            r = draw("app", t.args[0], tuple(t.args[1]), tuple(v[c] for c in t.args[2]))
        elif op in ("pow", "ite", "gt0", "eq0", "not", "and", "or"):
            r = draw(op, tuple(v[c] for c in t.args))
        elif op == "fn":
            r = draw("fn", t.args[0], tuple(v[c] if isinstance(c, Term) else repr(c) for c in t.args[1:]))
        else:
            return None
        v[t] = r
    return [v[t] for t in ts]


def field_equal(a, b, rounds=2):
    """identity test (Schwartz and Zippel): terms of the same value in the field for
    random variables are the same rational function, up to a probability of the
    degree over 2^61 for each round"""
    for k in range(rounds):
        r = field_values([a, b], k)
        if r is None or r[0] != r[1]:
            return False
    return True


def equal(a, b, seed=1, need=2, depth=0):
    """decide a == b over the whole domain"""
    a, b = as_num(T(a)), as_num(T(b))
    if a is b:
        return Verdict(PROVED, "identical", regions=1)
    if strictly_nan(a) != strictly_nan(b):
        x, y = (float("nan") if strictly_nan(z) else 0.0 for z in (a, b))
        return Verdict(DIFFERENT, "not a number", dict(point={}, left=x, right=y))
    if field_equal(a, b):
        return Verdict(PROVED, "identity test", regions=1)
    diffp, good = find_difference(a, b, salts=6, seed=seed, need=need)
    if diffp is not None:
        return Verdict(DIFFERENT, "terms differ", diffp)
    why = None
    try:
        z, regions, _ = prove_zero(sub(a, b))
    except Undecided as e:
        z, why = None, str(e)
    if z:
        return Verdict(PROVED, "normal form", regions=regions)
    diffp, good = find_difference(a, b, seed=seed, need=need, first=4)
    if diffp is not None:
        return Verdict(DIFFERENT, "terms differ", diffp)
    if why:
        return probed(a, b, seed, need, depth) or Verdict(UNKNOWN, why)
    if depth < 4:
        a2, b2 = congruence(a, b, depth)
        if a2 is not a or b2 is not b:
            if a2 is b2:
                return Verdict(PROVED, "congruence", regions=1)
            try:
                z, regions, _ = prove_zero(sub(a2, b2))
            except Undecided as e:
                return probed(a, b, seed, need, depth) or Verdict(UNKNOWN, str(e))
            if z:
                return Verdict(PROVED, "normal form with congruence", regions=regions)
    return probed(a, b, seed, need, depth) or Verdict(UNKNOWN, f"normal form not conclusive ({good} sample points agree)")


def probed(a, b, seed, need, depth):
    """a difference in a region that ordinary samples do not enter"""
    if depth:
        return None
    from .probe import difference
    d = difference(a, b, seed=seed if isinstance(seed, int) else 1, need=max(need, 2))
    return None if d is None else Verdict(DIFFERENT, "terms differ", d)


def congruence(a, b, depth):
    """replace function applications by an earlier one with provably equal arguments"""
    reps = {}
    out = {}
    for t in postorder([a, b]):
        ch = children(t)
        r = rebuild(t, [out[c] for c in ch]) if ch else t
        if r.op in ("app", "fn", "gt0", "eq0"):
            key = (r.op,) + ((r.args[0], r.args[1] if r.op == "app" else None) if r.op in ("app", "fn") else ())
            for q in reps.setdefault(key, []):
                if q is r:
                    break
                cq, cr = children(q), children(r)
                if len(cq) == len(cr) and all(x is y or equal(x, y, need=1, depth=depth + 1).status == PROVED for x, y in zip(cq, cr)):
                    r = q
                    break
            else:
                reps[key].append(r)
        out[t] = r
    return out[a], out[b]
