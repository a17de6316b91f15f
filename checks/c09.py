"""C09: the optimizer's scale helpers map into their bounds."""
from .common import *
from sa.terms import fn, gt, ite, ZERO, ONE
from .c08 import tens
from . import sizes


def run(rep):
    I = fresh_interp()
    rep.minimum = 30
    rep.rule("formula", "the helper equals its documented clamped map in every region of the input")
    rep.rule("range", "the value lies between the bounds, and not below the minimum bound when given")
    rep.rule("vector", "with bounds of their own for every component, each component is mapped by its own bounds and its own input alone")
    rep.assume("lower bound below upper bound (positive center and factor for the factor helper)")
    lo, w, p, q = var("lo"), var("w", "pos"), var("p", "pos"), var("x01", "unit")
    hi = lo + w
    m, f = var("mean", "pos"), var("factor", "pos")
    mb = var("minb")
    s = var("sc", "pos")

    def sc(x):
        return new((), [T(x)], "float", "D")

    for n in sorted({2, 3} | set(sizes.beyond(I, ("optimize",), 3, 24, 4))):
        vector(rep, I, n)
    for shape in [()] + batches(rep):
        for name, args, lohi in (("bounded_scale_function", [(sc(lo), sc(hi))], (lo, hi)), ("bound_factor", [sc(m), sc(f)], (m * (1 - f), m * (1 + f)))):
            fv = I.get("optimize." + name)
            a, b = lohi
            for minb in (None, "min"):
                for nm, x, y in (("below 0", -p, a), ("inside", q, a + q * (b - a)), ("above 1", 1 + p, b), ("at 0", ZERO, a), ("at 1", ONE, b)):
                    key = f"{nm} min={minb} {fmtshape(shape)}"
                    with rep.guard("formula", name, key):
                        g = I.call(fv, list(args), {} if minb is None else {"min_bound": sc(mb)})
                        got = I.call(g, [tens(shape, x)], {})
                        ref = y if minb is None else ite(gt(mb, y), mb, y)
                        rep.equal_tensors("formula", name, key, got, (shape, [ref]), where_func(fv))
                        v = got.cells()[0]
                        if minb is None:
                            rep.equal_terms("range", name, key + " lower", v - a, y - a, where_func(fv), "distance from the lower bound")
                            rep.equal_terms("range", name, key + " upper", b - v, b - y, where_func(fv), "distance from the upper bound")
                        else:
                            rep.equal_terms("range", name, key + " min", v - mb, ite(gt(y, mb), y - mb, ZERO), where_func(fv), "distance from the minimum bound")
        # clamps of a monotone map g(x): below, inside, above
        E = lambda t: fn("exp", t)
        L = lambda t: fn("log", t)
        pl = var("plo", "pos")
        for name, args, pre, (a, b) in (
                ("clamp_scale_function", [(sc(lo), sc(hi))], lambda t: t, (lo, hi)),
                ("bound_and_scale", [sc(s), (sc(lo), sc(hi))], lambda t: t * s, (lo, hi)),
                ("bound_and_scale", [sc(-s), (sc(lo), sc(hi))], lambda t: -t * s, (lo, hi)),
                ("log_bound_and_scale", [sc(s), (sc(pl), sc(pl + w))], lambda t: L(t) * s, (pl, pl + w)),
                ("log_bound_and_scale", [sc(-s), (sc(pl), sc(pl + w))], lambda t: -L(t) * s, (pl, pl + w))):
            fv = I.get("optimize." + name)
            sign = " negative scale" if "scale" in name and name != "clamp_scale_function" and args[0].cells()[0] is not s else ""
            for nm, y in (("below", a - p if name != "log_bound_and_scale" else a * q), ("inside", a + q * (b - a)), ("above", b + p)):
                key = f"{nm}{sign} {fmtshape(shape)}"
                with rep.guard("formula", name, key):
                    g = I.call(fv, list(args), {})
                    got = I.call(g, [tens(shape, pre(y))], {})
                    ref = {"below": a, "inside": y, "above": b}[nm]
                    rep.equal_tensors("formula", name, key, got, (shape, [ref]), where_func(fv))
                    v = got.cells()[0]
                    rep.equal_terms("range", name, key + " lower", v - a, {"below": ZERO, "inside": q * w, "above": w}[nm], where_func(fv), "distance from the lower bound")
                    rep.equal_terms("range", name, key + " upper", b - v, {"below": w, "inside": (1 - q) * w, "above": ZERO}[nm], where_func(fv), "distance from the upper bound")


def vector(rep, I, n):
    """bounds and inputs that differ from component to component"""
    from itertools import product
    V = lambda p, k="real": [var(f"{p}{i}", k) for i in range(n)]
    vec = lambda cells: new((n,), list(cells), "float", "D")
    lo, w, p, q, m, f, s, pl, mb = V("lo"), V("w", "pos"), V("p", "pos"), V("x01_", "unit"), V("mean", "pos"), V("factor", "pos"), V("sc", "pos"), V("plo", "pos"), V("minb")
    s = [t if i % 2 == 0 else -t for i, t in enumerate(s)]  # scales of either sign
    hi = [a + b for a, b in zip(lo, w)]
    ph = [a + b for a, b in zip(pl, w)]
    kinds_ = ("below", "inside", "above")
    picks = list(product(kinds_, repeat=n)) if n < 4 else [tuple(kinds_[(i + j) % 3] for i in range(n)) for j in range(3)]
    E, L = (lambda t: fn("exp", t)), (lambda t: fn("log", t))
    helpers = (
        ("bounded_scale_function", [(vec(lo), vec(hi))], lo, hi, "unit"),
        ("bound_factor", [vec(m), vec(f)], [a * (1 - b) for a, b in zip(m, f)], [a * (1 + b) for a, b in zip(m, f)], "unit"),
        ("clamp_scale_function", [(vec(lo), vec(hi))], lo, hi, lambda t, i: t),
        ("bound_and_scale", [vec(s), (vec(lo), vec(hi))], lo, hi, lambda t, i: t * s[i]),
        ("log_bound_and_scale", [vec(s), (vec(pl), vec(ph))], pl, ph, lambda t, i: L(t) * s[i]))
    for name, args, a, b, pre in helpers:
        fv = I.get("optimize." + name)
        for pick in picks:
            for minb in (None, "min") if pre == "unit" else (None,):
                key = f"{n} components {', '.join(pick)}" + ("" if minb is None else " minimum")
                with rep.guard("vector", name, key):
                    X, Y = [], []
                    for i, k in enumerate(pick):
                        inside = a[i] + q[i] * (b[i] - a[i])
                        if pre == "unit":
                            X.append({"below": -p[i], "inside": q[i], "above": 1 + p[i]}[k])
                        else:
                            X.append(pre({"below": a[i] * q[i] if name.startswith("log") else a[i] - p[i], "inside": inside, "above": b[i] + p[i]}[k], i))
                        y = {"below": a[i], "inside": inside, "above": b[i]}[k]
                        Y.append(y if minb is None else ite(gt(mb[i], y), mb[i], y))
                    g = I.call(fv, list(args), {} if minb is None else {"min_bound": vec(mb)})
                    rep.equal_tensors("vector", name, key, I.call(g, [vec(X)], {}), ((n,), Y), where_func(fv))
