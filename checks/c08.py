"""C08: scaling objects equal their formulas, round-trip and respect their bounds."""
from .common import *
from sa.terms import fn, power, gt, ite, ZERO, ONE
from . import sizes
import re


def clamp01(x):
    x = ite(gt(ZERO, x), ZERO, x)
    return ite(gt(x, ONE), ONE, x)


def cases(w):
    """the real line cut at 0 and 1: (name, x)"""
    p = var("p", "pos")
    return (("below 0", -p), ("inside", var("x01", "unit")), ("above 1", 1 + p))


def run(rep):
    I = fresh_interp()
    rep.minimum = 30
    rep.rule("formula", "scale equals the documented map for every input")
    rep.rule("call", "calling the object is the same as scale")
    rep.rule("roundtrip", "unscale undoes scale inside the admissible range, and scale undoes unscale inside the bounds")
    rep.rule("ends", "zero and one map to the lower and the upper bound")
    rep.rule("range", "clamped scaling stays between the bounds")
    rep.rule("mean", "the transformed mean is the documented affine map of the location")
    rep.rule("vector", "with bounds of their own for every component, each component is scaled by its own bounds and by its own input alone")
    rep.rule("report", "the description of the transformed distribution shows the transformed location and the transformed spread (for the logarithmic kind also the mean)")
    rep.assume("lower bound below upper bound; both positive for the logarithmic kind")
    for shape in [()] + batches(rep):
        simple(rep, I, shape)
        for clamp in (True, False, None):
            bounded(rep, I, shape, "BoundedScalingFunction", clamp, False)
            bounded(rep, I, shape, "LogBoundedScalingFunction", clamp, True)
    for n in sorted({2, 3} | set(sizes.beyond(I, ("scaling",), 3, 24, 4))):
        vector(rep, I, n)


def tens(shape, t):
    n = 1
    for d_ in shape:
        n *= ext(d_)
    return new(shape, [T(t)] * n, "float", "D")


def simple(rep, I, shape):
    c = I.get("scaling.SimpleScalingFunction")
    cn = short_name(c)
    k = fmtshape(shape)
    s, x = var("sc", "pos"), var("x")
    o = None
    with rep.guard("formula", cn, k):
        o = I.call(c, [new((), [s], "float", "D")], {})
        sc, un, mean = (method(I, o, m) for m in ("scale", "unscale", "scale_mean"))
        y = I.call(sc, [tens(shape, x)], {})
        rep.equal_tensors("formula", cn, k, y, (shape, [s * x]), mwhere(c, "scale"))
        rep.equal_tensors("call", cn, k, I.call(o, [tens(shape, x)], {}), (shape, [s * x]), mwhere(c, "forward"))
        rep.equal_tensors("roundtrip", cn, k + " unscale of scale", I.call(un, [y], {}), (shape, [x]), mwhere(c, "unscale"))
        rep.equal_tensors("roundtrip", cn, k + " scale of unscale", I.call(sc, [I.call(un, [tens(shape, x)], {})], {}), (shape, [x]), mwhere(c, "unscale"))
        rep.equal_tensors("mean", cn, k, I.call(mean, [tens(shape, x), tens(shape, var("scl", "pos"))], {}), (shape, [s * x]), mwhere(c, "scale_mean"))


def bounded(rep, I, shape, name, clamp, log):
    c = I.get("scaling." + name)
    cn = short_name(c)
    k = f"{fmtshape(shape)} clamp={'default' if clamp is None else clamp}"
    l, w = var("lp", "pos") if log else var("l"), var("w", "pos")
    u = l * (1 + w) if log else l + w
    eff = clamp is not False

    def want(x):
        return power(l, 1 - x) * power(u, x) if log else x * (u - l) + l

    with rep.guard("formula", cn, k):
        kw = {} if clamp is None else {"clamp": clamp}
        o = I.call(c, [new((), [l], "float", "D"), new((), [u], "float", "D")], kw)
        sc, un, mean = (method(I, o, m) for m in ("scale", "unscale", "scale_mean"))

        def S(x, f=sc):
            return I.call(f, [tens(shape, x)], {})

        for nm, x in cases(w):
            ref = want(x)
            if eff:
                ref = {"below 0": l, "above 1": u}.get(nm, ref)
            y = S(x)
            rep.equal_tensors("formula", cn, f"{k} {nm}", y, (shape, [ref]), mwhere(c, "scale"))
            rep.equal_tensors("call", cn, f"{k} {nm}", S(x, o), (shape, [ref]), mwhere(c, "forward"))
            v = y.cells()[0]
            if eff and nm == "inside":
                lo, hi = (v / l, u / v) if log else (v - l, u - v)
                gl, gh = (power(1 + w, x), power(1 + w, 1 - x)) if log else (x * w, (1 - x) * w)
                rep.equal_terms("range", cn, f"{k} {nm} lower", lo, gl, mwhere(c, "scale"), "distance from the lower bound")
                rep.equal_terms("range", cn, f"{k} {nm} upper", hi, gh, mwhere(c, "scale"), "distance from the upper bound")
            elif eff:
                rep.equal_terms("range", cn, f"{k} {nm}", v, l if nm == "below 0" else u, mwhere(c, "scale"), "clamped value")
            if nm == "inside" or not eff:
                rep.equal_tensors("roundtrip", cn, f"{k} {nm} unscale of scale", I.call(un, [y], {}), (shape, [x]), mwhere(c, "unscale"))
            rep.equal_tensors("mean", cn, f"{k} {nm}", I.call(mean, [tens(shape, x), tens(shape, var("scl", "pos"))], {}),
                              (shape, [(fn("log", u) - fn("log", l)) * x + fn("log", l) if log else ref]), mwhere(c, "scale_mean"))
        yv = want(var("x01", "unit"))
        rep.equal_tensors("roundtrip", cn, k + " scale of unscale", S(I.call(un, [tens(shape, yv)], {}).cells()[0]), (shape, [yv]), mwhere(c, "unscale"))
        rep.equal_tensors("ends", cn, k + " 0", S(ZERO), (shape, [l]), mwhere(c, "scale"))
        rep.equal_tensors("ends", cn, k + " 1", S(ONE), (shape, [u]), mwhere(c, "scale"))


def reported(I, f, args):
    """the tensors shown by a text, in order"""
    I.written = []
    try:
        text = I.call(f, args, {})
        made = list(I.written)
    finally:
        I.written = None
    if not isinstance(text, str):
        return None
    return [made[int(k)] for k in re.findall(r"<tensor #(\d+)#>", text)]


def shows(rep, I, o, c, key, args, want):
    """the wanted values appear in the text in this order"""
    cn = short_name(c)
    if c.lookup("scale_stat")[0] is None:
        return
    w = mwhere(c, "scale_stat")
    with rep.guard("report", cn, key):
        got = reported(I, method(I, o, "scale_stat"), args)
        if got is None:
            raise Undecided("the description is not a text")
        k = 0
        for what, shape, cells in want:
            hit = None
            for i in range(k, len(got)):
                if tuple(got[i].shape) == tuple(shape) and all(tm.equal(T(a), T(b)).status == tm.PROVED for a, b in zip(got[i].cells(), tile(cells, got[i].ncells()))):
                    hit = i
                    break
            if hit is None and k < len(got):
                # the next number shown in its place
                rep.equal_tensors("report", cn, f"{key} {what}", got[k], (shape, cells), w, f"the {what} shown")
                k += 1
                continue
            rep.fact("report", cn, f"{key} {what}", hit is not None, w, f"the {what} is not shown")
            if hit is not None:
                k = hit + 1


def vector(rep, I, n):
    """bounds and inputs that differ from component to component"""
    from itertools import product as prod_
    L = [var(f"lp{i}", "pos") for i in range(n)]
    W = [var(f"w{i}", "pos") for i in range(n)]
    spread = [var(f"scl{i}", "pos") for i in range(n)]
    kinds_ = ("below 0", "inside", "above 1")
    picks = list(prod_(kinds_, repeat=n)) if n < 4 else [tuple(kinds_[(i + j) % 3] for i in range(n)) for j in range(3)]
    x_of = {"below 0": lambda i: -var(f"p{i}", "pos"), "inside": lambda i: var(f"x01_{i}", "unit"), "above 1": lambda i: 1 + var(f"p{i}", "pos")}
    vec = lambda cells: new((n,), list(cells), "float", "D")
    c = I.get("scaling.SimpleScalingFunction")
    cn = short_name(c)
    k = f"{n} components"
    with rep.guard("vector", cn, k):
        S_ = [var(f"sc{i}", "pos") for i in range(n)]
        X = [var(f"x{i}") for i in range(n)]
        o = I.call(c, [vec(S_)], {})
        sx = [a * b for a, b in zip(S_, X)]
        for m, args, want in (("scale", [vec(X)], sx), ("unscale", [vec(sx)], X), ("scale_mean", [vec(X), vec(spread)], sx)):
            rep.equal_tensors("vector", cn, f"{k} {m}", I.call(method(I, o, m), args, {}), ((n,), want), mwhere(c, m))
        shows(rep, I, o, c, k, [vec(X), vec(spread)], [("location", (n,), sx), ("spread", (n,), [a * b for a, b in zip(S_, spread)])])
    for name, log in (("BoundedScalingFunction", False), ("LogBoundedScalingFunction", True)):
        c = I.get("scaling." + name)
        cn = short_name(c)
        U = [l * (1 + w) if log else l + w for l, w in zip(L, W)]
        for clamp in (True, False):
            for pick in picks:
                key = f"{k} clamp={clamp} {', '.join(pick)}"
                with rep.guard("vector", cn, key):
                    o = I.call(c, [vec(L), vec(U)], {"clamp": clamp})
                    X = [x_of[q](i) for i, q in enumerate(pick)]
                    eff = [(ZERO if q == "below 0" else ONE if q == "above 1" else x) if clamp else x for x, q in zip(X, pick)]
                    sx = [power(l, 1 - x) * power(u, x) if log else x * (u - l) + l for l, u, x in zip(L, U, eff)]
                    lm = [(fn("log", u) - fn("log", l)) * x + fn("log", l) for l, u, x in zip(L, U, X)]
                    y = I.call(method(I, o, "scale"), [vec(X)], {})
                    rep.equal_tensors("vector", cn, f"{key} scale", y, ((n,), sx), mwhere(c, "scale"))
                    if pick == ("inside",) * n or not clamp:
                        rep.equal_tensors("vector", cn, f"{key} unscale", I.call(method(I, o, "unscale"), [y], {}), ((n,), X), mwhere(c, "unscale"))
                    rep.equal_tensors("vector", cn, f"{key} scale_mean", I.call(method(I, o, "scale_mean"), [vec(X), vec(spread)], {}), ((n,), lm if log else sx), mwhere(c, "scale_mean"))
                    if log:
                        A = [fn("log", u) - fn("log", l) for l, u in zip(L, U)]
                        sp = [a * s for a, s in zip(A, spread)]
                        want = [("location", (n,), lm), ("spread", (n,), sp), ("mean", (n,), [fn("exp", m + s * s / 2) for m, s in zip(lm, sp)])]
                    else:
                        want = [("location", (n,), sx), ("spread", (n,), [(u - l) * s for l, u, s in zip(L, U, spread)])]
                    shows(rep, I, o, c, key, [vec(X), vec(spread)], want)
