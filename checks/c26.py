"""C26: no gradient path is cut between inputs, parameters and results."""
from .effects import *

SKIP = ("random", "print", "sample", "load")


def run(rep):
    rep.minimum = 1200
    rep.rule("path", "no input or parameter reaches a result through a detached, copied-to-number or gradient-free value that changes the derivative")
    rep.assume("components and functions handed in keep their own gradients")
    rep.assume("the adjoint integrator computes its gradient itself (C12); its forward pass is outside the graph by design")
    thorough = rep.tier == "thorough"
    for b in [(SymSize("B"),), (SymSize("N"), SymSize("B")), (), (1,), (2,)] + ([(2, 2), (3,), (2, 1, 2)] if thorough else []):
        I = fresh_interp()
        for c in pointwise(I, b):
            if c.kind == "piecewise" and any(isinstance(d_, SymSize) for d_ in b):
                continue
            one(rep, I, c, bl(b) if any(isinstance(d_, SymSize) for d_ in b) else f"batch {fmtshape(b)}")
    I = fresh_interp()
    for c in others(I):
        one(rep, I, c, "")


def one(rep, I, c, lab):
    if c.kind in SKIP or c.construct == "ode.odeint_adjoint":
        return
    key = ", ".join(x for x in (c.key, lab) if x)
    n0 = len(I.events)
    with rep.guard("path", c.construct, key):
        r = image(c.call())
        off = [e for k, e in I.events[n0:] if k == "grad-mode" and not e["on"]]
        n = 0
        memo, und = {}, None
        for shape, cells in r:
            for t in cells:
                t = T(t)
                n += 1
                cuts = cut_points(t, memo)
                if not cuts:
                    continue
                names = sorted({v for u in cuts for v in tm.free(u)})
                for v in names:
                    a, b = tm.diff(t, v), tm.diff(t, v, through_detach=False)
                    q = tm.equal(a, b)
                    if q.status == tm.DIFFERENT:
                        loc = [e["loc"] for k, e in I.events[n0:] if k in ("detach", "item") or (k == "grad-mode" and not e["on"])]
                        rep.bad("path", c.construct, key, fmtloc(loc[0]) if loc else c.where,
                                f"the derivative of the result {short(t)} with respect to {v} is {short(b)} instead of {short(a)}: the value passes through a detached copy")
                        return
                    if q.status != tm.PROVED:
                        und = und or q.how
        if und:
            rep.und("path", c.construct, key, und)
        else:
            rep.ok("path", c.construct, key, f"{n} values")


def cut_points(t, memo):
    """arguments of detached terms in value position"""
    if t in memo:
        return memo[t]
    if t.op in ("gt0", "eq0", "not", "and", "or", "isnan", "bool", "num", "var", "inf", "nan"):
        r = frozenset()
    elif t.op == "detach":
        r = frozenset([t.args[0]])
    else:
        ch = [x for x in t.args if isinstance(x, Term)]
        if t.op == "ite":
            ch = ch[1:]
        r = frozenset().union(*[cut_points(x, memo) for x in ch]) if ch else frozenset()
    memo[t] = r
    return r
