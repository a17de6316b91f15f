"""C33: rates, Jacobians and their gradients are finite in the virgin state, unloaded and inside the yield surface."""
from .effects import *
from sa import ieee

STATE = ("s", "d")
# exponents that are not the parameter itself: -A/T
SLOPES = {("damage.LarsonMillerDamage", "A")}


def run(rep):
    rep.minimum = 200
    rep.rule("value", "no rate or derivative divides by zero, takes a negative power or the logarithm of zero: in the virgin state (no stress, history or damage) for total strains that increase, decrease or rest and at time zero, when unloaded, on first loading, and on either side of the yield surface")
    rep.rule("gradient", "no operation on the path from a parameter to a rate has an infinite derivative there, not even one whose value a conditional drops")
    rep.assume("parameters are positive, those used as exponents larger than two (for the Larson-Miller slope: -A/T), in general position (no two unrelated quantities coincide)")
    rep.assume("components handed in meet this property themselves")
    rep.assume("real arithmetic: overflow and rounding are not modelled")
    thorough = rep.tier == "thorough"
    for b in [(1,)] + ([(SymSize("B"),), (2,), (SymSize("N"), SymSize("B"))] if thorough else []):
        I = fresh_interp()
        for g in (lambda I, b: rates(I, b, tiny=True), materials, assembled):
            for c in section(g, I, b):
                one(rep, I, c, b)


def base(v):
    return v.split("@")[0]


def one(rep, I, c, b):
    key = ", ".join(x for x in (c.key, bl(b) if any(isinstance(x, SymSize) for x in b) else f"batch {fmtshape(b)}") if x)
    with rep.guard("value", c.construct, key):
        cells = [T(t) for shape, ts in image(c.call()) for t in ts]
        names = set().union(*[tm.free(t) for t in cells]) if cells else set()
        own = set(c.vary) | {"ep"}
        inputs_ = {v for v in names if base(v) in own}
        exps = ieee.exponents(cells)
        zero0 = {}
        temp = [v for v in inputs_ if base(v) == "T"]
        for v in exps - inputs_:
            x = tm.add(num(2), var(v + "+", "pos"))
            zero0[v] = tm.neg(tm.mul(x, tm.add(*[var(z, "pos") for z in temp]))) if (c.construct, v) in SLOPES and temp else x
        inst = lambda sel: {v: tm.ZERO for v in inputs_ if sel(base(v))}
        stress = lambda n: n == "s" or n == "y0"
        hist = lambda n: not stress(n) and (n in STATE or re_state(n))
        virgin = inst(lambda n: stress(n) or hist(n))
        pos = {v: var(v + "+", "pos") for v in inputs_ if base(v) in ("e", "ep")}
        flip = {v: tm.neg(x) for v, x in pos.items()}
        rest = {**pos, **inst(lambda n: n == "e")}
        cases = [("virgin, strain increasing", {**pos, **virgin}), ("virgin, strain decreasing", {**flip, **virgin}), ("virgin, strain at rest", {**rest, **virgin}),
                 ("virgin, time zero", {**pos, **virgin, **inst(lambda n: n == "t")}), ("virgin, no inelastic strain rate", {**pos, **virgin, **inst(lambda n: n == "ep")}),
                 ("unloaded", {**pos, **inst(stress)}), ("first loading", {**pos, **inst(hist)}), ("loaded", pos), ("loaded, strain at rest", rest)]
        done = []
        for lab, sel in cases:
            if any(sel == x for x in done):
                continue
            done.append(sel)
            state(rep, c, f"{key}, {lab}", lab, cells, {**sel, **zero0}, names - inputs_)


def state(rep, c, k, lab, cells, zero, active):
    for rid in ("value", "gradient"):
        hit = cand = None
        with rep.guard(rid, c.construct, k):
            for i, t in enumerate(cells):
                if rid not in hazards(t, zero, active):
                    continue
                cand = t
                for salt in range(40):
                    try:
                        q = ieee.Sampled(zero, 7000 + salt)
                        v = q.run(t)
                        hit = q.why.get(t, t) if rid == "value" and ieee.bad(v) else q.gradient(t, active) if rid == "gradient" and not ieee.bad(v) else None
                    except Undecided:
                        continue
                    if hit is not None:
                        break
                if hit is not None:
                    break
            if hit is not None and rid == "value":
                rep.bad(rid, c.construct, k, c.where, f"in the state '{lab}' value {i} of the result is not finite: {short(hit)} is evaluated")
            elif hit is not None:
                rep.bad(rid, c.construct, k, c.where, f"in the state '{lab}' the gradient of value {i} with respect to the parameters is not finite: {short(hit)} has an infinite derivative")
            elif cand is not None:
                rep.und(rid, c.construct, k, "not confirmed at a sampled point")
            else:
                rep.ok(rid, c.construct, k, f"{len(cells)} values")


def re_state(n):
    return n[:1] in "hy" and n[1:].isdigit()


def hazards(t, zero, active):
    out = set()
    for w in ieee.regions(t, zero):
        if ieee.bad(w.val[t]):
            out.add("value")
        elif w.gradient(t, active) is not None:
            out.add("gradient")
    return out
