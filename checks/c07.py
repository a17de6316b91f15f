"""C07: temperature laws equal their formulas, every scaling applied exactly once."""
from .common import *
from sa.terms import fn, power, app, gt, ite, ZERO, ONE
from itertools import product
from . import sizes

RAW = object()


def S(name, x):
    return app(name, [x])


def clip(x, lo, hi):
    x = ite(gt(T(lo), x), T(lo), x)
    return ite(gt(x, T(hi)), T(hi), x)


def kmn(v, hi):
    return clip(-v["mu"] * power(v["b"], T(3)) / (v["k"] * v["T"] * S("A_scale", v["A"])), 1, hi)


def mts(v):
    x = v["k"] * v["T"] / (v["mu"] * power(v["b"], T(3)) * S("g0_scale", v["g0"]))
    return S("tau0_scale", v["tau0"]) * power(1 - power(x, 1 / S("q_scale", v["q"])), 1 / S("p_scale", v["p"]))


def poly(v):
    c = v["coefs"]
    n = len(c)
    return tm.add(*[S("coef_scale_fn", c[k]) * power(v["T"], T(n - 1 - k)) for k in range(n)])


# class -> (own tensors, scalar tensors, temperature parameters, extra settings, law)
LAWS = {
    "ConstantParameter": (["pvalue"], [], [], {}, lambda v: S("p_scale", v["pvalue"])),
    "ShearModulusScaling": (["A"], [], ["mu"], {}, lambda v: S("A_scale", v["A"]) * v["mu"]),
    "ShearModulusScalingExp": (["A"], [], ["mu"], {}, lambda v: fn("exp", S("A_scale", v["A"])) * v["mu"]),
    "MTSScaling": (["tau0", "g0", "q", "p"], ["k", "b"], ["mu"], {}, mts),
    "KMRateSensitivityScaling": (["A"], ["b", "k"], ["mu"], {"cutoff": 37.0}, lambda v: kmn(v, 37)),
    "KMViscosityScaling": (["A", "B"], ["eps0", "b", "k"], ["mu"], {},
                           lambda v: fn("exp", S("B_scale", v["B"])) * v["mu"] * power(v["eps0"], -1 / kmn(v, 1000))),
    "PolynomialScaling": (["coefs"], [], [], {}, poly),
    "ArrheniusScaling": (["A", "Q"], [], [], {}, lambda v: S("A_scale", v["A"]) * fn("exp", -S("Q_scale", v["Q"]) / v["T"])),
    "InverseArrheniusScaling": (["A", "Q"], [], [], {}, lambda v: S("A_scale", v["A"]) * (1 - fn("exp", -S("Q_scale", v["Q"]) / v["T"]))),
}
OWNSHAPE = {"MTSScaling": "tau0", "KMViscosityScaling": "B", "PolynomialScaling": "coefs", "ConstantParameter": "pvalue"}


def run(rep):
    I = fresh_interp()
    rep.minimum = 60
    rep.rule("law", "forward(T) is the scaling applied once to the documented law of the individually scaled parameters")
    rep.rule("shape", "the shape property is the shape of the underlying parameter")
    rep.rule("piecewise", "the piecewise law interpolates the scaled control values (all orders of temperature and control points)")
    rep.rule("scaled-use", "no material law uses a temperature parameter without its scaling")
    rep.assume("temperatures, moduli and constants are positive where the law takes fractional powers")
    B, N = SymSize("B"), SymSize("N")
    combos = [((), ()), ((), (B,)), ((), (N, B)), ((B,), (B,)), ((B,), (N, B))]
    if rep.tier == "thorough":
        combos += [((), (SymSize("M"), N, B)), ((N, B), (N, B)), ((B,), (SymSize("M"), N, B))]
    for name, spec in LAWS.items():
        c = I.get("temperature." + name)
        for ps, ts in combos:
            law(rep, I, c, name, spec, ps, ts)
        if name == "PolynomialScaling":
            for n in sorted({1, 2, 4, 6, 9} | set(sizes.beyond(I, ("temperature",), 4, 40, 6))):
                for ps, ts in combos[1:4]:
                    law(rep, I, c, name, spec, ps, ts, n)
    piecewise(rep, I)
    for m, base, methods in (("flowrules", "FlowRule", ("flow_rate", "dflow_dhist", "dflow_derate", "history_rate", "dhist_dstress", "dhist_derate")),
                             ("hardening", "HardeningModel", ("history_rate", "dhistory_rate_dstress", "dhistory_rate_dhistory", "dhistory_rate_derate", "dhistory_rate_dtotalrate")),
                             ("damage", "DamageModel", ("damage_rate", "d_damage_rate_d_s", "d_damage_rate_d_e"))):
        for c in I.classes(m, base):
            if all(c.lookup(x)[0] is not None for x in methods):
                scaled_use(rep, I, c, m, methods)


def law(rep, I, c, name, spec, ps, ts, nc=3):
    own, scal, tps, extra, f = spec
    cn = short_name(c)
    key = f"parameter{fmtshape(ps)} temperature{fmtshape(ts)}" + (f" {nc} coefficients" if nc != 3 else "")
    with rep.guard("law", cn, key):
        kw = dict(extra)
        v = {}
        for n in own:
            k = (nc,) if n == "coefs" else ()
            names = [f"{n}{i}" for i in range(nc)] if k else [n]
            kw[n] = new(k + ps, [var(x, "pos" if n in ("p", "q", "g0", "tau0") else "real") for x in names], "float", "D")
            v[n] = kw[n].cells() if k else kw[n].cells()[0]
        for n in scal:
            kw[n] = inputs(n, (), "pos")
            v[n] = kw[n].cells()[0]
        for n in tps:
            kw[n] = TPArg(n)
        req, opt, init = signature_of(c)
        for n, d_ in opt.items():
            if isinstance(d_, Func):
                kw[n] = FnArg(n)
        kw["scaling"] = FnArg("scaling")
        o = I.call(c, [], kw)
        t = inputs("T", ts, "pos")
        v["T"] = t.cells()[0]
        for n in tps:
            v[n] = app(n, [v["T"]])
        got = I.call(o, [t], {})
        shape = ps if name == "ConstantParameter" else broadcast_shapes(ps, ts)
        rep.equal_tensors("law", cn, key, got, (shape, [S("scaling", f(v))]), mwhere(c, "value"), "parameter value")
        with rep.guard("shape", cn, key):
            sh = I.getattr(o, "shape")
            w = kw[OWNSHAPE.get(name, own[0])].shape
            if name == "PolynomialScaling":
                w = w[1:]
            rep.fact("shape", cn, key, tuple(sh) == tuple(w), mwhere(c, "shape"), f"shape {fmtshape(sh)} instead of {fmtshape(w)}")


def positions(n):
    """ranks of a query relative to n ordered samples 0..n-1: on each and between each pair"""
    out = []
    for k in range(n):
        out.append(k)
        if k < n - 1:
            out.append(k + 0.5)
    return out


def piecewise(rep, I):
    c = I.get("temperature.PiecewiseScaling")
    cn = short_name(c)
    ns = (2, 3, 4, 7) + tuple(sizes.beyond(I, ("temperature",), 7, 24, 3)) + ((5, 9) if rep.tier == "thorough" else ())
    for n in ns:
        pos = positions(n)
        cases = [((len(pos),), pos), ((1,), [pos[1]]), ((), [pos[-1]]), ((2, len(pos)), pos + pos[::-1])]
        if rep.tier == "thorough" and n < 6:
            cases += [((2,), list(q)) for q in product(pos, pos)]
        cases = [(s, q, 0) for s, q in cases]
        # values for each member of the batch, as in the statistical models
        m = len(pos)
        cases += [((m,), pos, m), ((2,), [pos[1], pos[0]], 2), ((1,), [pos[1]], 1), ((2, m), pos + pos[::-1], m), ((m, 2), [x for k in range(m) for x in (pos[k], pos[-1 - k])], 2), ((3, 1), pos[:3], 1)]
        if n == 3:
            cases += [((2, 2, m), pos * 2 + pos[::-1] * 2, m), ((2, 2, 1), [pos[0], pos[1], pos[2], pos[-1]], 1)]
        for members in (0, 1, 2, 5):
            key = f"{n} control points" + (f", {members} members" if members else "")
            with rep.guard("shape", cn, key):
                lead = (members,) if members else ()
                o = I.call(c, [inputs("c", (n,)), inputs("v", lead + (n,))], {"values_scale_fn": FnArg("vs"), "scaling": FnArg("scaling")})
                sh = I.getattr(o, "shape")
                rep.fact("shape", cn, key, tuple(sh) == lead, mwhere(c, "shape"), f"shape {fmtshape(sh)} instead of {fmtshape(lead)}")
        for shape, q, members in cases:
            key = f"{n} control points, temperatures {fmtshape(shape)} at {q if len(q) < 4 else 'all positions'}" + (f", {members} members" if members else "")
            with rep.guard("piecewise", cn, key):
                saved = dict(tm.ORDER)
                try:
                    names = [f"c{k}" for k in range(n)]
                    for k in range(n):
                        tm.ORDER[f"c{k}"] = k
                    tn = []
                    for i, x in enumerate(q):
                        tn.append(f"T{i}@{x}")
                        tm.ORDER[tn[-1]] = x
                    ctl = new((n,), [var(x) for x in names], "float", "D")
                    of = [f"@{i % members}" if members else "" for i in range(len(q))]
                    who = [f"@{i}" for i in range(members)] or [""]
                    val = new(((members,) if members else ()) + (n,), [var(f"v{k}{w}") for w in who for k in range(n)], "float", "D")
                    o = I.call(c, [ctl, val], {"values_scale_fn": FnArg("vs"), "scaling": FnArg("scaling")})
                    t = new(shape, [var(x) for x in tn], "float", "D")
                    got = I.call(o, [t], {})
                    want = []
                    for x, nm, w in zip(q, tn, of):
                        if x == int(x):
                            e = S("vs", var(f"v{int(x)}{w}"))
                            # the query equals the sample
                        else:
                            k = int(x)
                            a, b = S("vs", var(f"v{k}{w}")), S("vs", var(f"v{k + 1}{w}"))
                            e = a + (b - a) * (var(nm) - var(f"c{k}")) / (var(f"c{k + 1}") - var(f"c{k}"))
                        want.append(S("scaling", e))
                    # a query on a sample is that sample
                    m = {nm: var(f"c{int(x)}") for x, nm in zip(q, tn) if x == int(x)}
                    got = new(got.shape, [tm.subst(z, m) for z in got.cells()], "float", "D")
                    rep.equal_tensors("piecewise", cn, key, got, (shape, want), mwhere(c, "value"), "interpolated value")
                finally:
                    tm.ORDER.clear()
                    tm.ORDER.update(saved)


def unscaled(t):
    return sorted({x.args[0] for x in tm.postorder([T(t)]) if x.op == "app" and str(x.args[0]).endswith(".unscaled")})


def scaled_use(rep, I, c, mod, methods):
    cn = short_name(c)
    batch = (SymSize("B"),)
    with rep.guard("scaled-use", cn, "construct"):
        for label, o, args in build(I, c, const=(False,)):
            nh = 0 if mod == "damage" else I.getattr(o, "nhist")
            p = point(batch, nh, ("s", "t", "ep", "T", "e"))
            p["d"] = inputs("d", batch, "unit")
            order = {"flowrules": ("s", "h", "t", "T", "e"), "hardening": ("s", "h", "t", "ep", "T", "e"), "damage": ("s", "d", "t", "T", "e")}[mod]
            for m in methods:
                key = f"{label} {m}".strip()
                with rep.guard("scaled-use", cn, key):
                    v = I.call(method(I, o, m), [p[k] for k in order], {})
                    v = v if isinstance(v, tuple) else (v,)
                    bad = sorted({u for x in v for cell in x.cells() for u in unscaled(cell)})
                    rep.fact("scaled-use", cn, key, not bad, mwhere(c, m), f"uses the unscaled value of {', '.join(b.split('.')[0] for b in bad)}")
