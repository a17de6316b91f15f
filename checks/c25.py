"""C25: noise and weights are assigned by test type; parameters by name."""
from .proba import *
from .c24 import make_single

MIXES = [(t,) for t in TYPES] + [("tensile", "tensile"), ("creep", "tensile"), ("direct_data", "relaxation", "direct_data"),
         ("strain_cyclic", "stress_cyclic"), TYPES, tuple(reversed(TYPES)), TYPES + tuple(reversed(TYPES)), ("abstract_tensile", "creep", "tensile", "creep")]
PARAMS = [("A", 0), ("b", 0)]
ORDERS = [[("A", 0)], [("A", 0), ("b", 0)], [("b", 0), ("A", 0)], [("z", 1), ("a", 0), ("m", 2)]]


def run(rep):
    rep.minimum = 120
    rep.rule("weights", "the likelihood of each test is scaled by the weight given for its type, by one without weights")
    rep.rule("noise", "the observations of each test have the noise level of its own type, or the single one given; inferred noise uses the drawn level")
    rep.rule("results", "the observations are centred at the formatted first component of the integrated model, driven by time, temperature and drive of the data in that order")
    rep.rule("observations", "the observations are conditioned on exactly the results given, and drawn and returned without them")
    rep.rule("undefined", "results that are not a number are replaced by zero exactly when this is asked for")
    rep.rule("order", "the maker receives one value per name, in the order of the names")
    rep.rule("reuse", "the same model serves one set of tests after another and assigns for each what a new model assigns")
    from .c27 import calibrated
    calibrated(rep, "reuse")
    rep.assume("the probabilistic primitives mean what their library documents")
    thorough = rep.tier == "thorough"
    mixes = MIXES if thorough else MIXES
    for mix in mixes:
        for w in ("none", "all", "shuffled"):
            for noise, inc in (("scalar", False), ("scalar", True), ("type", False), ("type", True)):
                if not thorough and w == "shuffled" and noise == "scalar":
                    continue
                hier(rep, mix, w, noise, inc)
        for noise in ("scalar", "type"):
            for nn in (False, True):
                one_level(rep, mix, noise, nn)
        deterministic(rep, mix, ORDERS[1])
    for o in ORDERS:
        deterministic(rep, MIXES[8], o)


def weights_of(w):
    if w == "none":
        return None
    k = list(range(len(TYPES)))
    if w == "shuffled":
        k = [3, 6, 0, 5, 1, 4, 2]
    return {TYPES[i]: float(2 + 3 * i) / 8 for i in k}


def hier(rep, mix, w, noise, inc):
    cn = "optimize.HierarchicalStatisticalModel"
    key = f"tests {','.join(mix) if mix != TYPES else 'of all types'}; weights {w}; {noise} noise{' inferred' if inc else ''}"
    I = fresh_interp()
    with rep.guard("weights", cn, key):
        D = Data(I, mix)
        H = Hier(I, PARAMS, D, noise, inc, None, weights_of(w))
        H.run_guide(H.guide())
        r, sites, _ = H.run_model()
        s = [x for x in sites if x.name == "obs"][0]
        sh = (D.nt, D.nb)
        # weights
        cells = [num(1)] * (D.nt * D.nb)
        for sc in s.scales:
            if len(sc.shape) > 2:
                rep.bad("weights", cn, key, fmtloc(s.loc), f"the scale has the shape {fmtshape(sc.shape)}")
                return
            cells = [a * b for a, b in zip(cells, broad(sc, sh).cells())]
        W = weights_of(w) or {t: 1.0 for t in TYPES}
        want = [T(W[mix[b]]) for _ in range(D.nt) for b in range(D.nb)]
        if not entries(rep, "weights", cn, key, s, cells, want, D, "weight"):
            return
        rep.ok("weights", cn, key, f"{D.nb} tests")
        # noise
        src = H.noise
        if inc:
            src = [x for x in sites if x.name == "eps"][0].value
        noise_of(rep, cn, key, s, src, noise, D)
        centre(rep, cn, key, I, s, D, H.maker, mwhere(H.cls, "forward"))
        ok, msg, und = same(r, D.formatted(I))
        if und:
            raise Undecided(und)
        if not ok:
            rep.bad("results", cn, key, mwhere(H.cls, "forward"), f"returned results: {msg}")


def entries(rep, rid, cn, key, s, got, want, D, what):
    for k, (g, v) in enumerate(zip(got, want)):
        g, v = T(g), T(v)
        if g is v:
            continue
        q = tm.equal(g, v)
        if q.status == tm.DIFFERENT:
            rep.bad(rid, cn, key, fmtloc(s.loc), f"{what} of test {k % D.nb} ({D.types[k % D.nb]}) is {short(g)} instead of {short(v)}")
            return False
        if q.status != tm.PROVED:
            raise Undecided(q.how)
    return True


def noise_of(rep, cn, key, s, src, noise, D):
    with rep.guard("noise", cn, key):
        got = broad(s.dist.params["scale"], (D.nt, D.nb)).cells()
        c = as_tensor(src).cells()
        want = [c[D.codes[D.types[b]]] if noise == "type" else c[0] for _ in range(D.nt) for b in range(D.nb)]
        if entries(rep, "noise", cn, key, s, got, want, D, "noise"):
            rep.ok("noise", cn, key, f"{D.nb} tests")


def centre(rep, cn, key, I, s, D, mk, w):
    with rep.guard("results", cn, key):
        got = s.dist.params["loc"]
        if tuple(got.shape) != (D.nt, D.nb):
            rep.bad("results", cn, key, w, f"results of shape {fmtshape(got.shape)}")
            return
        if entries(rep, "results", cn, key, s, got.cells(), D.formatted(I).cells(), D, "result") and driven(rep, cn, key, D, mk, w):
            rep.ok("results", cn, key, f"{D.nb} tests")


def driven(rep, cn, key, D, mk, w):
    if len(mk.solves) != 1 or mk.solves[0][0] is not mk.made[-1]:
        rep.bad("results", cn, key, w, f"the model is integrated {len(mk.solves)} times")
        return False
    n = D.nt * D.nb
    dc = D.data.cells()
    want = [new((D.nt, D.nb), dc[k * n:(k + 1) * n], "float", "D") for k in range(3)] + [D.control]
    for nm, g, v in zip(("times", "temperatures", "drive", "control"), mk.solves[0][1:], want):
        ok, msg, und = same(g, v)
        if not ok:
            rep.bad("results", cn, key, w, f"{nm} handed to the integration: {msg or und}")
            return False
    return True


def one_level(rep, mix, noise, nan_num):
    cn = "optimize.StatisticalModel"
    key = f"tests {','.join(mix) if mix != TYPES else 'of all types'}; {noise} noise" + ("; undefined values replaced" if nan_num else "")
    I = fresh_interp()
    with rep.guard("noise", cn, key):
        D, o, mk, locs, scales = make_single(I, PARAMS, noise, mix, nan_num)
        r = I.world.run(o, *(D.args() + [D.obs]), prefix="m")
        sites = list(I.world.sites)
        s = [x for x in sites if x.name == "obs"][0]
        val = {x.name: x.value for x in sites}
        eps = new((len(D.codes),) if noise == "type" else (), [var(f"noise{k}" if noise == "type" else "noise") for k in range(len(D.codes) if noise == "type" else 1)], "float", "D")
        noise_of(rep, cn, key, s, eps, noise, D)
        centre(rep, cn, key, I, s, D, mk, mwhere(o.cls, "forward"))
        observed(rep, cn, key, s, D, r)
    for flag in ((True,) if nan_num else (False, None)):
        undefined(rep, cn, key, mix, noise, flag)


def observed(rep, cn, key, s, D, r):
    with rep.guard("observations", cn, key):
        w = fmtloc(s.loc)
        if s.obs is None or s.obs.st is not D.obs.st and not same(s.obs, D.obs)[0]:
            rep.bad("observations", cn, key, w, "the observations are not conditioned on the given results")
        elif not same(r, D.obs)[0]:
            rep.bad("observations", cn, key, w, "the value returned is not the given results")
        else:
            rep.ok("observations", cn, key)


def undefined(rep, cn, key, mix, noise, flag):
    """results that are not a number become zero exactly on request; no results: nothing observed"""
    key = f"{key}; undefined results, replacement {'by default' if flag is None else flag}"
    with rep.guard("undefined", cn, key):
        I = fresh_interp()
        D, o, mk, locs, scales = make_single(I, PARAMS, noise, mix, flag)
        mk.nan = {(0, 0), (D.nt - 1, D.nb - 1)}
        r = I.world.run(o, *D.args(), prefix="m")
        s = [x for x in I.world.sites if x.name == "obs"][0]
        if s.obs is not None:
            rep.bad("observations", cn, key, fmtloc(s.loc), "the observations are conditioned without results")
        elif not same(r, s.value)[0]:
            rep.bad("observations", cn, key, fmtloc(s.loc), "the value returned is not the drawn observations")
        else:
            rep.ok("observations", cn, key)
        if not flag:
            # the numbers of the library cannot be centred at what is not a number, the results show it
            want = D.formatted(I, mk.nan, tm.NAN).cells()
        else:
            want = [num(0) if tm.strictly_nan(c) else c for c in D.formatted(I, mk.nan, tm.NAN).cells()]
        got = broad(s.dist.params["loc"], (D.nt, D.nb)).cells()
        for k, (g, v) in enumerate(zip(got, want)):
            if tm.strictly_nan(v) != tm.strictly_nan(g):
                rep.bad("undefined", cn, key, fmtloc(s.loc), f"the result of test {k % D.nb} at time {k // D.nb} is {short(g)} instead of {short(v)}")
                return
        if tm.strictly_nan(want[0]) or entries(rep, "undefined", cn, key, s, [g for g in got if not tm.strictly_nan(g)], [v for v in want if not tm.strictly_nan(v)], D, "result"):
            rep.ok("undefined", cn, key)


def deterministic(rep, mix, params):
    cn = "optimize.DeterministicModel"
    key = f"parameters {', '.join(f'{n}[{d}]' for n, d in params)}; tests {','.join(mix) if mix != TYPES else 'of all types'}"
    I = fresh_interp()
    with rep.guard("order", cn, key):
        D = Data(I, mix)
        mk = Maker(D.nt, D.nb, "D")
        ics = [prior(f"ic_{n}", d, "D") for n, d in params]
        c = I.get("optimize.DeterministicModel")
        w = mwhere(c, "forward")
        o = I.call(c, [mk.value(), [n for n, _ in params], ics], {})
        r = I.call(o, D.args(), {})
        m = mk.made[-1]
        if len(m.args) != len(params) or m.kw:
            rep.bad("order", cn, key, w, f"the maker receives {len(m.args)} values for {len(params)} names")
            return
        for k, ((n, d), ic) in enumerate(zip(params, ics)):
            p = I.getattr(o, n)
            if not isinstance(p, Tensor) or p.kind != "parameter" or not same(p, ic)[0]:
                rep.bad("order", cn, key, mwhere(c, "__init__"), f"{n} is not a parameter with its initial value")
                return
            a = m.args[k]
            if not isinstance(a, Tensor) or a.st is not p.st and not same(a, p)[0]:
                rep.bad("order", cn, key, w, f"argument {k} of the maker is not the parameter {n}")
                return
        rep.ok("order", cn, key, f"{len(params)} parameters")
        with rep.guard("results", cn, key):
            ok, msg, und = same(r, D.formatted(I))
            if und:
                raise Undecided(und)
            if not ok:
                rep.bad("results", cn, key, w, f"results: {msg}")
            elif driven(rep, cn, key, D, mk, w):
                rep.ok("results", cn, key, f"{D.nb} tests")
