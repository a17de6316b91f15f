"""C24: model, guide and parameter store agree on their sites."""
from .proba import *

PARAMS = [
    [("A", 0)],
    [("A", 0), ("B", 0)],
    [("B", 1), ("A", 0)],
    [("n", 0), ("C", 1), ("g", 1), ("W", 2)],
    [("W", 2)],
    # names that are prefixes of one another
    [("s", 0), ("s0", 1), ("ss", 0)],
]
SUFFIXES = [None, ("_mean", "_dev", "_p"), ("-l", "-s", "-x")]
MIXES = [("tensile",), ("tensile", "direct_data"), ("creep", "tensile", "strain_cyclic")]


def run(rep):
    rep.minimum = 250
    rep.rule("model", "the model draws, for each name, location ~ Normal(prior), scale ~ HalfNormal(prior) outside the plate and the value ~ Normal(location, scale) per test, all with the dimensions of the prior as event, the noise if it is inferred, and the observations")
    rep.rule("guide", "the guide draws exactly the latent sites of the model, with the same shapes, event dimensions and plates")
    rep.rule("parameters", "each guide site is a point mass at its own parameter, which starts at the prior; parameters of scales and noise are constrained positive")
    rep.rule("own memory", "no trainable parameter shares memory with a prior the user handed in or with another parameter")
    rep.rule("extra", "the extra parameters for the adjoint pass are exactly the unconstrained per-test values, known to the store, in the order of the names")
    rep.rule("prior", "without a guide the model draws the same sites from the prior, with no parameters for the adjoint pass")
    rep.rule("maker", "the model maker receives the values of the per-test sites in the order of the names")
    rep.rule("single level", "the single-level model draws each parameter once from its normal distribution, outside the plates")
    rep.assume("the probabilistic primitives mean what their library documents")
    thorough = rep.tier == "thorough"
    for params in PARAMS:
        for noise in ("scalar", "type"):
            for include in (False, True):
                for suf in SUFFIXES:
                    for mix in MIXES if thorough or len(params) < 3 else MIXES[1:2]:
                        hier(rep, params, noise, include, suf, mix)
                        if include and not thorough:
                            break
    for params in PARAMS[:3]:
        for noise in ("scalar", "type"):
            for mix in MIXES:
                single(rep, params, noise, mix)


def expected(H):
    """latent sites: name -> (kind, parameters, event dim, per test)"""
    out = {}
    sx = H.suffix
    for (n, d), ll, ls, ss in zip(H.params, H.ll, H.ls, H.ss):
        out[n + sx["loc"]] = ("Normal", {"loc": ll, "scale": ls}, d, False, ll, "real")
        out[n + sx["scale"]] = ("HalfNormal", {"scale": ss}, d, False, ss, "positive")
        out[n] = ("Normal", None, d, True, ll, "real")
    if H.include:
        out["eps"] = ("HalfNormal", {"scale": H.noise}, 1 if H.ntype == "type" else 0, False, H.noise, "positive")
    return out


def plates(s):
    return [(p[0], p[1], p[2]) for p in s.plates]


def hier(rep, params, noise, include, suf, mix):
    cn = "optimize.HierarchicalStatisticalModel"
    key = f"parameters {', '.join(f'{n}[{d}]' for n, d in params)}; {noise} noise{' inferred' if include else ''}; suffixes {suf or 'default'}; tests {','.join(mix)}"
    I = fresh_interp()
    D = Data(I, mix)
    with rep.guard("model", cn, key):
        H = Hier(I, params, D, noise, include, suf)
        wf, wg, we = mwhere(H.cls, "forward"), mwhere(H.cls, "make_guide"), mwhere(H.cls, "get_extra_params")
        want = expected(H)
        g = H.guide()
        gs, guses = H.run_guide(g)
        par = dict(H.W.params)
        # ------------------------------------------------ guide
        names = [s.name for s in gs]
        bad = diffnames(names, want)
        if bad:
            rep.bad("guide", cn, key, fmtloc(bad_loc(gs, bad)) or wg, bad)
            return
        for s in gs:
            kind, _, d, per, init, cons = want[s.name]
            if s.obs is not None or s.dist.kind != "Delta":
                rep.bad("parameters", cn, key, fmtloc(s.loc), f"guide site {s.name} is not a point mass")
                return
            if s.dist.event != d:
                rep.bad("guide", cn, key, fmtloc(s.loc), f"site {s.name} has {s.dist.event} event dimensions instead of {d}")
                return
            p = [q for q in par.values() if same_storage(q.value, s.dist.params["v"])]
            if len(p) != 1:
                rep.bad("parameters", cn, key, fmtloc(s.loc), f"guide site {s.name} is not at a parameter of the store")
                return
            p = p[0]
            if p.name != s.name + H.suffix["param"]:
                rep.bad("parameters", cn, key, fmtloc(p.loc), f"guide site {s.name} is at the parameter {p.name}")
                return
            if cons == "positive" and p.constraint != "positive":
                rep.bad("parameters", cn, key, fmtloc(p.loc), f"parameter {p.name} is constrained {p.constraint} instead of positive")
                return
            if cons == "real" and p.constraint != "real":
                rep.bad("parameters", cn, key, fmtloc(p.loc), f"parameter {p.name} is constrained {p.constraint}")
                return
            start = init
            if per:
                start = broad(init, (D.nb,) + tuple(init.shape))
            ok, msg, und = same(p.init, start)
            if not ok:
                if und:
                    rep.und("parameters", cn, key, und)
                    continue
                rep.bad("parameters", cn, key, fmtloc(p.loc), f"parameter {p.name} starts at a value: {msg}")
                return
        rep.fact("model", cn, key + " nparams", I.getattr(H.o, "nparams") == len(params), mwhere(H.cls, "nparams"), "nparams is not the number of names")
        rep.ok("guide", cn, key, f"{len(gs)} sites")
        rep.ok("parameters", cn, key, f"{len(par)} parameters")
        # ------------------------------------------------ memory
        given = {}
        for lst, what in ((H.ll, "location prior"), (H.ls, "scale prior of the mean"), (H.ss, "scale prior"), ([H.noise], "noise prior")):
            for t in lst:
                given[id(t.st)] = what
        for t in D.args() + [D.obs]:
            given[id(t.st)] = "data"
        seen = {}
        for p in par.values():
            for m in memory(p.unconstrained.st):
                if m in given:
                    rep.bad("own memory", cn, key, fmtloc(p.loc), f"parameter {p.name} is stored in the memory of the {given[m]}: optimising it changes the prior")
                    return
                if m in seen:
                    rep.bad("own memory", cn, key, fmtloc(p.loc), f"parameters {p.name} and {seen[m]} share their memory")
                    return
            for m in memory(p.unconstrained.st):
                seen[m] = p.name
        rep.ok("own memory", cn, key, f"{len(par)} parameters")
        # ------------------------------------------------ extra parameters
        ex = [as_tensor(x) for x in I.iterate(I.call(I.getattr(H.o, "get_extra_params"), [], {}))]
        wantp = [par[n + H.suffix["param"]] for n, _ in params]
        if len(ex) != len(wantp) or any(x.st is not p.unconstrained.st for x, p in zip(ex, wantp)):
            rep.bad("extra", cn, key, we, f"the extra parameters are {[owner(x, par) for x in ex]} instead of the unconstrained {[p.name for p in wantp]}")
            return
        rep.ok("extra", cn, key, f"{len(ex)} parameters")
        # ------------------------------------------------ model
        for obs in (True, False):
            r, ms, muses = H.run_model(obs)
            extra = [n for n in H.W.params if n not in par]
            if extra:
                rep.bad("extra", cn, key, wf, f"the model creates the parameter {extra[0]}")
                return
            lat = [s for s in ms if s.name != "obs"]
            o = [s for s in ms if s.name == "obs"]
            bad = diffnames([s.name for s in lat], want)
            if bad:
                rep.bad("model", cn, key, fmtloc(bad_loc(ms, bad)) or wf, bad)
                return
            if len(o) != 1:
                rep.bad("model", cn, key, wf, f"{len(o)} observation sites")
                return
            val = {s.name: s for s in lat}
            gv = {s.name: s for s in gs}
            for s in lat:
                kind, prm, d, per, init, cons = want[s.name]
                if prm is None:
                    prm = {"loc": val[s.name + H.suffix["loc"]].value, "scale": val[s.name + H.suffix["scale"]].value}
                if s.obs is not None or s.dist.kind != kind:
                    rep.bad("model", cn, key, fmtloc(s.loc), f"site {s.name} is {s.dist.kind} instead of {kind}")
                    return
                for q, v in prm.items():
                    ok, msg, und = same(broad(s.dist.params[q], s.dist.shape()), broad(v, s.dist.shape()))
                    if not ok and not und:
                        rep.bad("model", cn, key, fmtloc(s.loc), f"{q} of site {s.name}: {msg}")
                        return
                    if und:
                        raise Undecided(und)
                if s.dist.event != d:
                    rep.bad("model", cn, key, fmtloc(s.loc), f"site {s.name} has {s.dist.event} event dimensions instead of {d}")
                    return
                if bool(s.plates) != per or (per and (len(s.plates) != 1 or ext_of(s.plates[0][1]) != D.nb or s.plates[0][2] != -1)):
                    rep.bad("model", cn, key, fmtloc(s.loc), f"site {s.name} is drawn in the plates {plates(s)}")
                    return
                t = gv[s.name]
                if plates(t) != plates(s):
                    rep.bad("guide", cn, key, fmtloc(t.loc), f"site {s.name} is drawn in the plates {plates(t)} by the guide and {plates(s)} by the model")
                    return
                if tuple(t.value.shape) != tuple(s.value.shape):
                    rep.bad("guide", cn, key, fmtloc(t.loc), f"site {s.name} has the shape {fmtshape(t.value.shape)} in the guide and {fmtshape(s.value.shape)} in the model")
                    return
            s = o[0]
            if s.dist.kind != "Normal" or s.dist.event != 0 or sorted((ext_of(p[1]), p[2]) for p in s.plates) != sorted([(D.nb, -1), (D.nt, -2)]):
                rep.bad("model", cn, key, fmtloc(s.loc), f"the observations are {s.dist.kind} with {s.dist.event} event dimensions in the plates {plates(s)}")
                return
            if (s.obs is not None) != obs or (obs and s.obs.st is not D.obs.st and not same(s.obs, D.obs)[0]):
                rep.bad("model", cn, key, fmtloc(s.loc), "the observations are not conditioned on the given results" if obs else "the observations are conditioned without results")
                return
            # ---- maker
            m = H.maker.made[-1]
            for k, n in enumerate(H.names):
                if k >= len(m.args) or not same(m.args[k], val[n].value)[0]:
                    rep.bad("maker", cn, key, wf, f"argument {k} of the maker is not the value of {n}")
                    return
            e = m.kw.get("extra_params")
            e = [as_tensor(x) for x in I.iterate(e)] if e is not None else []
            if len(m.args) != len(H.names) or len(e) != len(wantp) or any(x.st is not p.unconstrained.st for x, p in zip(e, wantp)):
                rep.bad("maker", cn, key, wf, f"the maker gets the extra parameters {[owner(x, par) for x in e]}")
                return
            rep.ok("model", cn, key + ("" if obs else "; without results"), f"{len(ms)} sites")
            rep.ok("maker", cn, key + ("" if obs else "; without results"))
        # ---- the guide again: the same store
        gs2, _ = H.run_guide(g, prefix="h")
        if sorted(H.W.params) != sorted(par):
            rep.bad("parameters", cn, key, wg, "a second run of the guide creates other parameters")
            return
    # before there is a guide the model draws from the prior
    with rep.guard("prior", cn, key):
        I3 = fresh_interp()
        H3 = Hier(I3, params, Data(I3, mix), noise, include, suf)
        for obs in (False, True):
            r, ms, _ = H3.run_model(obs)
            bad = diffnames([s.name for s in ms if s.name != "obs"], want)
            e = H3.maker.made[-1].kw.get("extra_params")
            if bad:
                rep.bad("prior", cn, key, wf, "without a guide: " + bad)
                return
            if H3.W.params or e is not None and list(I3.iterate(e)):
                rep.bad("prior", cn, key, wf, "without a guide the maker gets extra parameters")
                return
        rep.ok("prior", cn, key)
    # without the guide the store does not know the values
    with rep.guard("extra", cn, key):
        I2 = fresh_interp()
        H2 = Hier(I2, params, Data(I2, mix), noise, include, suf)
        H2.guide()
        try:
            I2.call(I2.getattr(H2.o, "get_extra_params"), [], {})
        except PyRaise:
            rep.ok("extra", cn, key + "; before the guide")
        else:
            rep.bad("extra", cn, key, we, "parameters that are not in the store are returned")


def memory(st, out=None):
    """identities of the storages that are the same memory"""
    out = set() if out is None else out
    if id(st) not in out:
        out.add(id(st))
        for o, _, _ in st.mirrors or ():
            memory(o, out)
    return out


def ext_of(n):
    return int(numval(T(n))) if isinstance(n, Tensor) else n


def diffnames(names, want):
    dup = [n for n in names if names.count(n) > 1]
    if dup:
        return f"site {dup[0]} is drawn twice"
    for n in want:
        if n not in names:
            return f"site {n} is not drawn"
    for n in names:
        if n not in want:
            return f"site {n} is drawn, which is no site of the model"
    return None


def bad_loc(sites, msg):
    for s in sites:
        if f"site {s.name} " in msg:
            return s.loc
    return None


def same_storage(a, b):
    return a.st is b.st and set(b.indices()) <= set(a.indices())


def owner(x, par):
    for p in par.values():
        if x.st is p.unconstrained.st:
            return p.name
        if x.st is p.value.st:
            return p.name + " (constrained)"
    return "?"


def single(rep, params, noise, mix):
    cn = "optimize.StatisticalModel"
    key = f"parameters {', '.join(f'{n}[{d}]' for n, d in params)}; {noise} noise; tests {','.join(mix)}"
    I = fresh_interp()
    with rep.guard("single level", cn, key):
        D, o, mk, locs, scales = make_single(I, params, noise, mix)
        wf = mwhere(o.cls, "forward")
        r = I.world.run(o, *(D.args() + [D.obs]), prefix="m")
        sites = list(I.world.sites)
        lat = {s.name: s for s in sites if s.name != "obs"}
        bad = diffnames([s.name for s in sites if s.name != "obs"], {n: 1 for n, _ in params})
        if bad:
            rep.bad("single level", cn, key, wf, bad)
            return
        for (n, d), l, c in zip(params, locs, scales):
            s = lat[n]
            if s.plates or s.dist.kind != "Normal" or not same(s.dist.params["loc"], l)[0] or not same(s.dist.params["scale"], c)[0]:
                rep.bad("single level", cn, key, fmtloc(s.loc), f"site {n} is {s.dist.kind} in the plates {plates(s)}")
                return
        m = mk.made[-1]
        if len(m.args) != len(params) or any(not same(a, lat[n].value)[0] for a, (n, _) in zip(m.args, params)):
            rep.bad("single level", cn, key, wf, "the maker does not receive the drawn parameters in the order of the names")
            return
        ob = [s for s in sites if s.name == "obs"]
        if len(ob) != 1 or ob[0].dist.kind != "Normal" or sorted((ext_of(p[1]), p[2]) for p in ob[0].plates) != sorted([(D.nb, -1), (D.nt, -2)]):
            rep.bad("single level", cn, key, wf, "the observations are not drawn once per test and time")
            return
        rep.ok("single level", cn, key, f"{len(sites)} sites")


def make_single(I, params, noise, mix, nan_num=None):
    D = Data(I, mix)
    mk = Maker(D.nt, D.nb, "D")
    locs = [prior(f"l_{n}", d, "D") for n, d in params]
    scales = [prior(f"s_{n}", d, "D", "pos") for n, d in params]
    nc = len(D.codes)
    eps = new((nc,) if noise == "type" else (), [var(f"noise{k}" if noise == "type" else "noise", "pos") for k in range(nc if noise == "type" else 1)], "float", "D")
    o = I.call(I.get("optimize.StatisticalModel"), [mk.value(), [n for n, _ in params], locs, scales, eps], {} if nan_num is None else {"nan_num": True} if nan_num else {"nan_num": False})
    return D, o, mk, locs, scales
