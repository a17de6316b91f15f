"""The public evaluations of the package, as cases with their arguments.

A case owns the objects and tensors a caller hands in and a thunk performing
the call; used by the effect, batch, device and gradient analyses."""
from .common import *
from .integ import Tap, rhs, times, y0_of
from .c31 import Net, Force
from itertools import product
from fractions import Fraction


class Case:
    def __init__(self, construct, key, where, given, call, vary=(), batch=(), kind="rate", rows=None):
        self.construct, self.key, self.where, self.given, self.call = construct, key, where, given, call
        self.vary = vary          # base names of the per-entry variables
        self.batch = batch
        self.kind = kind
        self.fresh = None         # gives the call a new environment, such as an empty parameter store


def label(batch):
    """suffixes of the variables of each entry"""
    idx = [""]
    if all(isinstance(d, SymSize) for d in batch):
        return idx
    idx = [()]
    for d in batch:
        idx = [i + (k,) for i in idx for k in range(ext(d))]
    return ["@" + "_".join(map(str, i)) for i in idx]


def vec(name, batch, n=None, kind="real", dev="D"):
    """one variable per entry (and component)"""
    names = [name] if n is None else [f"{name}{k}" for k in range(n)]
    return new(tuple(batch) + (() if n is None else (n,)), [var(x + s, kind) for s in label(batch) for x in names], "float", dev)


KINDS = {"T": "pos", "t": "pos", "d": "unit"}


def args_of(names, batch, nh, dev):
    return {n: vec(n, batch, nh if n == "h" else None, KINDS.get(n, "real"), dev) for n in names}


def vary_of(names, nh):
    return [x for n in names for x in ([f"h{k}" for k in range(nh)] if n == "h" else [n])]


FLOW = ("s", "h", "t", "T", "e")
HARD = ("s", "h", "t", "ep", "T", "e")
DAM = ("s", "d", "t", "T", "e")
METHODS = {
    "flowrules": ("FlowRule", {m: FLOW for m in ("flow_rate", "dflow_dhist", "dflow_derate", "history_rate", "dhist_dstress", "dhist_derate")}),
    "hardening": ("HardeningModel", {"value": ("h",), "dvalue": ("h",), **{m: HARD for m in ("history_rate", "dhistory_rate_dstress", "dhistory_rate_dhistory", "dhistory_rate_derate", "dhistory_rate_dtotalrate")}}),
    "damage": ("DamageModel", {m: DAM for m in ("damage_rate", "d_damage_rate_d_s", "d_damage_rate_d_e")}),
}


def rates(I, batch, dev="D", tiny=False):
    for mod, (base, methods) in METHODS.items():
        for c in I.classes(mod, base):
            if any(c.lookup(m)[0] is None for m in methods):
                continue
            yield from section(class_rates, I, batch, dev, mod, c, methods, tiny)


def class_rates(I, batch, dev, mod, c, methods, tiny=False):
    for lab, o, args in kept(lambda: build(I, c, tiny=tiny, labels=True)):
        nh = 0 if mod == "damage" else I.getattr(o, "nhist")
        for m, names in methods.items():
            a = args_of(names, batch, nh, dev)
            yield Case(short_name(c), f"{lab} {m}".strip(), mwhere(c, m), dict(a, object=o, **{f"arg_{k}": v for k, v in args.items()}),
                       lambda o=o, m=m, a=a: I.call(method(I, o, m), list(a.values()), {}), vary_of(names, nh), batch)


def materials(I, batch, dev="D"):
    """strain based constitutive models over contract components"""
    for name, mk in (("InelasticModel", lambda: [TPArg("E", const=False, device=dev), FlowRuleC("fr", 2)]),
                     ("InelasticModel", lambda: [TPArg("E", const=True, device=dev), FlowRuleC("fr", 0)]),
                     ("InelasticModel", lambda: [TPArg("E", const="member", device=dev, labels=True), FlowRuleC("fr", 3)]),
                     ("DamagedInelasticModel", lambda: [TPArg("E", const=False, device=dev), FlowRuleC("fr", 2), DamageC("dm")]),
                     ("DamagedInelasticModel", lambda: [TPArg("E", const=True, device=dev), FlowRuleC("fr", 1), DamageC("dm")]),
                     ("DamagedInelasticModel", lambda: [TPArg("E", const="member", device=dev, labels=True), FlowRuleC("fr", 3), DamageC("dm")])):
        yield from section(one_material, I, batch, dev, name, mk)


def one_material(I, batch, dev, name, mk):
    c = I.get("models." + name)
    a = mk()
    dmg = name.startswith("Damaged")
    o = made(I, c, a[:2], {"dmodel": a[2]} if dmg else {})
    n = I.getattr(o, "nhist")
    yield material_case(I, "models." + name, f"size {n}", mwhere(c, "forward"), o, n, batch, dev, dmg, {f"arg{k}": x for k, x in enumerate(a)})


def ystate(batch, n, damaged, dev):
    y = vec("y", batch, n, "real", dev)
    if damaged:
        for s in label(batch):
            var(f"d{s}", "unit")
        c = [var("d" + x.args[0][len(f"y{n - 1}"):]) if i % n == n - 1 else x for i, x in enumerate(y.cells())]
        y = new(y.shape, c, "float", dev)
    return y


def material_case(I, cn, key, w, o, n, batch, dev, damaged, extra):
    y = ystate(batch, n, damaged, dev)
    t, e, T_ = vec("t", batch, None, "pos", dev), vec("e", batch, None, "real", dev), vec("T", batch, None, "pos", dev)
    return Case(cn, key + (" damaged" if damaged else ""), w, dict(t=t, y=y, erate=e, T=T_, object=o, **extra),
                lambda: I.call(o, [t, y, e, T_], {}), ["t", "e", "T", "d"] + [f"y{k}" for k in range(n)], batch, "material")


def P(I, name, kind="pos", n=None, dev="D", shape=()):
    """a constant temperature parameter with the default (identity) scaling"""
    c = [var(name if n is None else f"{name}{k}", kind) for k in range(n or 1)]
    t = new(shape if n is None else (n,), c, "float", dev)
    t.kind = "parameter"
    return t, made(I, I.get("temperature.ConstantParameter"), [t], {})


def assembled(I, batch, dev="D"):
    """models put together from real components with constant parameters"""
    def p(name, kind="pos", n=None):
        t, o = P(I, name, kind, n, dev)
        while name in raw:
            name += "'"
        raw[name] = t
        return o

    def get(n, *a, **k):
        return made(I, I.get(n), list(a), k)

    def sc(x):
        t = new((), [var(x, "pos")], "float", dev)
        raw[x] = t
        return t

    def iso():
        return get("flowrules.IsoKinViscoplasticity", p("n"), p("eta"), p("s0"),
                   get("hardening.VoceIsotropicHardeningModel", p("R"), p("dd")),
                   get("hardening.ChabocheHardeningModel", p("C", n=2), p("g", n=2)))

    def both():
        return get("hardening.SuperimposedKinematicHardening", [get("hardening.FAKinematicHardeningModel", p("fC"), p("fg"), p("fb"), p("fr")),
                                                                get("hardening.ChabocheHardeningModel", p("C", n=2), p("g", n=2))])

    def theta():
        return get("flowrules.IsoKinViscoplasticity", p("n"), p("eta"), p("s0"),
                   get("hardening.Theta0VoceIsotropicHardeningModel", p("tau"), p("theta")), both())

    rules = {
        "perfect": lambda: get("flowrules.PerfectViscoplasticity", p("n"), p("eta")),
        "isotropic and Chaboche": iso,
        "Theta0 Voce, superposed kinematic": theta,
        "no hardening": lambda: get("flowrules.IsoKinViscoplasticity", p("n"), p("eta"), p("s0"), get("hardening.VoceIsotropicHardeningModel", p("R"), p("dd")), get("hardening.NoKinematicHardeningModel")),
        "Kocks-Mecking": lambda: get("flowrules.KocksMeckingRegimeFlowRule", iso(), iso(), sc("g0"), p("mu"), sc("b"), sc("eps0"), sc("k")),
        "soft Kocks-Mecking": lambda: get("flowrules.SoftKocksMeckingRegimeFlowRule", iso(), iso(), sc("g0"), p("mu"), sc("b"), sc("eps0"), sc("k"), sc("sf")),
        "rate independent wrapper": lambda: get("flowrules.RateIndependentFlowRuleWrapper", iso(), sc("lmbda"), sc("eps_ref")),
        "superposed": lambda: get("flowrules.SuperimposedFlowRule", [iso(), get("flowrules.PerfectViscoplasticity", p("n2"), p("eta2"))]),
    }
    def assembly(nm, mk, dm):
        nonlocal raw
        raw = {}
        fr = mk()
        E = p("E")
        cn = "models.InelasticModel" if dm is None else "models.DamagedInelasticModel"
        o = get(cn, E, fr, **({} if dm is None else {"dmodel": dm()}))
        n = I.getattr(o, "nhist")
        yield material_case(I, cn, nm, mwhere(I.get(cn), "forward"), o, n, batch, dev, dm is not None, dict(raw))

    raw = {}
    for nm, mk in rules.items():
        yield from section(assembly, nm, mk, None)
    for nm, dm in (("Hayhurst-Leckie", lambda: get("damage.HayhurstLeckie", p("A"), p("xi"), p("phi"))), ("no damage", lambda: get("damage.NoDamage"))):
        yield from section(assembly, nm, iso, dm)


def temperatures(I, batch, dev="D"):
    from .c07 import LAWS, OWNSHAPE
    for name, (own, scal, tps, extra, f) in LAWS.items():
        c = I.get("temperature." + name)
        for fns in (True, False):
            kw = dict(extra)
            for n in own:
                k = (3,) if n == "coefs" else ()
                names = [f"{n}{i}" for i in range(3)] if k else [n]
                kw[n] = new(k, [var("p_" + x, "pos" if n in ("p", "q", "g0", "tau0") else "real") for x in names], "float", dev)
                kw[n].kind = "parameter"
            for n in scal:
                kw[n] = inputs("p_" + n, (), "pos", dev)
            for n in tps:
                kw[n] = TPArg("p_" + n, device=dev)
            if fns:
                req, opt, init = signature_of(c)
                for n, d_ in opt.items():
                    if isinstance(d_, Func):
                        kw[n] = FnArg(n)
                kw["scaling"] = FnArg("scaling")
            o = made(I, c, [], kw)
            t = vec("T", batch, None, "pos", dev)
            yield Case(short_name(c), "forward" + (" with scaling functions" if fns else ""), mwhere(c, "value"), dict(kw, T=t, object=o),
                       lambda o=o, t=t: I.call(o, [t], {}), ["T"], batch, "constant" if name == "ConstantParameter" else "temperature")
    c = I.get("temperature.PiecewiseScaling")
    for fns in (True, False):
        for shift in range(len(PLACES)):
            ctl = new((3,), [var(f"ctl{k}") for k in range(3)], "float", dev)
            val = new((3,), [var(f"val{k}") for k in range(3)], "float", dev)
            val.kind = "parameter"
            kw = {"values_scale_fn": FnArg("vs"), "scaling": FnArg("scaling")} if fns else {}
            o = made(I, c, [ctl, val], kw)
            t = vec("Tq", batch, None, "real", dev)
            ranks = {f"ctl{k}": k for k in range(3)}
            ranks.update({z.args[0]: PLACES[(shift + 3 * q) % len(PLACES)] for q, z in enumerate(t.cells())})
            case = Case(short_name(c), f"forward, temperatures from place {PLACES[shift]} on" + (" with scaling functions" if fns else ""), mwhere(c, "value"), dict(kw, control=ctl, values=val, T=t, object=o),
                       ranked(ranks, lambda o=o, t=t: I.call(o, [t], {})), ["Tq"], batch, "piecewise")
            case.places = [PLACES[(shift + 3 * q) % len(PLACES)] for q in range(t.ncells())]
            case.fns = fns
            yield case


PLACES = (0, 0.5, 1, 1.5, 2)


def scalings(I, batch, dev="D"):
    def s(n, kind="pos"):
        return new((), [var(n, kind)], "float", dev)

    for name, a in (("SimpleScalingFunction", ["sc"]), ("BoundedScalingFunction", ["lo", "hi"]), ("LogBoundedScalingFunction", ["lo", "hi"])):
        c = I.get("scaling." + name)
        for clamp in ((None,) if len(a) == 1 else (True, False)):
            ps = {n: s(n) for n in a}
            o = made(I, c, list(ps.values()), {} if clamp is None else {"clamp": clamp})
            for m in ("scale", "unscale", "__call__", "scale_mean", "scale_stat"):
                x = vec("x", batch, None, "pos", dev)
                g = dict(ps, x=x, object=o)
                extra = []
                if m.startswith("scale_"):
                    g["scl"] = vec("scl", batch, None, "pos", dev)
                    extra = [g["scl"]]
                yield Case(short_name(c), f"{m} clamp={clamp}", mwhere(c, m if m != "__call__" else "forward"), g,
                           lambda o=o, m=m, x=x, extra=extra: I.call(o if m == "__call__" else method(I, o, m), [x] + extra, {}), ["x", "scl"], batch, "print" if m == "scale_stat" else "scaling")
    for name, mk in (("bounded_scale_function", lambda p: [(p["lo"], p["hi"])]), ("bound_factor", lambda p: [p["mean"], p["fac"]]), ("clamp_scale_function", lambda p: [(p["lo"], p["hi"])]),
                     ("bound_and_scale", lambda p: [p["sc"], (p["lo"], p["hi"])]), ("log_bound_and_scale", lambda p: [p["sc"], (p["lo"], p["hi"])])):
        f = I.get("optimize." + name)
        for mb in ((False, True) if name in ("bounded_scale_function", "bound_factor") else (False,)):
            ps = {n: s(n) for n in ("lo", "hi", "sc", "mean", "fac", "mb")}
            x = vec("x", batch, None, "pos", dev)

            def call(f=f, mk=mk, ps=ps, x=x, mb=mb):
                return I.call(I.call(f, mk(ps), {"min_bound": ps["mb"]} if mb else {}), [x], {})
            yield Case("optimize." + name, "call" + (" with minimum" if mb else ""), where_func(f), dict(ps, x=x), call, ["x"], batch, "scaling")


def controls(I, batch, dev="D"):
    """the control wrappers at an arbitrary root of their nonlinear solve"""
    from .c05 import Root, CurveC
    if not batch:
        return
    for name in ("StrainBasedModel", "StressBasedModel", "BothBasedModel"):
        for n in (1, 3):
            c = I.get("models." + name)
            fns = {"StrainBasedModel": ["erate", "T"], "StressBasedModel": ["srate", "stress", "T"], "BothBasedModel": ["rate", "base", "T"]}[name]
            a = [InelasticC("model", n)] + [CurveC(x) for x in fns]
            g = {}
            if name == "BothBasedModel":
                if isinstance(batch[-1], SymSize):
                    continue
                g["control"] = new((batch[-1],), [num(k % 2) for k in range(batch[-1])], "float", dev)
                a.append(g["control"])
            o = made(I, c, a, {})
            t, y = vec("t", batch, None, "pos", dev), vec("y", batch, n, "real", dev)

            def call(o=o, t=t, y=y):
                saved = dict(I.intercepts)
                Root(I)
                try:
                    return I.call(o, [t, y], {})
                finally:
                    I.intercepts.clear()
                    I.intercepts.update(saved)
            yield Case("models." + name, f"size {n}", mwhere(c, "forward"), dict(g, t=t, y=y, object=o), call, ["t"] + [f"y{k}" for k in range(n)], batch, "control")


def neural(I, batch, dev="D"):
    c = I.get("neuralode.NeuralODE")
    for n, nf in ((1, 1), (2, 1), (3, 2)):
        o = made(I, c, [Net("net", [n + nf], n), Force(nf)], {})
        t, y = vec("t", batch, None, "pos", dev), vec("y", batch, n, "real", dev)
        yield Case("neuralode.NeuralODE", f"size {n} force {nf}", mwhere(c, "forward"), dict(t=t, y=y, object=o), lambda o=o, t=t, y=y: I.call(o, [t, y], {}), ["t"] + [f"y{k}" for k in range(n)], batch, "neural")


def pointwise(I, batch, dev="D"):
    """every evaluation that treats batch entries one by one"""
    for g in (rates, materials, assembled, temperatures, scalings, controls, neural):
        yield from section(g, I, batch, dev)


class Broken(Abstract):
    """an object whose construction the analysis could not follow: using it
    reports what went wrong, so that only its own cases stay open"""

    def __init__(self, e):
        self.e = e

    def sa_getattr(self, I, name):
        raise self.e

    def sa_call(self, I, args, kw):
        raise self.e

    def sa_getitem(self, I, k):
        raise self.e


class Keep:
    """the objects one enumeration of the cases makes, used by a second one"""
    now = None

    def __init__(self):
        self.log, self.pos = [], None

    def __enter__(self):
        Keep.now = self
        return self

    def __exit__(self, *a):
        Keep.now = None
        self.pos = 0
        return False

    def one(self, mk):
        if self.pos is None:
            self.log.append(mk())
            return self.log[-1]
        if self.pos == len(self.log):
            raise Undecided("the second enumeration makes other objects")
        self.pos += 1
        return self.log[self.pos - 1]


def kept(mk):
    return mk() if Keep.now is None else Keep.now.one(lambda: list(mk()))


def made(I, c, args, kw):
    def mk():
        try:
            return I.call(c, args, kw)
        except FAILS as e:
            return Broken(e)
    return mk() if Keep.now is None else Keep.now.one(mk)


FAILS = (Undecided, SymBranch, PyRaise, ShapeError)


def section(g, *a):
    """the cases of g; if preparing one fails that is a case of its own"""
    it = g(*a)
    while True:
        try:
            c = next(it)
        except StopIteration:
            return
        except FAILS as e:
            def call(e=e):
                raise e
            yield Case("catalogue." + g.__name__, "preparation" + "".join(f" {x}" for x in a if isinstance(x, str)), "", {}, call, kind="broken")
            return
        yield c


# ---------------------------------------------------------------- the rest
ORDERED = ("ctl", "Tq")


class Ranks:
    """orders variables for the duration of a call"""

    def __init__(self, ranks):
        self.ranks = ranks

    def __enter__(self):
        self.saved = dict(tm.ORDER)
        tm.ORDER.update(self.ranks)
        # the same places under the names of a second history
        tm.ORDER.update({n + "~": x for n, x in self.ranks.items()})

    def __exit__(self, *a):
        tm.ORDER.clear()
        tm.ORDER.update(self.saved)
        return False


def ranked(ranks, f):
    def call():
        with Ranks(ranks):
            return f()
    return call


def keep_intercepts(I, f):
    """intercepts set by f last for the call only"""
    def call():
        saved = dict(I.intercepts)
        try:
            return f()
        finally:
            I.intercepts.clear()
            I.intercepts.update(saved)
    return call


def grid(name, shape, dev="D", kind="real"):
    idx = [()]
    for n in shape:
        idx = [i + (k,) for i in idx for k in range(n)]
    return new(tuple(shape), [var(name + "_".join(map(str, i)), kind) for i in idx], "float", dev)


def interpolators(I, dev="D"):
    for c in ("ArbitraryBatchTimeSeriesInterpolator", "BatchTimeSeriesInterpolator", "CheaterBatchTimeSeriesInterpolator"):
        for n, nb in ((2, 1), (3, 1), (3, 2)):
            for x in (0.5, n - 1, 0):
                leads = [()] + ([(1,), (2,)] if c.startswith("Arb") else [])
                for lead in leads:
                    ranks = {f"t{k}_{b}": k for k in range(n) for b in range(nb)}
                    t, v = grid("t", (n, nb), dev), grid("v", (n, nb), dev)
                    q = grid("q", lead + (nb,), dev)
                    ranks.update({z.args[0]: x for z in q.cells()})
                    o = made(I, I.get("utility." + c), [t, v], {})
                    yield Case("utility." + c, f"{n} samples, {nb} members, query {fmtshape(q.shape)} at {x}", mwhere(I.get("utility." + c), "forward"), dict(times=t, values=v, t=q, object=o),
                               ranked(ranks, lambda o=o, q=q: I.call(o, [q], {})), kind="interpolator")
    for n, nb in ((2, 1), (3, 1), (3, 2)):
        for x in (0.5, n - 1, 0):
            f = I.get("utility.timeseries_interpolate_batch_times")
            t, v, q = grid("t", (n, nb), dev), grid("v", (n, nb), dev), grid("q", (nb,), dev)
            ranks = {f"t{k}_{b}": k for k in range(n) for b in range(nb)}
            ranks.update({z.args[0]: x for z in q.cells()})
            yield Case("utility.timeseries_interpolate_batch_times", f"{n} samples, {nb} members, query at {x}", where_func(f), dict(times=t, values=v, t=q), ranked(ranks, lambda f=f, t=t, v=v, q=q: I.call(f, [t, v, q], {})), kind="interpolator")
            f = I.get("utility.timeseries_interpolate_single_times")
            t, v, q = grid("t", (n,), dev), grid("v", (n, nb), dev), new((), [var("q")], "float", dev)
            ranks = {f"t{k}": k for k in range(n)}
            ranks["q"] = x
            yield Case("utility.timeseries_interpolate_single_times", f"{n} samples, {nb} members, query at {x}", where_func(f), dict(times=t, values=v, t=q), ranked(ranks, lambda f=f, t=t, v=v, q=q: I.call(f, [t, v, q], {})), kind="interpolator")


def blocks(nblk, sbat, sblk, dev="D"):
    return grid("A", (nblk, sbat, sblk, sblk), dev), grid("B", (nblk - 1, sbat, sblk, sblk), dev)


SOLVERS = ("BidiagonalThomasFactorization", "BidiagonalPCRFactorization", "BidiagonalHybridFactorization")


def operators(I, dev="D", word=None):
    """linear operators in chunks of time; a block is one symbol unless the
    size says otherwise"""
    for nblk in (1, 2, 3, 4, 5, 8):
        for sbat, sblk in ((1, 1), (2, 1), (1, 2)) if nblk < 4 else ((1, 1),):
            for cls in SOLVERS:
                if sblk > 1 and nblk > 2:
                    continue
                for ms in (0, 2, nblk) if "Hybrid" in cls else (None,):
                    A, B = blocks(nblk, sbat, sblk, dev)
                    v = grid("v", (sbat, nblk * sblk), dev)
                    c = I.get("chunktime." + cls)
                    o = made(I, c, [A, B], {} if ms is None else {"min_size": ms})
                    yield Case("chunktime." + cls, f"{nblk} blocks of {sblk}, batch {sbat}" + ("" if ms is None else f", minimum {ms}"), mwhere(c, "matvec"), dict(A=A, B=B, v=v, object=o),
                               lambda o=o, v=v: I.call(o, [v], {}), kind="operator")
            c = I.get("chunktime.BidiagonalForwardOperator")
            for m in ("forward", "to_diag", "inverse"):
                A, B = blocks(nblk, sbat, sblk, dev)
                v = grid("v", (sbat, nblk * sblk), dev)
                o = made(I, c, [A, B], {})
                if m == "inverse":
                    if sblk > 1 and nblk > 2:
                        continue
                    call = lambda o=o, v=v: I.call(I.call(method(I, o, "inverse"), [], {}), [v], {})
                elif m == "forward":
                    call = lambda o=o, v=v: I.call(o, [v], {})
                else:
                    call = lambda o=o: I.call(method(I, I.call(method(I, o, "to_diag"), [], {}), "to_dense"), [], {})
                yield Case("chunktime.BidiagonalForwardOperator", f"{m}, {nblk} blocks of {sblk}, batch {sbat}", mwhere(c, m), dict(A=A, B=B, v=v, object=o), call, kind="operator")
    c = I.get("chunktime.SquareBatchedBlockDiagonalMatrix")
    for nblk, diags in ((1, [0]), (2, [0, -1]), (3, [-2, 0, 1]), (2, [1]), (3, [0, 0][:1])):
        for sbat, sblk in ((1, 1), (2, 2)):
            for m in ("to_dense", "to_batched_coo", "to_unrolled_csr"):
                data = [grid(f"D{k}x", (nblk - abs(d_), sbat, sblk, sblk), dev) for k, d_ in enumerate(diags)]
                dl = list(diags)
                o = made(I, c, [data, dl], {})
                yield Case("chunktime.SquareBatchedBlockDiagonalMatrix", f"{m}, {nblk} blocks of {sblk}, diagonals {diags}, batch {sbat}", mwhere(c, m), dict(data=data, diags=dl, object=o),
                           lambda o=o, m=m: I.call(method(I, o, m), [], {}), kind="sparse")
    c = I.get("chunktime.ChunkTimeOperatorSolverContext")
    for how in ("dense", "direct"):
        for nblk, sbat, sblk in ((1, 1, 1), (2, 1, 1), (2, 2, 1), (1, 1, 2)):
            A, B = blocks(nblk, sbat, sblk, dev)
            J = made(I, I.get("chunktime.BidiagonalForwardOperator"), [A, B], {})
            R = grid("R", (sbat, nblk * sblk), dev)
            o = made(I, c, [how], {})
            yield Case("chunktime.ChunkTimeOperatorSolverContext", f"{how}, {nblk} blocks of {sblk}, batch {sbat}", mwhere(c, "solve"), dict(A=A, B=B, R=R, J=J, object=o),
                       lambda o=o, J=J, R=R: I.call(method(I, o, "solve"), [J, R], {}), kind="operator")


def solvers(I, dev="D"):
    for name in ("lu_linear_solve", "jacobi_iteration_linear_solve"):
        for nb, n in ((1, 1), (2, 1), (1, 2), (2, 2)):
            f = I.get("solvers." + name)
            A, b = grid("A", (nb, n, n), dev), grid("b", (nb, n), dev)
            yield Case("solvers." + name, f"batch {nb}, size {n}", where_func(f), dict(A=A, b=b), lambda f=f, A=A, b=b: I.call(f, [A, b], {}), kind="solver")
    for name in ("gmres", "jacobi_gmres", "lu_gmres"):
        for nb, n in ((1, 1), (2, 1), (1, 2)):
            for start in (False, True):
                f = I.get("solvers." + name)
                A, b, x0 = grid("A", (nb, n, n), dev), grid("b", (nb, n), dev), grid("x", (nb, n), dev)
                kw = {"tol": float("-inf"), "maxiter": 2}
                if start:
                    kw["x0"] = x0
                if name != "lu_gmres":
                    kw["check"] = 1
                # the default preconditioner is shared by all calls
                shared = [d_ for d_ in I.get("solvers.gmres").defaults if isinstance(d_, Obj)]
                yield Case("solvers." + name, f"batch {nb}, size {n}" + (", given start" if start else ""), where_func(f), dict(A=A, b=b, x0=x0, shared=shared), lambda f=f, A=A, b=b, kw=kw: I.call(f, [A, b], dict(kw)), kind="solver")
    f = I.get("utility.add_id")
    for nb, n in ((1, 1), (2, 1), (1, 2), (2, 2)):
        A = grid("A", (nb, n, n), dev)
        yield Case("utility.add_id", f"batch {nb}, size {n}", where_func(f), dict(A=A), lambda f=f, A=A: I.call(f, [A], {}), kind="helper")
    for name in ("NoOp", "JacobiPreconitionerOperator", "LUPreconitionerOperator"):
        for nb, n in ((1, 1), (2, 1), (1, 2)):
            c = I.get("solvers." + name)
            A, b = grid("A", (nb, n, n), dev), grid("b", (nb, n), dev)
            o = made(I, c, [] if name == "NoOp" else [A], {})
            yield Case("solvers." + name, f"batch {nb}, size {n}", mwhere(c, "dot"), dict(A=A, b=b, object=o), lambda o=o, b=b: I.call(method(I, o, "dot"), [b], {}), kind="solver")


class Residual:
    """a residual function with opaque values, evaluated at most a few times;
    numerical norms so that the loops decide"""

    def __init__(self, history, n, dev, tagged=False):
        self.history, self.n, self.dev, self.tagged = history, n, dev, tagged
        self.k = 0
        self.made = []

    def start(self):
        self.k = 0

    def value(self):
        return Builtin("residual", self.call)

    def call(self, x, *extra):
        h = self.history[min(self.k, len(self.history) - 1)]
        n, k = self.n, self.k
        self.k += 1
        parts = {1: (1,), 2: (Fraction(3, 5), Fraction(4, 5)), 3: (Fraction(2, 7), Fraction(-3, 7), Fraction(6, 7))}[n]
        R = new((len(h), n), [num(v * p) for v in h for p in parts], "float", self.dev)
        J = new((len(h), n, n), [var(f"J{k}_{e}_{i}{j}") for e in range(len(h)) for i in range(n) for j in range(n)], "float", self.dev)
        self.made.append((R, J, tuple(R.cells()), tuple(J.cells())))
        return (R, J)


class Lin(Abstract):
    """a chunked linear solver"""

    def __init__(self):
        self.k = 0

    def sa_getattr(self, I, name):
        if name == "solve":
            return Builtin("solve", self.solve)
        I.attr_error(self, name)

    def solve(self, J, R):
        self.k += 1
        return new(R.shape, [var(f"dx{self.k}_{i}") for i in range(R.ncells())], "float", R.device)


def nonlinear(I, dev="D"):
    from fractions import Fraction as F
    hist = [[(16, 20), (8, 12), (F(1, 512), F(1, 512))], [(16, 20), (40, 50), (30, 21), (5, 4), (F(1, 512), F(1, 512))], [(F(1, 700), F(1, 512))], [(16,), (8,), (F(1, 700),)]]
    for s in ("solvers.newton_raphson", "solvers.newton_raphson_bt", "chunktime.newton_raphson_chunk"):
        for n in (1, 2):
            for q, h in enumerate(hist):
                for kw in ([{}] if "chunk" in s else [{}, {"linsolver": "diag"}]):
                    f = I.get(s)
                    x = grid("x", (len(h[0]), n), dev)
                    R = Residual(h, n, dev)
                    k = dict(kw, atol=1.0 / 128, rtol=1.0 / 1024, miter=6)

                    def call(f=f, R=R, x=x, k=k, s=s):
                        R.start()
                        return I.call(f, [R.value(), x] + ([Lin()] if "chunk" in s else []), dict(k))
                    yield Case(s, f"{n} unknowns, residual history {q}" + (", diagonal solves" if kw else ""), where_func(f), dict(x=x), call, kind="nonlinear")


def integrations(I, dev="D"):
    """time integration and its gradient at arbitrary roots of the implicit equations"""
    for entry in ("odeint", "odeint_adjoint"):
        for meth in ("backward-euler", "forward-euler"):
            for nt, nb, n, block in ((2, 1, 1, 1), (3, 2, 2, 1), (4, 1, 1, 2), (4, 2, 1, 5), (5, 1, 2, 3)):
                for guess in ("zero", "previous"):
                    y0 = y0_of((nb,), n)
                    t = times(nt, (nb,))
                    f = rhs(n)
                    if dev != "D":
                        raise AnalysisError("device")
                    G = grid("g", (nt, nb, n), dev)
                    fe = I.get("ode." + entry)
                    kw = {"block_size": block, "method": meth, "guess_type": guess}
                    holder = {}

                    def call(f=f, y0=y0, t=t, G=G, fe=fe, kw=kw, entry=entry, holder=holder):
                        tap = holder["tap"] = Tap(I)
                        n0 = len(I.events)
                        r = I.call(fe, [f, y0, t], dict(kw))
                        out = [r]
                        if entry == "odeint_adjoint":
                            e = [e for k, e in I.events[n0:] if k == "function-applied"][-1]
                            bw, _ = e["cls"].lookup("backward")
                            out.append(I.call(bw.f if isinstance(bw, StaticVal) else bw, [e["ctx"], G], {}))
                        holder["solves"] = tap.solves
                        return out
                    c = Case("ode." + entry, f"{meth}, {nt} times, batch {nb}, size {n}, blocks of {block}, guess {guess}", where_func(fe), dict(y0=y0, t=t, grad=G, params=list(f.params)), keep_intercepts(I, call), kind="ode")
                    c.holder = holder
                    yield c


def drives(I, dev="D"):
    """the model integrator up to its driven right-hand side"""
    from .c05 import Root, SeriesC, INTERP
    for name in ("solve_strain", "solve_stress", "solve_both"):
        for nt, nb in ((3, 2), (2, 1)):
            t, x, T_ = grid("t", (nt, nb), dev), grid("d", (nt, nb), dev), grid("T", (nt, nb), dev)
            ctl = new((nb,), [num(k % 2) for k in range(nb)], "float", dev)
            o = made(I, I.get("models.ModelIntegrator"), [InelasticC("model", 3)], {})
            a = {"solve_both": [t, T_, x, ctl], "solve_strain": [t, x, T_], "solve_stress": [t, x, T_]}[name]
            st, y = grid("s", (2, nb), dev), grid("y", (2, nb, 3), dev)

            def call(o=o, name=name, a=a, st=st, y=y):
                Root(I)
                for c in INTERP:
                    def h(i, args, kw, c=c):
                        cls = i.get("utility." + c)
                        f, _ = cls.lookup("__init__")
                        names = [q.arg for q in f.node.args.args][1:]
                        v = dict(zip(names, args))
                        v.update(kw)
                        return SeriesC(clone(as_tensor(v[names[0]])), clone(as_tensor(v[names[1]])))
                    I.intercepts["utility." + c] = h
                seen = []
                for m in ("odeint", "odeint_adjoint"):
                    I.intercepts["ode." + m] = lambda i, q, k, m=m: (seen.append(i.bindargs(i.get("ode." + m), q, k)), "result")[1]
                I.call(method(I, o, name), list(a), {})
                names = [q.arg for q in I.get("ode.odeint").node.args.args]
                f, y0, tt = (seen[0][q] for q in names[:3])
                return [y0, tt, I.call(f, [st, y], {})]
            yield Case("models.ModelIntegrator", f"{name}, {nt} times, batch {nb}", mwhere(I.get("models.ModelIntegrator"), name), dict(t=t, x=x, T=T_, control=ctl, st=st, y=y, object=o), keep_intercepts(I, call), kind="drive")


def experiments(I, dev="D"):
    from .c20 import XData
    from .c21 import TYPES, SAME, layouts
    codes = {k: int(numval(T(v))) for k, v in I.get("experiments.exp_map").items()}
    f = I.get("experiments.load_results")
    for nb in (1, 2):
        cols = {c: new((3, nb), [var(f"{c}{r}_{b}") for r in range(3) for b in range(nb)], "float", None) for c in ("time", "temperature", "strain", "stress")}
        cols["cycle"] = new((3, nb), [var(f"cycle{r}_{b}") for r in range(3) for b in range(nb)], "int", None)
        cols["type"], cols["control"] = ["tensile", "creep"][:nb], ["strain", "stress"][:nb]
        x = XData(cols)
        yield Case("experiments.load_results", f"{nb} tests", where_func(f), dict(cols=cols), lambda f=f, x=x: list(I.call(f, [x], {"device": DeviceVal(dev)})), kind="load")
    f = I.get("experiments.convert_results")
    for tests in [(tp,) for tp in TYPES] + [tuple(TYPES)] + [("creep", "tensile", "creep")]:
        L = [layouts(SAME[tp], 4, False)[-1] for tp in tests]
        nb = len(tests)
        x = grid("x", (4, nb), dev)
        c = new((4, nb), [num(L[b][r]) for r in range(4) for b in range(nb)], "int", dev)
        t = new((nb,), [num(codes[tp]) for tp in tests], "int", dev)
        yield Case("experiments.convert_results", ",".join(tests) if nb < 7 else "all types", where_func(f), dict(x=x, cycles=c, types=t), lambda f=f, x=x, c=c, t=t: I.call(f, [x, c, t], {}), kind="format")
    fns = I.get("experiments.exp_fns")
    for tp in TYPES:
        L = layouts(SAME[tp], 4, False)[-1]
        for nb in (1, 2):
            x, c = grid("x", (4, nb), dev), new((4, nb), [num(L[r]) for r in range(4) for b in range(nb)], "int", dev)
            yield Case("experiments." + fns[tp].name, f"{tp}, {nb} tests", where_func(fns[tp]), dict(x=x, cycles=c), lambda g=fns[tp], x=x, c=c: I.call(g, [c, x], {}), kind="format")
    f = I.get("experiments.make_tension_tests")
    for nb in (1, 2):
        r, Tm, e = (new((nb,), [var(f"{n}{k}", "pos") for k in range(nb)], "float", dev) for n in ("r", "T", "e"))
        yield Case("experiments.make_tension_tests", f"{nb} tests", where_func(f), dict(r=r, T=Tm, e=e), lambda f=f, r=r, Tm=Tm, e=e: list(I.call(f, [r, Tm, e, 4], {})), kind="make")
    f = I.get("experiments.make_creep_tests")
    for nb in (1, 2):
        for log in (False, True):
            s, Tm, r = (new((nb,), [var(f"{n}{k}", "pos") for k in range(nb)], "float", dev) for n in ("s", "T", "r"))
            h = new((nb,), [(var(f"s{k}") / var(f"r{k}")) + var(f"w{k}", "pos") for k in range(nb)], "float", dev)
            yield Case("experiments.make_creep_tests", f"{nb} tests" + (" logarithmic" if log else ""), where_func(f), dict(s=s, T=Tm, r=r, h=h), lambda f=f, s=s, Tm=Tm, r=r, h=h, log=log: list(I.call(f, [s, Tm, r, h, 3, 4], {"logspace": log})), kind="make")
    f = I.get("experiments.sample_tension")
    r, e = var("r", "pos"), var("e", "pos")
    test = {"max_strain": new((), [e], "float", None), "strain_rate": new((), [r], "float", None)}
    yield Case("experiments.sample_tension", "4 steps", where_func(f), dict(test=test), lambda f=f, test=test: list(I.call(f, [test], {"nsteps": 4})), kind="sample")
    f = I.get("experiments.sample_cycle_normalized_times")
    cyc = {"max_strain": new((), [e], "float", None), "R": new((), [num(-1)], "float", None), "strain_rate": new((), [r], "float", None),
           "tension_hold": new((), [var("ht", "pos")], "float", None), "compression_hold": new((), [var("hc", "pos")], "float", None)}
    yield Case("experiments.sample_cycle_normalized_times", "2 cycles", where_func(f), dict(cycle=cyc), lambda f=f, cyc=cyc: list(I.call(f, [cyc, 2], {"nload": 3, "nhold": 2})), kind="sample")
    for name, defaults in (("generate_random_tension", {}), ("generate_random_cycle", {})):
        f = I.get("experiments." + name)
        lists = {}
        for a, dv in zip(f.node.args.args, f.defaults):
            if isinstance(dv, list):
                lists[a.arg] = [num(1), num(2)] if False else list(dv)
        yield Case("experiments." + name, "given ranges", where_func(f), dict(lists), lambda f=f, lists=lists: I.call(f, [], dict(lists)), kind="random")
        yield Case("experiments." + name, "default ranges", where_func(f), dict(defaults=list(f.defaults)), lambda f=f: I.call(f, [], {}), kind="random")


class Smooth:
    """a differentiable test function from (batch, ...) to (batch, ...)"""

    def __init__(self, bdim, s1, dev="D"):
        self.b, self.s1, self.dev = bdim, tuple(s1), dev

    def value(self):
        return Builtin("function", self.call)

    def call(self, x, *a):
        x = as_tensor(x)
        b = x.shape[:self.b]
        n = 1
        for d_ in x.shape[self.b:]:
            n *= d_
        m = 1
        for d_ in self.s1:
            m *= d_
        xc = clone(x).st.cells
        out = []
        for k in range(len(xc) // n):
            out += [app(f"fn{i}", xc[k * n:(k + 1) * n]) for i in range(m)]
        return new(tuple(b) + self.s1, out, "float", x.device)


def helpers(I, dev="D"):
    f = I.get("utility.mbmm")
    for b in ((1,), (2,), (2, 1)):
        A, B = grid("A", b + (2, 3), dev), grid("B", b + (3, 2), dev)
        yield Case("utility.mbmm", fmtshape(b), where_func(f), dict(A=A, B=B), lambda f=f, A=A, B=B: I.call(f, [A, B], {}), kind="helper")
    for name in ("heaviside", "macaulay"):
        f = I.get("utility." + name)
        for b in ((), (1,), (2,), (2, 2)):
            x = grid("x", b, dev)
            yield Case("utility." + name, fmtshape(b), where_func(f), dict(x=x), lambda f=f, x=x: I.call(f, [x], {}), kind="helper")
    for name in ("batch_differentiate", "new_differentiate", "differentiate"):
        f = I.get("utility." + name)
        for s1 in ((), (2,)):
            for s2 in ((), (2,)):
                for b in (1, 2):
                    x = grid("x", (b,) + s2, dev)
                    g = Smooth(1, s1)
                    yield Case("utility." + name, f"values {fmtshape(s1)}, arguments {fmtshape(s2)}, batch {b}", where_func(f), dict(x=x), lambda f=f, g=g, x=x: I.call(f, [g.value(), x], {}), kind="finite")
    f = I.get("utility.jacobianize")
    for b in (1, 2):
        for s2 in ((1,), (2,)):
            x = grid("x", (b,) + s2, dev)
            g = Smooth(0, (2,))

            def call(f=f, g=g, x=x):
                return I.call(I.call(I.call(f, [], {}), [g.value()], {}), [x], {})
            yield Case("utility.jacobianize", f"arguments {fmtshape(s2)}, batch {b}", where_func(f), dict(x=x), call, kind="jac")


def calibration(I, dev="D"):
    """the wrappers for calibration: one run of model and guide"""
    from .proba import Hier, Data
    from .c24 import make_single
    for mix in (("tensile",), ("creep", "tensile"), ("direct_data", "relaxation", "strain_cyclic")):
        for noise in ("scalar", "type"):
            for params in ([("A", 0)], [("B", 1), ("A", 0)]):
                for inc in (False, True):
                    D = Data(I, mix, dev)
                    H = Hier(I, params, D, noise, inc, None, {t: 2.0 for t in D.codes} if inc else None, dev)
                    g = H.guide()
                    store = {}
                    given = dict(data=D.data, cycles=D.cycles, types=D.tcodes, control=D.control, results=D.obs, locations=list(H.ll), scales=list(H.ls), deviations=list(H.ss), noise=H.noise, names=H.names)

                    def call(H=H, g=g, store=store):
                        H.W.params = store      # a parameter store of its own
                        gs, _ = H.run_guide(g)
                        r, ms, _ = H.run_model()
                        return [r] + sitevalues(gs + ms)
                    k = Case("optimize.HierarchicalStatisticalModel", f"{', '.join(f'{n}[{d}]' for n, d in params)}, {noise} noise{' inferred' if inc else ''}, {','.join(mix)}", mwhere(H.cls, "forward"), given, call, kind="calibration")
                    k.fresh = store.clear
                    yield k
                D, o, mk, locs, scales = make_single(I, params, noise, mix)

                def call1(I=I, o=o, D=D):
                    I.world.run(o, *(D.args() + [D.obs]))
                    return sitevalues(I.world.sites)
                yield Case("optimize.StatisticalModel", f"{', '.join(f'{n}[{d}]' for n, d in params)}, {noise} noise, {','.join(mix)}", mwhere(o.cls, "forward"), dict(data=D.data, cycles=D.cycles, types=D.tcodes, control=D.control, results=D.obs, locs=locs, scales=scales), call1, kind="calibration")


def sitevalues(sites):
    out = []
    for s in sites:
        out.append(s.value)
        out += list(s.dist.params.values()) + list(s.scales)
    return out


def others(I, dev="D"):
    for g in (interpolators, operators, solvers, nonlinear, integrations, drives, experiments, helpers, calibration):
        yield from section(g, I, dev)
