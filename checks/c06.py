"""C06: the rates equal the documented laws."""
from .common import *
from sa.terms import fn, power, app, gt, ite, ZERO, ONE


class Ref:
    """names of the specification: parameters, state and component functions"""

    def __init__(self, args, label, names):
        self.args, self.const, self.names = args, ONE if "const" in label else var("member", "pos") if "member" in label else None, names
        self.v = {n: var(n, k) for n, k in names.items()}

    def __getattr__(self, n):
        if n in self.v:
            return self.v[n]
        raise AttributeError(n)

    def P(self, name, i=None):
        """a parameter at the current temperature"""
        a = self.args[name]
        return app(a.name + ("" if i is None else str(i)), [self.v["T"] if self.const is None else self.const])

    def raw(self, name):
        """a parameter that is a plain number"""
        return self.args[name].as_tensor().cells()[0]

    def scaled(self, name, by):
        return app(self.args[by].name, [self.raw(name)])

    def comp(self, comp, f, *a):
        return app(f"{comp}.{f}", list(a))


def absv(x):
    return fn("abs", x)


def sgn(x):
    return fn("sign", x)


def mac(x):
    return ite(gt(x, ZERO), x, ZERO)


def hv(r, a=0, b=None):
    n = len([k for k in r.v if k[0] == "h" and k[1:].isdigit()])
    return [r.v[f"h{k}"] for k in range(a, n if b is None else b)]


# --------------------------------------------------------------- flow rules
def perfect(r, n):
    return power(absv(r.s) / r.P("eta"), r.P("n")) * sgn(r.s), []


def isokin(r, n):
    m = r.args["isotropic"].nhist
    hi, hk = hv(r, 0, m), hv(r, m)
    k, x = r.comp("iso", "value", *hi), r.comp("kin", "value", *hk)
    f = power(mac((absv(r.s - x) - r.P("s0") - k) / r.P("eta")), r.P("n")) * sgn(r.s - x)
    return f, [r.comp("iso", f"rate{i}", r.s, *hi, r.t, f, r.T, r.e) for i in range(len(hi))] + \
        [r.comp("kin", f"rate{i}", r.s, *hk, r.t, f, r.T, r.e) for i in range(len(hk))]


def frule(r, c, h):
    a = [r.s, *h, r.t, r.T, r.e]
    return r.comp(c, "flow", *a), [r.comp(c, f"rate{i}", *a) for i in range(len(h))]


def km_g(r):
    return r.raw("k") * r.T / (r.P("mu") * power(r.raw("b"), T(3))) * fn("log", r.raw("eps0") / absv(r.e))


def km(r, n):
    f1, h1 = frule(r, "m1", hv(r))
    f2, h2 = frule(r, "m2", hv(r))
    c = gt(km_g(r), r.scaled("g0", "g0_scale"))
    return ite(c, f2, f1), [ite(c, b, a) for a, b in zip(h1, h2)]


def softkm(r, n):
    f1, h1 = frule(r, "m1", hv(r))
    f2, h2 = frule(r, "m2", hv(r))
    w = (fn("tanh", r.raw("sf") * (km_g(r) - r.scaled("g0", "g0_scale"))) + 1) / 2
    return (1 - w) * f1 + w * f2, [(1 - w) * a + w * b for a, b in zip(h1, h2)]


def rateind(r, n):
    f, h = frule(r, "base", hv(r))
    k = 1 - r.raw("lmbda") + r.raw("lmbda") * absv(r.e) / r.raw("eps_ref")
    return k * f, [k * x for x in h]


def superflow(r, n):
    f, rates, o = ZERO, [], 0
    for k, m in enumerate([x.nhist for x in r.args["models"]]):
        a, b = frule(r, f"c{k}", hv(r, o, o + m))
        f, rates, o = f + a, rates + b, o + m
    return f, rates


FLOW = {"PerfectViscoplasticity": perfect, "IsoKinViscoplasticity": isokin, "KocksMeckingRegimeFlowRule": km,
        "SoftKocksMeckingRegimeFlowRule": softkm, "RateIndependentFlowRuleWrapper": rateind, "SuperimposedFlowRule": superflow}


# --------------------------------------------------------------- hardening
def voce(r, n):
    return r.h0, [r.P("d") * (r.P("R") - r.h0) * absv(r.ep)]


def theta0(r, n):
    return r.h0, [r.P("theta") * (1 - r.h0 / r.P("tau")) * absv(r.ep)]


def theta0rec(r, n):
    x = r.P("R0") - r.h0
    return r.h0, [r.P("theta") * (1 - r.h0 / r.P("tau")) * absv(r.ep) + r.P("r1") * x * power(absv(x), r.P("r2") - 1)]


def nokin(r, n):
    return ZERO, []


def fa_norec(r, n):
    return r.h0, [r.P("C") * r.ep - r.P("g") * r.h0 * absv(r.ep)]


def fa(r, n):
    x = r.P("C") * r.ep - r.P("g") * r.h0 * absv(r.ep)
    if "b" in r.args:
        x = x - r.P("b") * power(absv(r.h0), r.P("r") - 1) * r.h0
    return r.h0, [x]


def cha(r, n):
    h = hv(r)
    return tm.add(*h), [r.P("C", i) * r.ep - r.P("g", i) * h[i] * absv(r.ep) for i in range(n)]


def charec(r, n):
    h = hv(r)
    v, x = cha(r, n)
    return v, [x[i] - r.P("b", i) * power(absv(h[i]), r.P("r", i) - 1) * h[i] for i in range(n)]


def superkin(r, n):
    v, rates, o = ZERO, [], 0
    for k, m in enumerate([x.nhist for x in r.args["models"]]):
        h = hv(r, o, o + m)
        v = v + r.comp(f"c{k}", "value", *h)
        rates += [r.comp(f"c{k}", f"rate{i}", r.s, *h, r.t, r.ep, r.T, r.e) for i in range(m)]
        o += m
    return v, rates


HARD = {"VoceIsotropicHardeningModel": voce, "Theta0VoceIsotropicHardeningModel": theta0, "Theta0RecoveryVoceIsotropicHardeningModel": theta0rec,
        "NoKinematicHardeningModel": nokin, "FAKinematicHardeningModel": fa, "FAKinematicHardeningModelNoRecovery": fa_norec,
        "ChabocheHardeningModel": cha, "ChabocheHardeningModelRecovery": charec, "SuperimposedKinematicHardening": superkin}

# ----------------------------------------------------------------- damage
DAMAGE = {
    "NoDamage": lambda r: ZERO,
    "HayhurstLeckie": lambda r: power(absv(r.s) / r.P("A"), r.P("xi")) * power(1 - r.d, r.P("xi") - r.P("phi")),
    "ConstantDamage": lambda r: r.P("R"),
    "LarsonMillerDamage": lambda r: power(T(10), r.P("C") - r.P("B") / r.T) * power((1 - r.d) * absv(r.s), -r.P("A") / r.T),
}


# ----------------------------------------------------------------- models
def inelastic(r, n):
    f, h = frule(r, "flowrule", hv(r))
    return [r.P("E") * (r.e - f)] + h


def damaged(r, n):
    a = [r.s / (1 - r.d), *hv(r), r.t, r.T, r.e]
    f = r.comp("flowrule", "flow", *a)
    h = [r.comp("flowrule", f"rate{i}", *a) for i in range(n - 2)]
    return [(1 - r.d) * r.P("E") * (r.e - f)] + h + [r.comp("dmodel", "rate", r.s / (1 - r.d), r.d, r.t, r.T, r.e)]


MODEL = {"InelasticModel": inelastic, "DamagedInelasticModel": damaged}


def table(I, module, spec):
    for n, f in spec.items():
        c = I.get(f"{module}.{n}")
        yield c, f


def run(rep):
    I = fresh_interp()
    rep.minimum = 50
    rep.rule("flow", "flow_rate and history_rate equal the documented law of the flow rule")
    rep.rule("hard", "value and history_rate equal the documented law of the hardening model")
    rep.rule("damage", "damage_rate equals the documented law")
    rep.rule("model", "the state rate equals the documented material model")
    rep.rule("zero", "the laws hold where the stress, an internal variable, the damage or a strain rate is exactly zero")
    rep.rule("history", "the number and order of internal variables is that of the members")
    rep.assume("components meet their contracts; regularisation constants below 1e-8 are taken as zero")
    for batch in batches(rep):
        for c, f in table(I, "flowrules", FLOW):
            flow(rep, I, c, f, batch)
        for c, f in table(I, "hardening", HARD):
            hard(rep, I, c, f, batch)
        for c, f in table(I, "damage", DAMAGE):
            damage(rep, I, c, f, batch)
        for c, f in table(I, "models", MODEL):
            model(rep, I, c, f, batch)
    for name in ("KocksMeckingRegimeFlowRule", "SoftKocksMeckingRegimeFlowRule"):
        regimes(rep, I, name)


def regimes(rep, I, name):
    """two rules with different internal variables cannot be switched between"""
    c = I.get("flowrules." + name)
    cn = short_name(c)
    for n1, n2 in ((0, 1), (1, 0), (1, 2), (2, 1), (3, 3), (0, 0)):
        key = f"members with {n1} and {n2} internal variables"
        with rep.guard("history", cn, key):
            args = [FlowRuleC("m1", n1), FlowRuleC("m2", n2)] + [TPArg(n) if n == "mu" else new((), [var(n, "pos")], "float", "D") for n in ("g0", "mu", "b", "eps0", "k") + (("sf",) if "Soft" in name else ())]
            err = None
            try:
                o = I.call(c, args, {})
            except PyRaise as e:
                err = str(e.exc)
            if n1 == n2:
                rep.fact("history", cn, key, err is None and I.getattr(o, "nhist") == n1, mwhere(c, "__init__"), f"members with the same number of internal variables: {err or I.getattr(o, 'nhist')}")
            else:
                rep.fact("history", cn, key, err is not None, mwhere(c, "__init__"), "members with different numbers of internal variables are accepted")


def ZEROS(nh):
    return ["s", "e"] + [f"h{k}" for k in range(nh)]


def flow(rep, I, c, spec, batch):
    cn = short_name(c)
    with rep.guard("flow", cn, bl(batch)):
        for label, o, args in build(I, c):
            key = f"{label} {bl(batch)}".strip()
            nh = I.getattr(o, "nhist")
            p = point(batch, nh)
            a = [p[k] for k in ("s", "h", "t", "T", "e")]
            r = Ref(args, label, dict(s="real", t="pos", T="pos", e="real", **{f"h{k}": "real" for k in range(nh)}))
            wf, wh = spec(r, nh)
            rep.fact("history", cn, key, nh == len(wh), mwhere(c, "nhist"), f"{nh} internal variables instead of {len(wh)}")
            with rep.guard("flow", cn, key + " flow_rate"):
                v = I.call(method(I, o, "flow_rate"), list(a), {})[0]
                rep.equal_tensors("flow", cn, key + " flow_rate", v, (batch, [wf]), mwhere(c, "flow_rate"), "flow rate")
                rep.at_zero("zero", cn, key + " flow_rate", v, [wf], ZEROS(nh), mwhere(c, "flow_rate"), "flow rate")
            with rep.guard("flow", cn, key + " history_rate"):
                v = I.call(method(I, o, "history_rate"), list(a), {})[0]
                rep.equal_tensors("flow", cn, key + " history_rate", v, (batch + (nh,), wh), mwhere(c, "history_rate"), "history rate")
                rep.at_zero("zero", cn, key + " history_rate", v, wh, ZEROS(nh), mwhere(c, "history_rate"), "history rate")


def hard(rep, I, c, spec, batch):
    cn = short_name(c)
    with rep.guard("hard", cn, bl(batch)):
        for label, o, args in build(I, c):
            key = f"{label} {bl(batch)}".strip()
            nh = I.getattr(o, "nhist")
            p = point(batch, nh, ("s", "t", "ep", "T", "e"))
            r = Ref(args, label, dict(s="real", t="pos", T="pos", e="real", ep="real", **{f"h{k}": "real" for k in range(nh)}))
            wv, wh = spec(r, nh)
            rep.fact("history", cn, key, nh == len(wh), mwhere(c, "nhist"), f"{nh} internal variables instead of {len(wh)}")
            with rep.guard("hard", cn, key + " value"):
                v = I.call(method(I, o, "value"), [p["h"]], {})
                rep.equal_tensors("hard", cn, key + " value", v, (batch, [wv]), mwhere(c, "value"), "hardening value")
                rep.at_zero("zero", cn, key + " value", v, [wv], ZEROS(nh)[2:], mwhere(c, "value"), "hardening value")
            with rep.guard("hard", cn, key + " history_rate"):
                v = I.call(method(I, o, "history_rate"), [p[k] for k in ("s", "h", "t", "ep", "T", "e")], {})
                rep.equal_tensors("hard", cn, key + " history_rate", v, (batch + (nh,), wh), mwhere(c, "history_rate"), "history rate")
                rep.at_zero("zero", cn, key + " history_rate", v, wh, ZEROS(nh) + ["ep"], mwhere(c, "history_rate"), "history rate")


def damage(rep, I, c, spec, batch):
    cn = short_name(c)
    with rep.guard("damage", cn, bl(batch)):
        for label, o, args in build(I, c):
            key = f"{label} {bl(batch)}".strip()
            kinds = (("s", "real"), ("d", "unit"), ("t", "pos"), ("T", "pos"), ("e", "real"))
            p = {n: ins(n, batch, k) for n, k in kinds}
            with rep.guard("damage", cn, key):
                v = I.call(method(I, o, "damage_rate"), [p[k] for k, _ in kinds], {})[0]
                want = [spec(Ref(args, label, dict(kinds)))]
                rep.equal_tensors("damage", cn, key, v, (batch, want), mwhere(c, "damage_rate"), "damage rate")
                rep.at_zero("zero", cn, key, v, want, ["s", "d", "e"], mwhere(c, "damage_rate"), "damage rate")


def model(rep, I, c, spec, batch):
    cn = short_name(c)
    with rep.guard("model", cn, bl(batch)):
        for label, o, args in build(I, c):
            key = f"{label} {bl(batch)}".strip()
            dam = "dmodel" in args
            n = I.getattr(o, "nhist")
            nf = args["flowrule"].nhist
            rep.fact("history", cn, key, n == nf + 1 + dam, mwhere(c, "nhist"), f"state of size {n} for {nf} internal variables")
            names = {"s": "real", **{f"h{k}": "real" for k in range(nf)}}
            if dam:
                names["d"] = "unit"
            with rep.guard("model", cn, key):
                y = new(batch + (n,), [var(k, v) for k, v in names.items()] * count(batch), "float", "D")
                t, e, T_ = ins("t", batch, "pos"), ins("e", batch), ins("T", batch, "pos")
                v = I.call(o, [t, y, e, T_], {})
                r = Ref(args, label, dict(names, t="pos", T="pos", e="real"))
                want = spec(r, n)
                rep.equal_tensors("model", cn, key, v[0], (batch + (n,), want), mwhere(c, "forward"), "state rate")
                rep.at_zero("zero", cn, key, v[0], want, ["s", "e"] + [k for k in names if k != "s"], mwhere(c, "forward"), "state rate")
