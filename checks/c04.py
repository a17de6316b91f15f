"""C04: the state Jacobian and rate sensitivity of a material model are those of its state rate."""
from .common import *


def run(rep):
    I = fresh_interp()
    m = I.module("pyoptmat.models")
    classes = [c for c in (I.get("models.InelasticModel"), I.get("models.DamagedInelasticModel"))]
    # every further class of the module with the same interface
    for v in m.env.vars.values():
        if isinstance(v, ClassVal) and v.module is m and v not in classes and "forward" in v.ns:
            names = [x.arg for x in v.ns["forward"].node.args.args][1:]
            if names == ["t", "y", "erate", "T"]:
                classes.append(v)
    rep.minimum = 2 * 3 * 2
    rep.rule("jac/y", "second value of forward is the Jacobian of the state rate with respect to the state")
    rep.rule("jac/erate", "third value of forward is the derivative of the state rate with respect to the strain rate")
    rep.rule("shape", "state rate has the shape of the state and nhist is its size")
    rep.assume("flow rule and damage model meet their contracts (C01, C03)")
    for c in classes:
        for batch in batches(rep):
            one(rep, I, c, batch)


def one(rep, I, c, batch):
    cn = short_name(c)
    with rep.guard("jac/y", cn, f"construct {bl(batch)}"):
        damaged = "dmodel" in signature_of(c)[1] or "dmodel" in signature_of(c)[0]
        for label, o, args in build(I, c):
            for nfh in (2, 0):
                fr = FlowRuleC("flowrule", nfh)
                o.attrs["flowrule"] = fr
                n = I.getattr(o, "nhist")
                key = f"{bl(batch)} flow-rule-size {nfh}"
                with rep.guard("jac/y", cn, key):
                    names = ["s"] + [f"h{k}" for k in range(n - 1 - (1 if damaged else 0))] + (["d"] if damaged else [])
                    cells = [var(x, "unit" if x == "d" else "real") for x in names] * count(batch)
                    y = new(batch + (n,), cells, "float", "D")
                    t, e, T_ = ins("t", batch, "pos"), ins("e", batch), ins("T", batch, "pos")
                    r = I.call(o, [t, y, e, T_], {})
                    ydot, J, Je = r[0], r[1], r[2]
                    w = mwhere(c, "forward")
                    rep.fact("shape", cn, key, tuple(ydot.shape) == batch + (n,), w, f"rate has shape {fmtshape(ydot.shape)}")
                    rep.equal_tensors("jac/y", cn, key, J, (batch + (n, n), [d(x, v) for x in ydot.cells() for v in names]), w, "d rate / d state")
                    rep.equal_tensors("jac/erate", cn, key, Je, (batch + (n,), [d(x, "e") for x in ydot.cells()]), w, "d rate / d strain rate")
