"""C02: the derivatives a hardening model returns are those of its value and rate."""
from .common import *


def run(rep):
    I = fresh_interp()
    classes = [c for c in I.classes("hardening", "HardeningModel") if c.lookup("history_rate")[0] is not None]
    rep.minimum = 9 * 5 * 2
    rep.rule("value/h", "dvalue is the derivative of value with respect to the internal variables")
    rep.rule("rate/s", "dhistory_rate_dstress is the stress derivative of history_rate")
    rep.rule("rate/h", "dhistory_rate_dhistory is the Jacobian of history_rate with respect to the internal variables")
    rep.rule("rate/ep", "dhistory_rate_derate is the inelastic-rate derivative of history_rate, laid out (nhist, 1)")
    rep.rule("rate/e", "dhistory_rate_dtotalrate is the total-rate derivative of history_rate")
    rep.rule("shape", "value has the batch shape, history_rate the shape of the internal variables")
    rep.assume("derivatives are compared inside the smooth regions of the rates")
    for c in classes:
        for batch in batches(rep):
            one(rep, I, c, batch)


def one(rep, I, c, batch):
    cn = short_name(c)
    with rep.guard("shape", cn, f"construct {bl(batch)}"):
        for label, o, args in build(I, c):
            nh = I.getattr(o, "nhist")
            p = point(batch, nh, ("s", "t", "ep", "T", "e"))
            a = [p[k] for k in ("s", "h", "t", "ep", "T", "e")]
            key = f"{label} {bl(batch)}".strip()
            hv = [f"h{k}" for k in range(nh)]

            def get(name, args=a):
                return I.call(method(I, o, name), list(args), {})

            with rep.guard("value/h", cn, key):
                val = get("value", [p["h"]])
                rep.fact("shape", cn, key + " value", tuple(val.shape) == batch, mwhere(c, "value"), f"value has shape {fmtshape(val.shape)}")
                rep.equal_tensors("value/h", cn, key, get("dvalue", [p["h"]]), (batch + (nh,), [d(val.cells()[0], v) for v in hv]), mwhere(c, "dvalue"), "d value / d internal variables")
            with rep.guard("shape", cn, key + " rate"):
                r = get("history_rate")
                rep.fact("shape", cn, key + " rate", tuple(r.shape) == batch + (nh,), mwhere(c, "history_rate"), f"rate has shape {fmtshape(r.shape)}")
                for rid, m, vs, tr in (("rate/s", "dhistory_rate_dstress", ["s"], ()), ("rate/h", "dhistory_rate_dhistory", hv, (nh,)),
                                       ("rate/ep", "dhistory_rate_derate", ["ep"], (1,)), ("rate/e", "dhistory_rate_dtotalrate", ["e"], ())):
                    with rep.guard(rid, cn, key):
                        rep.equal_tensors(rid, cn, key, get(m), (batch + (nh,) + tr, [d(x, v) for x in r.cells() for v in vs]), mwhere(c, m), f"{m}")
