"""C01: the derivatives a flow rule returns are the derivatives of the rates it returns."""
from .common import *


def run(rep):
    I = fresh_interp()
    classes = [c for c in I.classes("flowrules", "FlowRule") if c.lookup("flow_rate")[0] is not None and c.lookup("history_rate")[0] is not None]
    rep.minimum = 6 * 6
    rep.rule("flow/s", "second value of flow_rate is the stress derivative of the first")
    rep.rule("flow/h", "dflow_dhist is the history derivative of the flow rate, laid out (1, nhist)")
    rep.rule("flow/e", "dflow_derate is the total-rate derivative of the flow rate")
    rep.rule("hist/h", "second value of history_rate is the history Jacobian of the first")
    rep.rule("hist/s", "dhist_dstress is the stress derivative of the history rate")
    rep.rule("hist/e", "dhist_derate is the total-rate derivative of the history rate")
    rep.assume("components meet their own contract (C01/C02 check every component class of the package)")
    rep.assume("derivatives are compared inside the smooth regions of the rates; regularisation constants below 1e-8 are taken as zero")
    for c in classes:
        for batch in batches(rep):
            one(rep, I, c, batch)


def one(rep, I, c, batch):
    cn = short_name(c)
    with rep.guard("flow/s", cn, f"construct {bl(batch)}"):
        for label, o, args in build(I, c):
            nh = I.getattr(o, "nhist")
            p = point(batch, nh)
            a = [p[k] for k in ("s", "h", "t", "T", "e")]
            key = f"{label} {bl(batch)}".strip()

            def get(name):
                return I.call(method(I, o, name), list(a), {})

            sv, ev = "s", "e"
            hv = [f"h{k}" for k in range(nh)]
            flow = hist = None
            with rep.guard("flow/s", cn, key):
                flow, dflow = get("flow_rate")
                rep.equal_tensors("flow/s", cn, key, dflow, (batch, [d(x, sv) for x in flow.cells()]), mwhere(c, "flow_rate"), "d flow / d stress")
            with rep.guard("hist/h", cn, key):
                hist, dhist = get("history_rate")
                rep.equal_tensors("hist/h", cn, key, dhist, (batch + (nh, nh), [d(x, v) for x in hist.cells() for v in hv]), mwhere(c, "history_rate"), "d history rate / d history")
            if flow is not None:
                with rep.guard("flow/h", cn, key):
                    rep.equal_tensors("flow/h", cn, key, get("dflow_dhist"), (batch + (1, nh), [d(flow.cells()[0], v) for v in hv]), mwhere(c, "dflow_dhist"), "d flow / d history")
                with rep.guard("flow/e", cn, key):
                    rep.equal_tensors("flow/e", cn, key, get("dflow_derate"), (batch, [d(flow.cells()[0], ev)]), mwhere(c, "dflow_derate"), "d flow / d total rate")
            if hist is not None:
                with rep.guard("hist/s", cn, key):
                    rep.equal_tensors("hist/s", cn, key, get("dhist_dstress"), (batch + (nh,), [d(x, sv) for x in hist.cells()]), mwhere(c, "dhist_dstress"), "d history rate / d stress")
                with rep.guard("hist/e", cn, key):
                    rep.equal_tensors("hist/e", cn, key, get("dhist_derate"), (batch + (nh,), [d(x, ev) for x in hist.cells()]), mwhere(c, "dhist_derate"), "d history rate / d total rate")
