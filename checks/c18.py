"""C18: results live on the device of the inputs."""
from .effects import *


def run(rep):
    rep.minimum = 800
    rep.rule("closed", "no operation combines or indexes tensors of different devices")
    rep.rule("result", "every returned tensor is on the device of the inputs")
    rep.rule("report", "an object that reports a device reports the device of its parameters")
    rep.assume("all inputs and parameters are on one device, which is not the default one; single numbers on the processor combine with anything, as in torch")
    rep.assume("assigning to a slice of a tensor copies across devices, as in torch")
    batches = [(), (1,), (2,), (2, 2)] + ([(3,), (2, 1, 2)] if rep.tier == "thorough" else [])
    for b in batches:
        I = fresh_interp()
        for c in pointwise(I, b):
            one(rep, I, c, f"batch {fmtshape(b)}")
    for b in [(SymSize("B"),), (SymSize("N"), SymSize("B"))]:
        I = fresh_interp()
        for c in pointwise(I, b):
            if c.kind != "piecewise":
                one(rep, I, c, bl(b))
    I = fresh_interp()
    for c in others(I):
        one(rep, I, c, "")


def one(rep, I, c, lab):
    if c.kind in ("sample", "random", "print"):
        return      # numpy histories and text: no device
    key = ", ".join(x for x in (c.key, lab) if x)
    n0 = len(I.events)
    with rep.guard("closed", c.construct, key):
        r = c.call()
        mix = [e for k, e in I.events[n0:] if k == "device-mix"]
        if mix:
            rep.bad("closed", c.construct, key, fmtloc(mix[0]["loc"]), f"tensors on {' and '.join('the inputs’ device' if x == 'D' else 'the ' + str(x) + ' device' for x in mix[0]['devices'])} are combined")
        else:
            rep.ok("closed", c.construct, key)
        report(rep, I, c, key)
        off = [t for t in flatten(r) if isinstance(t, Tensor) and t.device != "D"]
        if off:
            rep.bad("result", c.construct, key, fmtloc(off[0].st.origin) if off[0].st.origin else c.where, f"a result of shape {fmtshape(off[0].shape)} is on the {off[0].device or 'default'} device")
        else:
            rep.ok("result", c.construct, key, f"{len(flatten(r))} tensors")


def report(rep, I, c, key):
    o = c.given.get("object")
    if not isinstance(o, Obj) or o.cls.lookup("device")[1] is None:
        return
    with rep.guard("report", c.construct, key):
        got = I.getattr(o, "device")
        rep.fact("report", c.construct, key, dev_of(got) == "D", c.where, f"the reported device is {got!r} instead of the device of the parameters")


def dev_of(d):
    return getattr(d, "tok", d)
