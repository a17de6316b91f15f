"""C17: batch entries never influence each other; any batch shape is accepted."""
from .effects import *
import re
from . import sizes
from .c27 import resized

MIX = ("batch-reduce", "batch-slice", "batch-index", "batch-flip", "batch-mix")


def run(rep):
    rep.minimum = 1500
    thorough = rep.tier == "thorough"
    rep.rule("independent", "on a batch of arbitrary size and rank no operation combines, orders or selects entries, and the generic entry of the result depends on that entry's inputs only")
    rep.rule("entry", "in every batch shape the result of an entry equals the result of a single evaluation with that entry's inputs")
    rep.rule("shape", "results carry the batch dimensions of the inputs in front, or none if they do not depend on them")
    rep.assume("components and functions handed in treat entries one by one")
    rep.rule("reuse", "the same object serves one batch shape after another and gives for each what a new object gives")
    for b1, b2 in [((2,), (3,)), ((3,), (2,)), ((2,), (2, 2))]:
        resized(rep, b1, b2, "reuse")
    ref = {}
    sym = [(SymSize("B"),), (SymSize("N"), SymSize("B")), (SymSize("M"), SymSize("N"), SymSize("B"))]
    if thorough:
        sym.append((SymSize("L"), SymSize("M"), SymSize("N"), SymSize("B")))
    for b in sym:
        I = fresh_interp()
        for c in pointwise(I, b):
            symbolic(rep, I, c, b, ref)
    concrete = [(), (1,), (2,), (3,), (2, 2), (2, 1), (1, 2), (2, 1, 2), (5,), (3, 2), (1, 1, 1)]
    if thorough:
        concrete += [(7,), (2, 3, 2), (4, 4), (17,)]
    # sizes around the numbers of the code
    for k in sizes.beyond(fresh_interp(), ALL_MODULES, 3, 70, 8):
        concrete += [x for x in ((k,), (k, 1), (1, k)) if x not in concrete]
    for b in concrete:
        I = fresh_interp()
        for c in pointwise(I, b):
            entries(rep, I, c, b, ref)


def strip(shape, batch):
    """trailing shape, and whether the batch dimensions lead"""
    if tuple(shape[:len(batch)]) == tuple(batch):
        return tuple(shape[len(batch):]), True
    return tuple(shape), False


def symbolic(rep, I, c, b, ref):
    key = f"{c.key}, {bl(b)}"
    n0 = len(I.events)
    if c.kind in ("print", "piecewise"):
        return
    with rep.guard("independent", c.construct, key):
        r = image(c.call())
        ev = [(k, e) for k, e in I.events[n0:] if k in MIX]
        if ev:
            raise Undecided(f"{ev[0][0]} at {fmtloc(ev[0][1]['loc'])}")
        out = []
        for shape, cells in r:
            tr, lead = strip(shape, b)
            if not lead and any(isinstance(d_, SymSize) for d_ in shape):
                rep.bad("shape", c.construct, key, c.where, f"result of shape {fmtshape(shape)} for a batch {fmtshape(b)}")
                return
            vary = set(c.vary)
            if not lead:
                dep = [v for t in cells for v in tm.free(T(t)) if v in vary]
                if dep and b:
                    rep.bad("shape", c.construct, key, c.where, f"a result of shape {fmtshape(shape)} depends on {dep[0]} of the batch {fmtshape(b)}")
                    return
            out.append((tr, lead, cells))
        k = (c.construct, c.key)
        if k not in ref:
            ref[k] = out
            rep.ok("independent", c.construct, key)
            return
        compare(rep, "independent", c, key, ref[k], out, ("",))


def compare(rep, rid, c, key, want, got, suffixes):
    if len(want) != len(got):
        rep.bad(rid, c.construct, key, c.where, f"{len(got)} results instead of {len(want)}")
        return
    und = None
    for q, ((tr, lead, cells), (tr2, lead2, cells2)) in enumerate(zip(want, got)):
        if tr != tr2 or lead != lead2:
            rep.bad("shape", c.construct, key, c.where, f"result {q} has shape {fmtshape(tr2)} {'per entry' if lead2 else 'without batch'} instead of {fmtshape(tr)} {'per entry' if lead else 'without batch'}")
            return
        n = len(cells)
        for j, s in enumerate(suffixes if lead else ("",)):
            m = {v: var(v + s) for v in c.vary} if s else {}
            if c.kind == "control" and s:
                # the roots of the nonlinear solve are numbered
                m["x0_0"] = var(f"x0_{j}")
            if s and s != "@":
                # parameters of the members: the last axis of the batch
                m["member"] = var("member@" + s[1:].split("_")[-1], "pos")
            for i, w in enumerate(cells):
                g = T(cells2[j * n + i])
                w = T(w)
                if m:
                    w = rename(w, m)
                if g is w:
                    continue
                v = tm.equal(g, w)
                if v.status == tm.DIFFERENT:
                    x = v.witness
                    rep.bad(rid, c.construct, key, c.where, f"result {q}, entry {s or 'only'}: {short(g)} instead of {short(w)}; at {fmt(x['point'])} these are {fmtnum(x['left'])} and {fmtnum(x['right'])}", x)
                    return
                if v.status != tm.PROVED:
                    und = und or v.how
    if und:
        rep.und(rid, c.construct, key, und)
    else:
        rep.ok(rid, c.construct, key)


def rename(t, m):
    return tm.subst(t, m)


def entries(rep, I, c, b, ref):
    if c.kind in ("print",):
        return
    if c.construct == "models.BothBasedModel":
        return      # entries differ by their control mode: C05
    if c.kind == "piecewise":
        return piecewise(rep, I, c, b, ref)
    k = (c.construct, c.key)
    key = f"{c.key}, batch {fmtshape(b)}"
    with rep.guard("entry", c.construct, key):
        r = image(c.call())
        want = ref.get(k)
        lead = None if want is None else [w[1] for w in want]
        out = []
        for q, (shape, cells) in enumerate(r):
            tr, ld = strip(shape, b)
            if lead is not None and q < len(lead):
                if not lead[q]:
                    tr, ld = tuple(shape), False
                elif not ld:
                    rep.bad("shape", c.construct, key, c.where, f"result {q} of shape {fmtshape(shape)} for a batch {fmtshape(b)}")
                    return
            out.append((tr, ld if lead is None or q >= len(lead) else lead[q], cells))
        if want is None:
            if b == ():
                # no generic entry: the single evaluation is the reference
                ref[k] = [(tr, True, tuple(strip_suffix(x) for x in cells)) for tr, _, cells in out]
                rep.ok("entry", c.construct, key)
                return
            raise Undecided("no reference")
        compare(rep, "entry", c, key, want, out, label(b))


def strip_suffix(t):
    return rename(T(t), {v: var(v[:-1]) for v in tm.free(T(t)) if v.endswith("@")})


def piecewise(rep, I, c, b, ref):
    """the law at several places of its control points: each entry as alone"""
    key = f"{c.key}, batch {fmtshape(b)}"
    with rep.guard("entry", c.construct, key):
        (shape, cells), = image(c.call())
        if tuple(shape) != tuple(b):
            rep.bad("shape", c.construct, key, c.where, f"result of shape {fmtshape(shape)} for a batch {fmtshape(b)}")
            return
        if b == ():
            ref[(c.construct, c.fns, c.places[0])] = strip_suffix(cells[0])
            rep.ok("entry", c.construct, key)
            return
        for p, s, g in zip(c.places, label(b), cells):
            w = rename(ref[(c.construct, c.fns, p)], {"Tq": var("Tq" + s)})
            v = tm.equal(T(g), w)
            if v.status == tm.DIFFERENT:
                rep.bad("entry", c.construct, key, c.where, f"entry {s} at place {p}: {short(g)} instead of {short(w)}")
                return
            if v.status != tm.PROVED:
                raise Undecided(v.how)
        rep.ok("entry", c.construct, key)
