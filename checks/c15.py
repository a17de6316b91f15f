"""C15: evaluations leave their inputs and stored parameters unchanged."""
from .effects import *
from itertools import chain
from . import sizes

BATCHES = [(), (1,), (2,), (1, 1), (2, 1), (2, 2)]


def run(rep):
    rep.minimum = 600
    rep.rule("unchanged", "no tensor, list or dictionary handed in, and no tensor held by the object, has another value after the call")
    rep.rule("repeat", "the same call again returns the same values")
    rep.rule("construct", "building an object leaves the tensors, lists and dictionaries handed to it unchanged")
    rep.assume("components and functions handed in return fresh tensors; a parameter that does not depend on temperature returns its stored tensor")
    batches = BATCHES + ([(3,), (1, 2), (1, 1, 1), (2, 1, 2)] if rep.tier == "thorough" else [])
    batches += [(k,) for k in sizes.beyond(fresh_interp(), RATE_MODULES + ("neuralode",), 3, 70, 6)]
    for b in batches:
        I = watched(rep, fresh_interp(), f"batch {fmtshape(b)}")
        for c in pointwise(I, b):
            one(rep, I, c, f"batch {fmtshape(b)}")
    I = watched(rep, fresh_interp(), "")
    for c in others(I):
        one(rep, I, c, "")


def one(rep, I, c, lab):
    key = ", ".join(x for x in (c.key, lab) if x)
    with rep.guard("unchanged", c.construct, key):
        snap = Snapshot(c.given)
        rs = []
        try:
            for _ in range(2):
                rs.append(image(c.call()))
        finally:
            ch = snap.changes()
            if ch:
                p, what, loc = ch[0]
                rep.bad("unchanged", c.construct, key, fmtloc(loc) if isinstance(loc, tuple) else c.where, f"{p} is changed by the call: {what}")
        if ch:
            return
        rep.ok("unchanged", c.construct, key, f"{len(snap.st)} memories, {len(snap.con)} containers")
        if c.kind in ("random", "print"):
            return
        a, b = rs
        if len(a) != len(b) or any(x[0] != y[0] for x, y in zip(a, b)):
            rep.bad("repeat", c.construct, key, c.where, f"the second call returns {[fmtshape(x[0]) for x in b]} instead of {[fmtshape(x[0]) for x in a]}")
            return
        und = None
        for x, y in zip(a, b):
            for p, q in zip(x[1], y[1]):
                if p is q:
                    continue
                v = tm.equal(T(p), T(q))
                if v.status == tm.DIFFERENT:
                    rep.bad("repeat", c.construct, key, c.where, f"the second call returns {short(q)} instead of {short(p)}")
                    return
                und = und or (v.how if v.status != tm.PROVED else None)
        if und:
            rep.und("repeat", c.construct, key, und)
        else:
            rep.ok("repeat", c.construct, key, f"{sum(len(x[1]) for x in a)} values")


def watched(rep, I, lab):
    """compares what is handed to the outermost constructions before and after"""
    real, depth, seen = I.call, [0], {}

    def call(f, args, kw):
        if depth[0] or not isinstance(f, ClassVal):
            depth[0] += 1
            try:
                return real(f, args, kw)
            finally:
                depth[0] -= 1
        given = {**{f"argument {k}": v for k, v in enumerate(args)}, **kw}
        snap = Snapshot(given)
        depth[0] += 1
        try:
            return real(f, args, kw)
        finally:
            depth[0] -= 1
            name = f"{f.module.name.replace('pyoptmat.', '')}.{f.name}"
            ch = snap.changes()
            n = seen[name] = seen.get(name, 0) + 1
            key = ", ".join(x for x in (lab, f"construction {n}") if x)
            if ch:
                p, what, loc = ch[0]
                rep.bad("construct", name, key, fmtloc(loc) if isinstance(loc, tuple) else mwhere(f, "__init__"), f"{p} is changed by building the object: {what}")
            elif n <= 3 or len(snap.con):
                rep.ok("construct", name, key, f"{len(snap.st)} memories, {len(snap.con)} containers")

    I.call = call
    return I
