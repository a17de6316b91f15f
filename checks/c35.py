"""C35: results follow the present values of the parameters."""
from .effects import *

NEW = "~"


def owners(v, out, path=""):
    """the tensors of parameters among what was handed to a constructor: (path, tensor)"""
    if isinstance(v, Tensor):
        if v.kind == "parameter":
            out.append((path, v))
    elif isinstance(v, TPArg):
        out.extend((path, t) for t in list(v._const.values()) + ([v._t] if v._t is not None and v.called else []))
    elif isinstance(v, dict):
        for k, x in v.items():
            owners(x, out, str(k))
    elif isinstance(v, (list, tuple)):
        for k, x in enumerate(v):
            owners(x, out, f"{path}[{k}]")
    return out


def run(rep):
    rep.minimum = 400
    rep.rule("current", "after the values of the parameters change in place a new evaluation gives what a model built with the new values gives")
    rep.rule("first", "the same where the first evaluation happens after the change")
    rep.assume("plain numbers and constants handed to a constructor do not change")
    bs = [(SymSize("B"),), (2,)] + ([(), (1,), (SymSize("N"), SymSize("B"))] if rep.tier == "thorough" else [])
    for b in bs:
        lab = bl(b) if any(isinstance(d_, SymSize) for d_ in b) else f"batch {fmtshape(b)}"
        for rid in ("current", "first"):
            I = fresh_interp()
            for c in pointwise(I, b):
                if c.kind == "piecewise" and any(isinstance(d_, SymSize) for d_ in b) or c.kind in ("print", "scaling"):
                    continue
                one(rep, I, c, lab, rid)


def renewer(names):
    memo = {}

    def go(t):
        for u in tm.postorder([t]):
            if u in memo:
                continue
            ch = [x for x in u.args if isinstance(x, Term)] if u.op != "app" else list(u.args[2])
            n = [memo[x] for x in ch]
            if u.op == "app" and u.args[0] in VERSIONED:
                memo[u] = tm.app(u.args[0] + NEW, n, u.args[1])
            elif u.op == "var" and u.args[0] in names:
                memo[u] = var(u.args[0] + NEW, **tm.VARINFO.get(u.args[0], {}))
            else:
                memo[u] = u if all(a is b for a, b in zip(n, ch)) else tm.rebuild(u, n)
        return memo[t]
    return go


def one(rep, I, c, lab, rid):
    key = ", ".join(x for x in (c.key, lab) if x)
    with rep.guard(rid, c.construct, key):
        try:
            r1 = image(c.call()) if rid == "current" else None
            own = owners({k: v for k, v in c.given.items()}, [])
            names = {x.args[0] for _, t in own for x in t.st.cells if isinstance(x, Term) and x.op == "var"}
            go = renewer(names)
            saved = [(s, list(s.cells)) for s in {id(t.st): t.st for _, t in own}.values()]
            VERSION[0] = NEW
            try:
                for s, old in saved:
                    s.cells[:] = [go(T(x)) for x in old]
                r2 = image(c.call())
            finally:
                VERSION[0] = ""
                for s, old in saved:
                    s.cells[:] = old
            if r1 is None:
                r1 = image(c.call())
        except (Undecided, SymBranch) as e:
            rep.und(rid, c.construct, key, str(e))
            return
        if [s for s, _ in r1] != [s for s, _ in r2]:
            rep.bad(rid, c.construct, key, c.where, "after a change of the parameters the results have other shapes")
            return
        und, n = None, 0
        for (_, a), (_, b) in zip(r1, r2):
            for x, y in zip(a, b):
                n += 1
                x, y = go(T(x)), T(y)
                if x is y:
                    continue
                v = tm.equal(x, y)
                if v.status == tm.DIFFERENT:
                    rep.bad(rid, c.construct, key, c.where, f"after the parameters changed the result is {short(y)} instead of {short(x)}: something computed from the old values is still in use")
                    return
                if v.status != tm.PROVED:
                    und = und or v.how
        if und:
            rep.und(rid, c.construct, key, und)
        else:
            rep.ok(rid, c.construct, key, f"{n} values")
