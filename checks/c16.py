"""C16: a nonlinear solve never returns an unconverged point silently."""
from .newton import *
from . import sizes

F = Fraction


def bad(v):
    return v in (INFN, NANN)


def le(v, lim):
    if v == NANN or lim == NANN:
        return False
    if lim == INFN:
        return True
    if v == INFN:
        return False
    return v <= lim


def times(r, v):
    return v if bad(v) else r * v


def run(rep):
    rep.minimum = 100
    thorough = rep.tier == "thorough"
    rep.rule("silent", "no path returns without a warning or an exception unless all residual norms meet the absolute tolerance or all meet the relative one")
    rep.rule("non-finite", "every path whose final residual is not finite warns or raises")
    rep.rule("raise", "when the caller asks for it every failure raises instead of warning")
    rep.rule("reach", "both kinds of end, converged and failed, are reached by the walk")
    rep.assume("the loops read the residuals only through their norms, and the norms only by comparison with the tolerances, with each other and with infinity: one representative stands for its class")
    rep.assume("an entry whose residual is not a number keeps one (its iterate is not a number after the next step)")
    rep.assume("the restarted Krylov solver returns some increment (its accuracy is not part of this property)")
    # (atol, rtol, classes)
    mixes = [
        ("atol below", F(1, 128), F(1, 8), [F(1, 256), F(1), F(16), INFN, NANN], [F(1), F(16), NANN], [F(1), F(16)]),
        ("atol above", F(5), F(1, 1024), [F(1), F(5), F(20), NANN], [F(5), F(20), NANN], [F(5), F(20)]),
        ("no atol", F(0), F(1, 8), [F(0), F(1), F(8), F(200)], [F(0), F(8), F(200)], [F(8), F(200)]),
        ("no rtol", F(1), F(0), [F(0), F(1), F(3), INFN], [F(1), F(3), INFN], [F(1), F(3)]),
    ]
    for s in SOLVERS:
        for nm, atol, rtol, cl, three, small in mixes:
            bt = s.endswith("_bt")
            plans = [(0, cl, {}), (1, cl if thorough else three, {}), (2, [c for c in cl if c != INFN] if len(cl) > 4 else cl, {})]
            if thorough:
                plans.append((3, three, {}))
            if bt:
                plans = [(0, cl, {"max_bt": 1}), (1, three, {"max_bt": 0}), (2, small, {"max_bt": 0}), (1, three if thorough or nm == "atol below" else small, {"max_bt": 1})]
                if thorough:
                    plans += [(2, three, {"max_bt": 0}), (1, small, {"max_bt": 3})]
            if s.endswith("chunk"):
                plans = [(m, c, dict(o, **e)) for m, c, o in plans for e in ({}, {"throw_on_fail": True})]
            if "Preconditioner" in s:
                plans = [(m, c, dict(o, **e)) for m, c, o in plans for e in ({"_niter": 0}, {"_niter": 9})]
            for miter, use, o in plans:
                key = f"{nm}, at most {miter} iterations" + "".join(f", {k}={v}" for k, v in o.items())
                one(rep, s, key, use, atol, rtol, miter, o, n=1)
                if miter == 2 and nm == "atol below":
                    one(rep, s, key + ", two unknowns", small, atol, rtol, miter, o, n=2)
    long(rep)


def long_histories(m):
    """residual norms of two entries over m evaluations that never meet the
    tolerances 1/128 and 1/8192, or only in one entry, or only in the last evaluation"""
    k = range(m)
    out = [("stalled", [(F(1), F(1)) for _ in k]),
           ("stalled at a large value", [(F(10 ** 6), F(10 ** 5)) for _ in k]),
           ("stalled just above", [(F(1, 100), F(1, 64)) for _ in k]),
           ("stalled after a large first residual", [(F(1), F(1))] + [(F(1, 100), F(1, 64)) for _ in range(m - 1)]),
           ("slow", [(1 - F(i, 10 ** 5), F(1)) for i in k]),
           ("slow in both", [(2 - F(i, 100), 3 - F(i, 50)) for i in k]),
           ("linear", [(F(1) + F(1, 2 ** i), F(2) + F(1, 3 ** i)) for i in k]),
           ("growing", [(F(2) ** i, F(1)) for i in k]),
           ("exploding", [(F(100) ** i, F(1000) ** i) for i in k]),
           ("alternating", [(F(1), F(3)) if i % 2 else (F(3), F(1)) for i in k]),
           ("one entry at zero", [(F(1), F(2))] + [(F(0), F(1)) for _ in range(m - 1)]),
           ("one entry converging", [(F(1, 4 ** i), F(1)) for i in k]),
           ("small mean", [(F(1), F(1))] + [(F(1, 10 ** 9), F(1, 100)) for _ in range(m - 1)]),
           ("not a number late", [(F(1), F(1)) for _ in range(m - 2)] + [(NANN, F(1)), (NANN, F(1))]),
           ("late", [(F(1), F(2)) for _ in range(m - 1)] + [(F(1, 10 ** 6), F(1, 10 ** 5))]),
           ("late in one entry", [(F(1), F(2)) for _ in range(m - 1)] + [(F(1, 10 ** 6), F(2))]),
           ("converged and back", [(F(1), F(2))] + [((F(1, 10 ** 9), F(1)) if i % 2 else (F(1), F(1, 10 ** 9))) for i in range(1, m)])]
    return out


def long(rep):
    """long histories, with Jacobians that make the steps large, ordinary or negligible"""
    I = fresh_interp()
    more = sizes.beyond(I, ("solvers", "chunktime"), 12, 60)
    for s in SOLVERS:
        opts = [{}]
        if s.endswith("_bt"):
            opts = [{"max_bt": 0}, {}]
        if s.endswith("chunk"):
            opts = [{}, {"throw_on_fail": True}]
        if "Preconditioner" in s:
            opts = [{"_niter": 0}, {"_niter": 9}]
        for m in sorted({6, 14} | {c + 3 for c in more if c not in (9, 10, 11, 12)}):
            for nm, h in long_histories(m):
                for scale in (F(1), F(10 ** 12), F(1, 10 ** 6), None) if m == 14 else (F(1),):
                    for n in (1, 2):
                        for o in opts:
                            for miter in (m - 1, 100):
                                key = f"{m} evaluations, {nm}, {n} unknowns" + ("" if scale is None else f", Jacobian {float(scale):g}") + f", at most {miter} iterations" + "".join(f", {k}={v}" for k, v in o.items())
                                single(rep, s, key, h, F(1, 128), F(1, 8192), miter, dict(o, **({} if scale is None else {"_scale": scale})), n, I)


def single(rep, s, key, h, atol, rtol, miter, o, n, I):
    with rep.guard("silent", s, key):
        try:
            w = walk(s, h, n=n, I=I, rtol=rtol_(rtol), atol=rtol_(atol), miter=miter, **o)
        except NeedMore:
            rep.ok("silent", s, key, "goes on")
            return
        p = judge(w, h, atol, rtol, o)[0]
        if p:
            rep.bad(p[0], s, key, w.where, p[1])
        else:
            rep.ok("silent", s, key)


def judge(w, h, atol, rtol, o):
    """(problem, converged, reported) of one finished walk"""
    if w.raised is not None and getattr(w.raised.exc, "cls", "") not in ("RuntimeError", "ValueError", "ArithmeticError", "FloatingPointError", "ConvergenceError", "Exception"):
        return ("silent", f"history {show(h)}: {w.raised.exc}"), False, True
    x = w.result[0] if isinstance(w.result, tuple) else w.result
    flagged = w.warned or w.raised is not None
    fin = h[len(w.script.points) - 1]
    if x is not None:
        k = w.script.last_at(x)
        if k is None:
            return (None if flagged else ("silent", f"history {show(h)}: the residual is never evaluated at the returned point")), False, flagged
        fin = h[k]
    ok = not any(bad(v) for v in fin) and (all(le(v, atol) for v in fin) or all(le(v, times(rtol, v0)) for v, v0 in zip(fin, h[0])))
    p = None
    if any(bad(v) for v in fin) and not flagged:
        p = ("non-finite", f"history {show(h)}: returns silently with a non-finite residual")
    elif not ok and not flagged:
        p = ("silent", f"history {show(h)}: returns silently with residual norms {show([fin])} at atol={atol}, rtol={rtol}")
    elif o.get("throw_on_fail") and w.warned:
        p = ("raise", f"history {show(h)}: warns although an exception was requested")
    return p, ok and not flagged, flagged


def one(rep, s, key, classes, atol, rtol, miter, o, n):
    with rep.guard("silent", s, key):
        paths = fails = conv = 0
        problem = None
        kw = dict(o, rtol=rtol_(rtol), atol=rtol_(atol), miter=miter)
        for h, w in explore(s, classes, kw, n=n):
            paths += 1
            problem, c, f = judge(w, h, atol, rtol, o)
            conv += c
            fails += f
            if problem:
                break
        if problem:
            rep.bad(problem[0], s, key, w.where, problem[1])
            return
        rep.ok("silent", s, key, f"{paths} paths")
        if any(bad(c) for c in classes):
            rep.ok("non-finite", s, key, f"{paths} paths")
        if o.get("throw_on_fail"):
            rep.ok("raise", s, key, f"{paths} paths")
        if miter > 1 and classes[0] != classes[-1]:
            rep.fact("reach", s, key, bool(conv) and bool(fails), w.where, f"{paths} paths: {conv} converge silently, {fails} are reported: a solver that {'never succeeds' if not conv else 'never reports'}")
        rep.notes.append(f"{s} {key}: {paths} paths, {fails} reported, {conv} converged")


def rtol_(v):
    return float(v)


def show(h):
    return " then ".join("(" + ", ".join(str(v) for v in s) + ")" for s in h)
