"""C13: options reach the solves they govern; the adjoint tracks the right tensors."""
from .integ import *

FACTOR = {"thomas": "BidiagonalThomasFactorization", "pcr": "BidiagonalPCRFactorization", "hybrid": "BidiagonalHybridFactorization"}


def run(rep):
    rep.minimum = 60
    rep.rule("newton-option", "tolerances, iteration limit and failure policy arrive unchanged at every nonlinear solve")
    rep.rule("block", "blocks have the requested size, the last one what is left")
    rep.rule("linear", "the requested linear solve is the one performed")
    rep.rule("direct", "the requested factorization, with its minimum size, is used by the forward solve and by the adjoint pass")
    rep.rule("scheme", "the requested method's residual is solved")
    rep.rule("guess", "the requested starting guess is used")
    rep.rule("reject", "unknown names and options are rejected")
    rep.rule("tracked", "the adjoint tracks the right-hand side's parameters, then the extra ones, then a differentiated initial state")
    rep.rule("forward-options", "model integration passes its options and its right-hand side to the requested integrator")
    for entry in ("odeint", "odeint_adjoint"):
        options(rep, entry)
    tracked(rep)
    models(rep)


def observe(I):
    seen = []
    for n in FACTOR.values():
        def h(i, args, kw, n=n):
            extra = [a for a in list(args) + list(kw.values()) if not isinstance(a, Tensor)]
            seen.append((n, extra))
            return NotImplemented
        I.intercepts["chunktime." + n] = h
    return seen


def launch(entry, kw, nt=6, batch=(2,), n=2, y0grad=False, backward=True, f=None):
    """interpret one integration and, for the adjoint entry, its gradient"""
    I = fresh_interp()
    seen = observe(I)
    f = f or rhs(n)
    log = dict(forward=[], backward=[], I=I, f=f, dense=0, direct=0)

    def visit(rec):
        n0 = len(I.events)
        k0 = len(seen)
        I.call(I.getattr(rec["solver"], "solve"), [rec["J"], rec["R"]], {})
        if len(seen) > k0:
            log["forward"] += seen[k0:]
            log["direct"] += 1
        A = [e["A"].shape for q, e in I.events[n0:] if q == "linear-solve"]
        if any(s[-1] == rec["R"].shape[-1] for s in A) and len(seen) == k0:
            log["dense"] += 1

    tap = Tap(I, visit)
    t, y0 = times(nt, batch), y0_of(batch, n)
    y0.requires_grad = y0grad
    log.update(t=t, y0=y0)
    res = I.call(I.get("ode." + entry), [f, y0, t], dict(kw))
    log["solves"] = tap.solves
    log["res"] = res
    if entry == "odeint_adjoint" and backward:
        e = [e for k, e in I.events if k == "function-applied"][-1]
        log["apply"] = e
        G = new(res.shape, [var(f"g{k}") for k in range(res.ncells())], "float", "D")
        bw, _ = e["cls"].lookup("backward")
        k0 = len(seen)
        f.calls.clear()
        I.call(bw.f if isinstance(bw, StaticVal) else bw, [e["ctx"], G], {})
        log["backward"] = seen[k0:]
        log["back-calls"] = list(f.calls)
    return log


def opt(rep, rid, entry, key, kw, ok, w=None):
    cn = f"ode.{entry}"
    with rep.guard(rid, cn, key):
        l = launch(entry, kw)
        bad = ok(l)
        rep.fact(rid, cn, key, bad is None, w or where_func(l["I"].get("ode." + entry)), bad or "")


def options(rep, entry):
    def newton(name, val):
        def ok(l):
            if not l["solves"]:
                return "no nonlinear solve"
            for s in l["solves"]:
                if name not in s["args"]:
                    return f"the nonlinear solver has no {name}"
                got = s["args"][name]
                if isinstance(got, Tensor):
                    got = numval(got.item_cell())
                if got != val or isinstance(got, bool) != isinstance(val, bool):
                    return f"{name} is {got} in the nonlinear solve, {val} was requested"
        return ok

    for name, vals in (("rtol", (1.0e-6, 0.375, 0.0)), ("atol", (1.0e-8, 0.0625)), ("miter", (1, 7, 250)), ("throw_on_fail", (True, False))):
        for v in vals:
            for block in (1, 3):
                opt(rep, "newton-option", entry, f"{name}={v} blocks of {block}", {name: v, "block_size": block}, newton(name, v))
    # defaults
    for name, v in (("rtol", 1.0e-6), ("atol", 1.0e-8), ("miter", 100), ("throw_on_fail", False)):
        pass
    # several options together
    opt(rep, "newton-option", entry, "all together", {"rtol": 0.25, "atol": 0.5, "miter": 3, "throw_on_fail": True, "block_size": 2},
        lambda l: newton("rtol", 0.25)(l) or newton("atol", 0.5)(l) or newton("miter", 3)(l) or newton("throw_on_fail", True)(l))

    def blocks(b):
        def ok(l):
            nt = l["t"].shape[0]
            want = [min(b, nt - k) for k in range(1, nt, b)]
            got = [s["R"].ncells() // 4 for s in l["solves"]]
            if got != want:
                return f"blocks of {got} steps instead of {want}"
            if "back-calls" in l:
                # the gradient pass linearises block by block too
                got = sorted(c[0].shape[0] for c in l["back-calls"])
                if not got or max(got) > b + 1:
                    return f"the gradient pass evaluates {max(got) if got else 0} times at once, blocks of {b} were requested"
        return ok

    for b in (1, 2, 3, 5, 8):
        opt(rep, "block", entry, f"block_size={b}", {"block_size": b}, blocks(b))
    opt(rep, "block", entry, "default block size", {}, blocks(1))
    for lin in ("dense", "direct"):
        for b in (1, 3):
            def ok(l, lin=lin):
                n = len(l["solves"])
                if l[lin] != n:
                    return f"{lin} linear solve requested, performed in {l[lin]} of {n} solves"
            opt(rep, "linear", entry, f"linear_solve_method={lin} blocks of {b}", {"linear_solve_method": lin, "block_size": b}, ok)
    for ds, cname in FACTOR.items():
        for ms in ((0, 3, 5) if ds == "hybrid" else (0,)):
            for method in SCHEMES:
                def ok(l, cname=cname, ms=ms, ds=ds):
                    for where_, lst in (("forward solve", l["forward"]),) + ((("adjoint pass", l["backward"]),) if "apply" in l else ()):
                        if not lst:
                            return f"no factorization in the {where_}"
                        for c, extra in lst:
                            if c != cname:
                                return f"the {where_} uses {c}, {ds} was requested"
                            if ds == "hybrid" and extra != [ms] and not (ms == 0 and not extra):
                                return f"the {where_} uses minimum size {extra}, {ms} was requested"
                kw = {"direct_solve_method": ds, "block_size": 4, "method": method}
                if ds == "hybrid":
                    kw["direct_solve_min_size"] = ms
                opt(rep, "direct", entry, f"direct_solve_method={ds} minimum {ms} {method}", kw, ok)
    for method in list(SCHEMES) + [None]:
        def ok(l, method=method):
            m = method or "backward-euler"
            eqs = [e for row in step_equations(l["f"], l["res"], l["t"], m) for b in row for e in b]
            miss, left, und = match_equations(eqs, [c for s in l["solves"] for c in s["R"].cells()])
            if und:
                raise Undecided("equations of the method")
            if miss:
                return f"the equations solved are not those of {m}"
        opt(rep, "scheme", entry, f"method={method}", {"method": method, "block_size": 2} if method else {"block_size": 2}, ok)

    def guess(kind):
        def ok(l):
            y = l["res"].cells()
            n, nb = 2, 2
            k = 1
            for q, s in enumerate(l["solves"]):
                m = s["R"].ncells() // (n * nb)
                g = s["x0"].cells()
                want = None
                if kind == "zero" or q == 0:
                    want = [ZERO] * len(g)
                elif m == 2:
                    Y = lambda j, b, i: y[(j * nb + b) * n + i]
                    want = [Y(k - 2 + j, b, i) - Y(k - 3, b, i) for b in range(nb) for j in range(2) for i in range(n)]
                if want is not None:
                    for a, c in zip(g, want):
                        if tm.equal(a, c).status == tm.DIFFERENT:
                            return f"guess of block {q + 1} is {short(a)} instead of {short(c)}"
                k += m
        return ok

    opt(rep, "guess", entry, "guess_type=zero", {"guess_type": "zero", "block_size": 2}, guess("zero"))
    opt(rep, "guess", entry, "default guess", {"block_size": 2}, guess("zero"))
    opt(rep, "guess", entry, "guess_type=previous", {"guess_type": "previous", "block_size": 2}, guess("previous"))
    for name, v in (("method", "forward_euler"), ("method", "rk4"), ("linear_solve_method", "gmres"), ("direct_solve_method", "lu"), ("guess_type", "last"), ("no_such_option", 1)):
        cn = f"ode.{entry}"
        with rep.guard("reject", cn, f"{name}={v}"):
            try:
                launch(entry, {name: v, "block_size": 2}, backward=False)
                rep.bad("reject", cn, f"{name}={v}", where_func(fresh_interp().get("ode." + entry)), f"{name}={v!r} is accepted")
            except PyRaise as r:
                rep.ok("reject", cn, f"{name}={v}", str(r.exc))


def tracked(rep):
    cn = "ode.odeint_adjoint"
    for nown in (0, 1, 3):
        for nextra in (None, 0, 2):
            for y0grad in (False, True):
                if not nown and not nextra and not y0grad:
                    pass
                key = f"{nown} parameters, {nextra} extra, initial state {'differentiated' if y0grad else 'fixed'}"
                with rep.guard("tracked", cn, key):
                    f = rhs(2, nown)
                    own = list(f.params)
                    ex = [inputs(f"q{k}", (), "real") for k in range(nextra or 0)]
                    for e in ex:
                        e.requires_grad = True
                    f.params = f.params + ex
                    kw = {"block_size": 2}
                    if nextra is not None:
                        kw["extra_params"] = ex
                    l = launch("odeint_adjoint", kw, y0grad=y0grad, f=f)
                    want = own + ex + ([l["y0"]] if y0grad else [])
                    got = [a for a in l["apply"]["args"] if isinstance(a, Tensor) and a.st is not l["t"].st]
                    rep.fact("tracked", cn, key, len(got) == len(want) and all(a.st is b.st for a, b in zip(got, want)),
                             where_func(l["I"].get("ode.odeint_adjoint")), f"tracks {[a.st.tag or 'initial state' for a in got]} instead of {[a.st.tag or 'initial state' for a in want]}")


def models(rep):
    opts = {"block_size": 5, "rtol": 0.25, "atol": 0.125, "miter": 9, "method": "forward-euler", "linear_solve_method": "dense",
            "direct_solve_method": "pcr", "guess_type": "previous", "throw_on_fail": True, "extra_params": ["q"], "direct_solve_min_size": 4}
    B = (2,)
    for adj in (True, False, None):
        for name in ("solve_both", "solve_strain", "solve_stress"):
            for kw in ({}, opts):
                I = fresh_interp()
                c = I.get("models.ModelIntegrator")
                cn = short_name(c)
                key = f"{name}, use_adjoint={adj}, {len(kw)} options"
                with rep.guard("forward-options", cn, key):
                    seen = []
                    for n in ("odeint", "odeint_adjoint"):
                        def h(i, a, k, n=n):
                            v = i.bindargs(i.get("ode." + n), a, k)
                            seen.append((n, v))
                            return "result"
                        I.intercepts["ode." + n] = h
                    model = InelasticC("model", 3)
                    extra = {} if adj is None else {"use_adjoint": adj}
                    o = I.call(c, [model], {**extra, **kw})
                    t = new((4, 2), [var(f"t{k}_{j}") for k in range(4) for j in range(2)])
                    x = new((4, 2), [var(f"d{k}_{j}") for k in range(4) for j in range(2)])
                    T_ = new((4, 2), [var(f"T{k}_{j}") for k in range(4) for j in range(2)])
                    a = {"solve_both": [t, T_, x, new((2,), [ZERO, ONE])], "solve_strain": [t, x, T_], "solve_stress": [t, x, T_]}[name]
                    r = I.call(method(I, o, name), a, {})
                    w = mwhere(c, name)
                    want = "odeint" if adj is False else "odeint_adjoint"
                    if len(seen) != 1 or seen[0][0] != want:
                        rep.bad("forward-options", cn, key, w, f"integrates with {[s[0] for s in seen]}, {want} was requested")
                        continue
                    v = seen[0][1]
                    got = {k: v[k] for k in ("method", "extra_params") if k in v and v[k] is not None and (k in kw or v[k] != "backward-euler")}
                    got.update(v.get("kwargs", {}))
                    bad = [k for k in set(got) | set(kw) if got.get(k) != kw.get(k) or (k in got) != (k in kw)]
                    rep.fact("forward-options", cn, key, not bad and r == "result", w, f"options {sorted(bad)} do not arrive unchanged" if bad else "the integrator's result is not returned")
