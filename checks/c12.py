"""C12: gradients of the adjoint pass are those of the discrete time-stepping equations."""
from .integ import *
from sa import torchlib as tl
from . import sizes


def run(rep):
    rep.minimum = 60
    rep.rule("value", "the adjoint integrator returns the trajectory of the plain integrator")
    rep.rule("gradient", "the gradient of each tracked tensor, in the order it was passed, is that of the loss through the discrete equations")
    rep.rule("again", "a second backward pass through the same integration gives the same gradients")
    rep.rule("sparse", "a loss gradient that is exactly zero at some times gives the same part of the gradient as a general one")
    rep.rule("idle", "a parameter without influence on the rates gets no gradient or a zero one, and neither it nor a parameter that is not differentiated hinders the others")
    rep.rule("untracked", "no gradient is reported for the solver object and the times, and one for each tracked tensor")
    rep.assume("the right-hand side returns its exact Jacobian and the nonlinear solves converged")
    big = rep.tier == "thorough"
    for method in SCHEMES:
        more = sizes.beyond(fresh_interp(), ("ode", "chunktime", "utility"), 6)
        extra = {(nt, b) for nt in (9, 10, 17, 18, 34) for b in (1, 3, 4, 8, nt - 2, nt - 1)} | {(nt, b) for c in more if c <= 50 for nt in (c, c + 1, c + 2) for b in (1, 2, c - 1, c, c + 1) if b < nt}
        for nt, block in sorted(extra):
            one(rep, method, 1, nt, block, (1,), True, "thomas", 1)
        for nt in sorted({6, 9, 17} | {c for c in more if c <= 50}):
            for ds in ("pcr", "hybrid"):
                one(rep, method, 1, nt, nt - 1, (1,), True, ds, 1)
                one(rep, method, 1, nt, nt // 2, (2,), True, ds, 1)
        for q in sorted({3, 4, 5, 8, 9, 17, 33} | {c for c in more if c <= 66}):
            one(rep, method, 1, 4, 2, (q,), True, "thomas", 1)
        for n in sorted({4, 5} | {c for c in more if c <= 6}):
            one(rep, method, n, 2, 1, (1,), True, "thomas", 1)
        for n, nts, batches_ in ((1, (1, 2, 3, 4, 5, 6), ((1,), (2,), (3,))), (2, (2, 3, 4, 5), ((1,), (2,))), (3, (2, 3), ((1,),))):
            for nt in nts if not big else nts + (nts[-1] + 1,):
                for block in range(1, nt + 1):
                    for batch in batches_:
                        for y0grad in (True, False):
                            if not big and not y0grad and (nt > 3 or batch != (1,)):
                                continue
                            one(rep, method, n, nt, block, batch, y0grad, "thomas", 2)
        for ds in ("pcr", "hybrid"):
            one(rep, method, 1, 5, 4, (2,), True, ds, 2)
            one(rep, method, 1, 6, 3, (1,), True, ds, 1)
        one(rep, method, 2, 3, 2, (2,), True, "pcr", 2)
        one(rep, method, 1, 4, 2, (1,), True, "thomas", 0)
        one(rep, method, 1, 4, 2, (1,), False, "thomas", 1, extra=True)
        one(rep, method, 1, 4, 2, (1,), True, "thomas", 2, extra=True)
        for ds in ("thomas", "pcr", "hybrid"):
            for n, nt, block, batch in ((1, 4, 2, (1,)), (1, 4, 3, (2,)), (2, 3, 1, (2,)), (2, 3, 2, (1,))):
                one(rep, method, n, nt, block, batch, True, ds, 1, used=True)
        for y0grad in (True, False):
            for spare in (("idle",), ("frozen",), ("idle", "frozen")):
                for nparams in (1, 2):
                    one(rep, method, 1, 4, 2, (1,), y0grad, "thomas", nparams, spare=spare)
                    one(rep, method, 1, 3, 2, (2,), y0grad, "thomas", nparams, extra=True, spare=spare)
        for nt, block, batch in ((1, 1, 1), (2, 1, 1), (3, 1, 2), (4, 1, 1), (4, 2, 2), (5, 2, 1), (5, 4, 2), (6, 3, 1), (9, 2, 1)):
            sparse(rep, method, nt, block, batch)
        for spare in (("idle",), ("frozen",)):
            one(rep, method, 1, 3, 2, (1,), True, "thomas", 0, spare=spare)


def one(rep, method, n, nt, block, batch, y0grad, ds, nparams, extra=False, spare=(), used=False):
    I = fresh_interp()
    sch = I.get("ode.int_methods")[method].cls
    cn = f"ode.{sch.name}"
    key = f"size {n}, {nt} times, blocks of {block}, batch {batch[0]}, {ds}, {nparams} parameters{' and extra ones' if extra else ''}{''.join(f', one {x}' for x in spare)}{', differentiated initial state' if y0grad else ''}{', after other sizes' if used else ''}"
    f = rhs(n, nparams)
    own = list(f.params)
    xs = []
    idle = []
    for k, x in enumerate(spare):
        q = inputs(f"s{k}", (2,) if k else (), "real")
        q.kind = "parameter"
        q.requires_grad = x != "frozen"
        if x == "frozen":
            f.params = f.params + [q]
        else:
            idle.append(q)
        f.own = [q] + f.own if k % 2 == 0 else f.own + [q]
    if extra:
        e = inputs("q", (), "real")
        e.requires_grad = True
        f.params = f.params + [e]
        xs = [e]
    saved = tl.INVERSE[0]
    tl.INVERSE[0] = "adjugate" if n <= 2 else "exact"
    try:
        with rep.guard("gradient", cn, key):
            if used:
                warm(I, method, batch, n, block, True, direct_solve_method=ds)
            tap = Tap(I)
            t, y0 = times(nt, batch), y0_of(batch, n)
            y0.requires_grad = y0grad
            kw = {"method": method, "block_size": block, "direct_solve_method": ds}
            if extra:
                kw["extra_params"] = xs
            n0 = len(I.events)
            res = I.call(I.get("ode.odeint_adjoint"), [f, y0, t], kw)
            app_ = [e for k, e in I.events[n0:] if k == "function-applied"]
            if len(app_) != 1:
                rep.bad("gradient", cn, key, where_func(I.get("ode.odeint_adjoint")), f"the integration passes {len(app_)} times through a custom gradient")
                return
            if nt <= 3:
                # another integration between the two passes
                I.call(I.get("ode.odeint_adjoint"), [rhs(n, nparams), y0_of(batch, n), times(nt, batch)], dict(kw, method=next(m for m in SCHEMES if m != method), extra_params=[]))
            cls, ctx, args = app_[0]["cls"], app_[0]["ctx"], app_[0]["args"]
            w = where_func(cls)
            tap2 = Tap(I)
            plain = I.call(I.get("ode.odeint"), [f, y0, t], {k: v for k, v in kw.items() if k != "extra_params"})
            rep.equal_tensors("value", cn, key, res, plain, w, "trajectory")
            G = new(res.shape, [var(f"g{k}") for k in range(res.ncells())], "float", "D")
            bw, _ = cls.lookup("backward")
            bw = bw.f if isinstance(bw, StaticVal) else bw
            grads = I.call(bw, [ctx, G], {})
            grads = grads if isinstance(grads, tuple) else (grads,)
            once = [clone(g) if isinstance(g, Tensor) else g for g in grads]
            # a second backward pass, as for another row of a Jacobian
            again = I.call(bw, [ctx, G], {})
            again = again if isinstance(again, tuple) else (again,)
            for k, (a, b) in enumerate(zip(once, again)):
                if isinstance(a, Tensor):
                    if not isinstance(b, Tensor) or tuple(a.shape) != tuple(b.shape) or any(x is not z and tm.equal(T(x), T(z)).status == tm.DIFFERENT for x, z in zip(a.cells(), b.cells())):
                        rep.bad("again", cn, key, w, "a second backward pass through the same integration gives another gradient")
                        break
            else:
                rep.fact("again", cn, key, len(once) == len(again), w, "a second backward pass returns another number of gradients")
            grads = tuple(once)
            want = oracle(method, f, res, t, G)
            tracked = own + xs + ([y0] if y0grad else [])
            idx = {id(a.st): k for k, a in enumerate(args) if isinstance(a, Tensor)}
            for k, p in enumerate(tracked):
                nm = "initial state" if p is y0 else p.st.tag
                if id(p.st) not in idx:
                    rep.bad("gradient", cn, key, w, f"{nm} is not tracked")
                    continue
                if idx[id(p.st)] >= len(grads):
                    rep.bad("gradient", cn, key, w, f"no gradient returned for {nm}")
                    continue
                g = grads[idx[id(p.st)]]
                linear_equal(rep, cn, f"{key}: {nm}", g, p.shape, want("y0" if p is y0 else p), mwhere(sch, "update_adjoint"), f"gradient of {nm}", res, nt)
            for p in idle:
                g = grads[idx[id(p.st)]] if id(p.st) in idx and idx[id(p.st)] < len(grads) else None
                ok = g is None or (isinstance(g, Tensor) and tuple(g.shape) == tuple(p.shape) and all(tm.equal(T(c), ZERO).status == tm.PROVED for c in g.cells()))
                rep.fact("idle", cn, key, ok, w, f"gradient {g!r} for a parameter without influence")
            if "frozen" in spare and not idle:
                rep.ok("idle", cn, key)
            spares = [q for q in f.own if q not in own]
            rest = [g for k, g in enumerate(grads) if k >= len(args) or not (isinstance(args[k], Tensor) and any(args[k].st is p.st for p in tracked + spares))]
            rep.fact("untracked", cn, key, len(grads) == len(args) and all(g is None for g in rest), w, f"{len(grads)} gradients for {len(args)} inputs")
    finally:
        tl.INVERSE[0] = saved


def sparse(rep, method, nt, block, batch):
    """loss gradients made of plain numbers, exactly zero at some times or tests"""
    I = fresh_interp()
    sch = I.get("ode.int_methods")[method].cls
    cn = f"ode.{sch.name}"
    full = set(range(nt))
    keeps = [set(), full] + [{k} for k in range(nt)] + [full - {k} for k in range(nt)] + [set(range(k)) for k in range(2, nt)] + [set(range(k, nt)) for k in range(1, nt - 1)]
    pats = [(sorted(k), None) for k in keeps] + ([(sorted(full), q) for q in range(batch)] if batch > 1 else [])
    for y0grad in (True, False):
        for keep, test in pats:
            key = f"{nt} times, blocks of {block}, batch {batch}, loss gradient at the times {keep}{f' of test {test}' if test is not None else ''}{', differentiated initial state' if y0grad else ''}"
            with rep.guard("sparse", cn, key):
                I = fresh_interp()
                f = rhs(1, 1)
                Tap(I)
                t, y0 = times(nt, (batch,)), y0_of((batch,), 1)
                y0.requires_grad = y0grad
                n0 = len(I.events)
                res = I.call(I.get("ode.odeint_adjoint"), [f, y0, t], {"method": method, "block_size": block})
                app_ = [e for k, e in I.events[n0:] if k == "function-applied"]
                cls, ctx, args = app_[0]["cls"], app_[0]["ctx"], app_[0]["args"]
                G = new(res.shape, [num((-1) ** q * (q + 2)) if q // batch in keep and test in (None, q % batch) else ZERO for q in range(res.ncells())], "float", "D")
                bw, _ = cls.lookup("backward")
                grads = I.call(bw.f if isinstance(bw, StaticVal) else bw, [ctx, G], {})
                want = oracle(method, f, res, t, G)
                w = mwhere(I.get("ode.FixedGridBlockSolver"), "rewind")
                for p in list(f.params) + ([y0] if y0grad else []):
                    k = [q for q, a in enumerate(args) if isinstance(a, Tensor) and a.st is p.st]
                    g = grads[k[0]] if k else None
                    o = want("y0" if p is y0 else p)
                    if g is None and all(x is ZERO for x in o):
                        continue
                    if not isinstance(g, Tensor):
                        rep.bad("sparse", cn, key, w, "no gradient is returned")
                        continue
                    rep.equal_tensors("sparse", cn, f"{key}: {'initial state' if p is y0 else 'parameter'}", g, (p.shape, o), w, "gradient")


def oracle(method, f, res, t, G):
    """discrete sensitivity: with y_k = y_{k-1} + dt_k f(t*, y*), the multipliers
    are lam_k = (dL/dy_k) and the gradient sums their products with the partials"""
    nt, n = res.shape[0], res.shape[-1]
    y, tc, gc = res.cells(), t.cells(), G.cells()
    nb = len(tc) // nt
    p = f.pcells()
    imp = SCHEMES[method]
    lam0 = []
    contrib = []     # (weights, args)
    for b in range(nb):
        Y = lambda k: [y[(k * nb + b) * n + i] for i in range(n)]
        g = lambda k: [gc[(k * nb + b) * n + i] for i in range(n)]
        a = lambda k: [tc[k * nb + b], *Y(k), *p]
        nxt = [ZERO] * n
        for k in range(nt - 1, 0, -1):
            dt = tc[k * nb + b] - tc[(k - 1) * nb + b]
            tot = [x + z for x, z in zip(g(k), nxt)]
            at = a(k) if imp else a(k - 1)
            J = [[app(f"{f.name}{i}", at, (1 + j,)) for j in range(n)] for i in range(n)]
            if imp:
                M = new((n, n), [(ONE if i == j else ZERO) - dt * J[j][i] for i in range(n) for j in range(n)], "float", "D")
                mu = tl.solve(M, new((n,), tot, "float", "D"), True).cells()
                nxt = mu
            else:
                mu = tot
                nxt = [tot[j] + dt * tm.add(*[J[i][j] * tot[i] for i in range(n)]) for j in range(n)]
            contrib.append(([dt * m for m in mu], at))
        lam0 += [x + z for x, z in zip(g(0), nxt)]

    def want(q):
        if isinstance(q, str):
            return lam0
        out = []
        for c in q.cells():
            j = 1 + n + [x for x in p].index(c)
            out.append(tm.add(*[w_ * app(f"{f.name}{i}", at, (j,)) for wts, at in contrib for i, w_ in enumerate(wts)]) if contrib else ZERO)
        return out

    return want


def linear_equal(rep, cn, key, got, shape, want, where, what, res, nt):
    """gradients are linear in the loss gradient: compare coefficient by coefficient"""
    if not isinstance(got, Tensor) or tuple(got.shape) != tuple(shape):
        rep.bad("gradient", cn, key, where, f"{what}: shape {fmtshape(got.shape) if isinstance(got, Tensor) else type(got).__name__} instead of {fmtshape(shape)}")
        return
    und = None
    m = res.ncells() // nt
    for i, (a, b) in enumerate(zip(got.cells(), want)):
        un = tm.uninit_vars(T(a))
        if un:
            rep.bad("gradient", cn, key, where, f"{what} reads uninitialised memory")
            return
        gs = sorted(v for v in tm.free(T(a)) | tm.free(T(b)) if v[0] == "g" and v[1:].isdigit())
        parts = [(None, tm.subst(T(a), {g: ZERO for g in gs}), ZERO)]
        for g in gs:
            da = d(a, g)
            if any(v in gs for v in tm.free(da)):
                parts = [("all", a, b)]
                break
            parts.append((g, da, d(b, g)))
        for g, x, z in parts:
            v = tm.equal(T(x), T(z))
            if v.status == tm.DIFFERENT:
                at = "" if g in (None, "all") else f" of the loss gradient at time {int(g[1:]) // m}"
                w = v.witness
                rep.bad("gradient", cn, key, where, f"{what}, entry {unflat(i, shape)}: the weight{at} is {short(x)}, the discrete equations give {short(z)}; at {fmt(w['point'])} these are {fmtnum(w['left'])} and {fmtnum(w['right'])}", w)
                return
            if v.status == tm.UNKNOWN:
                und = v.how
    if und:
        rep.und("gradient", cn, key, und)
    else:
        rep.ok("gradient", cn, key)
